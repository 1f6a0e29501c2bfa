// Package core is the deterministic simulator: a cooperative scheduler over real goroutines of which
// exactly one runs at a time, a virtual clock, and one stream of seeded, recorded decisions.
//
// The package is compiled without race instrumentation and without inlining (see simgo), so that its
// own bookkeeping is invisible to the race detector; the happens-before edges of the simulated
// primitives are announced explicitly. For the same reason it uses no maps, no copy() and no
// append(x, y...) on pointerful slices: those have race hooks inside the runtime.
package core

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"unsafe"
)

// Strategy kinds.
const (
	StratRandom = iota
	StratPCT
	StratStarve
	StratRunToBlock
)

// Config of one simulated run.
type Config struct {
	Seed      uint64
	Replay    []int // decisions; used instead of the PRNG when Replaying
	Replaying bool
	MaxSteps  int
	// Fault knobs in permille; drawn by the harness per run.
	TimerEarly int // chance at a yield that the next timer fires although goroutines can run
	Stall      int // chance at a yield that the running goroutine is stalled for a while
	PoolDrop   int // chance that a pool put is lost or a get misses
	Procs      int // value reported for GOMAXPROCS / NumCPU
	Strategy   int // -1: drawn from the seed
	// Jump: chance in permille at a yield that the whole program is suspended for a while,
	// milliseconds to a day.
	Jump int
	// Skew: chance in permille at a yield that the wall clock is set to another time; what
	// measures time by the monotonic clock does not notice.
	Skew int
	// NoDaemonTimers: background tickers (of the worker pool library) never fire,
	// so that a run can wait for hours or years without a step per tick.
	NoDaemonTimers bool
	Trace          bool
	RecordTrace    bool
}

const (
	gRunnable = iota
	gRunning
	gBlocked
	gDone
)

// G is a simulated goroutine.
type G struct {
	ID          int
	Site        string
	Daemon      bool
	wake        chan struct{}
	state       int8
	killed      bool
	report      bool
	prio        int64
	streak      int
	spin        uint // recent calls of Gosched in a crowd
	stall       int  // do not schedule before this step (unless nothing else can run)
	reason      string
	stack       []uintptr
	sel         selState
	spawnSync   byte
	raceIgnored bool
}

// Failure is a property violation or an abnormal end.
type Failure struct {
	Class string
	Msg   string
	Step  int
	Now   int64
}

type counter struct {
	name string
	n    int
}

type timer struct {
	at     int64
	seq    int
	fn     func()
	daemon bool
	ticker bool
	active bool
	pos    int
	step   int // when it was armed
	sync   byte
}

// Timer handle.
type Timer = timer

// Result of one run.
type Result struct {
	Failure    *Failure
	Steps      int
	Decisions  []int
	Hash       uint64
	Now        int64
	Switches   int
	Gs         int
	Strategy   int
	Trace      []string
	RaceErrors int
}

type world struct {
	cfg             Config
	gs              []*G // live
	runq            []*G // runnable, sorted by id
	cur             *G
	main            *G
	nextID          int
	now             int64
	timers          []*timer
	timerSeq        int
	daemonTimers    int
	steps           int
	seq             int
	rng             uint64 // scheduling and fault decisions
	vrng            uint64 // values handed to simulated code; the same in generation and replay
	base            int64  // wall clock at the start of the run
	skew            int64  // how far the wall clock has been set off
	skewed          int
	decisions       []int
	pos             int
	hash            uint64
	failure         *Failure
	ending          bool
	dying           bool
	dyingOps        int
	ctl             chan struct{}
	rep             chan struct{} // a blocked goroutine has recorded its stack
	ticks           int
	switches        int
	fired           int // timers
	gaveUp          bool
	idleDaemonTicks int
	jumped          int
	inInit          bool

	strat     int
	pSwitch   int
	pctPoints []int
	pctLow    int64
	starveMod int
	starveRes int

	chans    []chanSlot
	nchans   int
	nextChan int

	keys  []keySlot
	nkeys int

	mainDone bool
	atomic   int // nesting of Atomically
	quiet    int // 0 none, 1 waiting idle, 2 waiting quiet
	trace    []string
}

var w *world
var endSync byte
var counters []counter
var totalSim int64

// Resets are the package re-initialisation functions registered by generated code.
var resets []func()

// RegisterReset is called by generated code, in package initialisation order.
func RegisterReset(path string, f func()) { resets = append(resets, f) }

// Count adds to a named statistic, cumulative over the process.
func Count(name string) { CountN(name, 1) }

// CountN adds n to a named statistic.
func CountN(name string, n int) {
	for i := range counters {
		if counters[i].name == name {
			counters[i].n += n
			return
		}
	}
	counters = append(counters, counter{name, n})
}

// Counters reports all statistics.
func Counters(f func(name string, n int)) {
	for i := range counters {
		f(counters[i].name, counters[i].n)
	}
}

func (w *world) rand() uint64 {
	w.rng += 0x9E3779B97F4A7C15
	z := w.rng
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

func (w *world) randn(n int) int {
	if n <= 1 {
		return 0
	}
	return int(w.rand() % uint64(n))
}

func (w *world) mix(a, b, c uint64) {
	h := w.hash
	h ^= a*0x9E3779B97F4A7C15 + b*0xC2B2AE3D27D4EB4F + c
	h = (h << 23) | (h >> 41)
	h *= 0xD6E8FEB86659FD93
	w.hash = h
}

// decide records a decision among n alternatives. pick is the generator's choice.
func (w *world) decide(kind int, n int, pick int) int {
	v := pick
	if w.cfg.Replaying {
		v = 0
		if w.pos < len(w.cfg.Replay) {
			v = w.cfg.Replay[w.pos]
		}
		if v >= n || v < 0 {
			v = 0
		}
	}
	w.pos++
	w.decisions = append(w.decisions, v)
	id := 0
	if w.cur != nil {
		id = w.cur.ID
	}
	w.mix(uint64(kind)<<32|uint64(n), uint64(v)+1, uint64(id))
	return v
}

// Decision kinds, part of the trace hash.
const (
	kSched = iota + 1
	kSelect
	kChoose
	kFlip
	kMap
	kPool
)

// Active reports whether a simulated run is in progress.
func Active() bool { return w != nil && !w.dying }

// Choose draws a number in [0,n). Zero is the unremarkable default used when replay runs out.
func Choose(n int) int {
	if n <= 1 {
		return 0
	}
	if w == nil || w.dying {
		return 0
	}
	return w.decide(kChoose, n, w.randn(n))
}

// Flip is true with the given chance in permille.
func Flip(permille int) bool {
	if permille <= 0 || w == nil || w.dying {
		return false
	}
	p := 0
	if w.randn(1000) < permille {
		p = 1
	}
	return w.decide(kFlip, 2, p) == 1
}

// Rand64 is the randomness handed to simulated code.
func Rand64() uint64 {
	if w == nil {
		return 4
	}
	// not part of the decision stream: derived from the seed and call sequence only
	w.vrng += 0x9E3779B97F4A7C15
	z := w.vrng
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

// RandChoice is randomness handed to simulated code that must be small, recorded and shrinkable.
func RandChoice(n int) int { return Choose(n) }

// Seq returns the next event sequence number.
func Seq() int {
	if w == nil {
		return 0
	}
	w.seq++
	return w.seq
}

var progress int64

// Progress grows while the process gets on with its runs; it tells a slow run from a hanging one.
func Progress() int64 { return progress }

// Work notes progress outside the simulation (a long computation of an oracle).
func Work() { progress++ }

// Steps returns the number of scheduling points so far.
func Steps() int {
	if w == nil {
		return 0
	}
	return w.steps
}

// Epoch of the virtual clock (2024-01-01 UTC).
const Epoch int64 = 1704067200 * 1e9

// WallNow is the virtual wall clock in unix nanoseconds. Its origin differs between seeds.
func WallNow() int64 {
	if w == nil {
		return Epoch
	}
	return Epoch + w.base + w.now + w.skew
}

// Now is the virtual time in ns since the start of the run.
func Now() int64 {
	if w == nil {
		return 0
	}
	return w.now
}

// Procs is the simulated GOMAXPROCS.
func Procs() int {
	if w == nil || w.cfg.Procs == 0 {
		return 4
	}
	return w.cfg.Procs
}

// PoolDrop is the configured pool loss rate.
func PoolDrop() int {
	if w == nil || w.dying {
		return 0
	}
	return w.cfg.PoolDrop
}

// NumG is the number of live goroutines.
func NumG() int {
	if w == nil {
		return 1
	}
	return len(w.gs)
}

// CurID is the id of the running goroutine.
func CurID() int {
	if w == nil || w.cur == nil {
		return 0
	}
	return w.cur.ID
}

// Tracef adds a line to the run's trace, when tracing.
func Tracef(format string, a ...interface{}) {
	if w == nil || !w.cfg.Trace || w.dying {
		return
	}
	id := -1
	if w.cur != nil {
		id = w.cur.ID
	}
	w.trace = append(w.trace, fmt.Sprintf("step=%d t=%v g=%d ", w.steps, w.now, id)+fmt.Sprintf(format, a...))
}

// Tracing reports whether trace lines are kept.
func Tracing() bool { return w != nil && w.cfg.Trace && !w.dying }

func (w *world) event(op string) {
	if w.cfg.RecordTrace && !w.dying {
		if len(w.trace) >= 6000 { // keep the beginning and the end
			w.trace[2000] = "..."
			w.trace = append(w.trace[:2001], w.trace[4000:]...)
		}
		id := -1
		if w.cur != nil {
			id = w.cur.ID
		}
		w.trace = append(w.trace, fmt.Sprintf("step=%d t=%v g=%d %s", w.steps, w.now, id, op))
	}
}

// ---------------------------------------------------------------- scheduling

func (w *world) addRunnable(g *G) {
	g.state = gRunnable
	i := len(w.runq)
	w.runq = append(w.runq, g)
	for i > 0 && w.runq[i-1].ID > g.ID {
		w.runq[i] = w.runq[i-1]
		i--
	}
	w.runq[i] = g
}

func (w *world) delRunnable(g *G) {
	n := len(w.runq)
	for i := 0; i < n; i++ {
		if w.runq[i] == g {
			for ; i+1 < n; i++ {
				w.runq[i] = w.runq[i+1]
			}
			w.runq[n-1] = nil
			w.runq = w.runq[:n-1]
			return
		}
	}
}

func ready(g *G) {
	if g.state == gBlocked {
		w.addRunnable(g)
	}
}

func park(g *G) {
	raceDisable()
	<-g.wake
	raceEnable()
}

func unpark(g *G) {
	raceDisable()
	g.wake <- struct{}{}
	raceEnable()
}

func parkOn(g *G) {
	for {
		park(g)
		if g.report {
			g.report = false
			var pcs [64]uintptr
			n := runtime.Callers(2, pcs[:])
			st := make([]uintptr, n)
			for i := 0; i < n; i++ {
				st[i] = pcs[i]
			}
			g.stack = st
			raceDisable()
			w.rep <- struct{}{}
			raceEnable()
			continue
		}
		break
	}
	if g.killed {
		runtime.Goexit()
	}
}

// yield is a scheduling point of the running goroutine.
const (
	yOp = iota
	yGosched
)

// Yield is a plain scheduling point.
func Yield() { yieldKind(yOp) }

// Gosched is a scheduling point that prefers another goroutine.
func Gosched() { yieldKind(yGosched) }

// Atomically runs f without scheduling points; f must not block. For observations by the harness.
func Atomically(f func()) {
	if w == nil || w.dying {
		f()
		return
	}
	w.atomic++
	defer func() {
		if w != nil {
			w.atomic--
		}
	}()
	f()
}

func yieldKind(kind int) {
	if w == nil {
		return
	}
	if w.dying {
		w.dyingOps++
		if kind == yGosched || w.dyingOps > 20000 {
			runtime.Goexit()
		}
		return
	}
	if w.atomic > 0 {
		return
	}
	g := w.cur
	w.steps++
	progress++
	w.ticks = 0
	if w.steps > w.cfg.MaxSteps {
		if w.waitsLong() {
			w.gaveUp = true
			Count("inconclusive.long_wait")
			endRun(g)
		}
		w.fail("livelock", fmt.Sprintf("no end after %d scheduling points", w.steps))
		endRun(g)
	}
	n := len(w.runq) // runq does not contain the running goroutine
	nt := 0
	if w.cfg.TimerEarly > 0 && len(w.timers) > w.daemonTimers {
		nt = 1
	}
	nj := 0
	if w.cfg.Jump > 0 && w.jumped < 30 {
		nj = 1
	}
	nk := 0
	if w.cfg.Skew > 0 && w.skewed < 30 {
		nk = 1
	}
	if n == 0 && nt == 0 && nj == 0 && nk == 0 {
		return
	}
	v := w.decide(kSched, 1+n+nt+nj+nk, w.pickYield(g, kind, n, nt, nj, nk))
	if v == 0 {
		g.streak++
		return
	}
	if nk == 1 && v == 1+n+nt+nj {
		w.skewed++
		w.skew = skews[Choose(len(skews))]
		w.mix(79, 0, uint64(w.skew))
		Count("fault.wall_clock_set")
		return
	}
	if nj == 1 && v == 1+n+nt {
		// the program as a whole stands still; timers that are due fire as late as timers may
		w.jumped++
		w.now += jumps[Choose(len(jumps))]
		w.mix(78, 0, uint64(w.now))
		Count("fault.suspend")
		return
	}
	if v == 1+n && nt == 1 {
		Count("fault.timer_early")
		w.fireNextTimer()
		return
	}
	next := w.runq[v-1]
	w.switchTo(g, next, true)
	if kind == yGosched && !w.cfg.Replaying {
		g.stall = 0
	}
}

var jumps = [...]int64{1e6, 5e7, 1e9, 2e9, 11e9, 31e9, 65e9, 11 * 60e9, 61 * 60e9, 25 * 3600e9}

// skews are the deviations of the wall clock that it can be set to.
var skews = [...]int64{0, -1e6, 1e6, -1e9, 1e9, -90e9, 90e9, -2 * 3600e9, 2 * 3600e9, -366 * 24 * 3600e9, 3660 * 24 * 3600e9}

func (w *world) pickYield(g *G, kind, n, nt, nj, nk int) int {
	if w.cfg.Replaying {
		return 0
	}
	if nk == 1 && w.randn(1000) < w.cfg.Skew {
		return 1 + n + nt + nj
	}
	if nj == 1 && w.randn(1000) < w.cfg.Jump {
		return 1 + n + nt
	}
	if nt == 1 && w.randn(1000) < w.cfg.TimerEarly {
		return 1 + n
	}
	if n == 0 {
		return 0
	}
	if w.cfg.Stall > 0 && w.randn(1000) < w.cfg.Stall {
		g.stall = w.steps + 1 + w.randn(400)
		Count("fault.stall")
	}
	if kind == yGosched && n > 12 {
		// In a crowd, a goroutine that spins lets the others take a turn first, as it would
		// with a real scheduler; otherwise spinners use up the steps.
		if g.spin < 6 {
			g.spin++
		}
		g.stall = w.steps + n<<g.spin
	}
	force := kind == yGosched || g.streak > 300 || g.stall > w.steps
	switch w.strat {
	case StratRandom:
		if !force && w.randn(1000) >= w.pSwitch {
			return 0
		}
		return 1 + w.pickOther(n)
	case StratRunToBlock:
		if !force {
			return 0
		}
		return 1 + w.pickOther(n)
	case StratPCT:
		for i := range w.pctPoints {
			if w.pctPoints[i] == w.steps {
				w.pctLow--
				g.prio = w.pctLow
			}
		}
		if kind == yGosched || g.streak > 300 {
			w.pctLow--
			g.prio = w.pctLow
		}
		best, bp := -1, g.prio
		if g.stall > w.steps {
			bp = -1 << 62
		}
		for i := 0; i < n; i++ {
			if w.runq[i].stall > w.steps {
				continue
			}
			if w.runq[i].prio > bp {
				best, bp = i, w.runq[i].prio
			}
		}
		return best + 1
	default: // StratStarve
		victim := g.ID%w.starveMod == w.starveRes
		if !force && !victim && w.randn(1000) >= w.pSwitch {
			return 0
		}
		if victim && !force && w.randn(1000) < 30 {
			return 0
		}
		return 1 + w.pickOther(n)
	}
}

// pickOther picks an index into runq.
func (w *world) pickOther(n int) int {
	for try := 0; try < 4; try++ {
		i := w.randn(n)
		o := w.runq[i]
		if o.stall > w.steps {
			continue
		}
		if w.strat == StratStarve && o.ID%w.starveMod == w.starveRes && w.randn(1000) >= 30 {
			continue
		}
		return i
	}
	i := w.randn(n)
	if n > 12 {
		for k := 0; k < n; k++ {
			if j := (i + k) % n; w.runq[j].stall <= w.steps {
				return j
			}
		}
	}
	return i
}

func (w *world) pickNext(n int) int {
	if w.cfg.Replaying {
		return 0
	}
	if w.strat == StratPCT {
		best, bp := 0, int64(-1<<63)
		for i := 0; i < n; i++ {
			p := w.runq[i].prio
			if w.runq[i].stall > w.steps {
				p -= 1 << 40
			}
			if p > bp {
				best, bp = i, p
			}
		}
		return best
	}
	return w.pickOther(n)
}

func (w *world) switchTo(g, next *G, runnable bool) {
	w.delRunnable(next)
	if runnable {
		w.addRunnable(g)
	}
	w.switches++
	g.streak = 0
	next.streak = 0
	next.state = gRunning
	w.cur = next
	unpark(next)
	parkOn(g)
}

// next selects the goroutine to run when the current one cannot. nil: the run must end.
func (w *world) next() *G {
	for {
		n := len(w.runq)
		if n > 0 {
			nt := 0
			if w.cfg.TimerEarly > 0 && len(w.timers) > w.daemonTimers {
				nt = 1
			}
			pick := 0
			if n+nt > 1 {
				if !w.cfg.Replaying {
					if nt == 1 && w.randn(1000) < w.cfg.TimerEarly {
						pick = n
					} else {
						pick = w.pickNext(n)
					}
				}
				pick = w.decide(kSched, n+nt, pick)
			}
			if pick == n {
				Count("fault.timer_early")
				w.fireNextTimer()
				continue
			}
			g := w.runq[pick]
			w.delRunnable(g)
			if !g.Daemon {
				w.idleDaemonTicks = 0
			}
			g.state = gRunning
			g.streak = 0
			w.cur = g
			w.switches++
			return g
		}
		// nothing can run
		if w.quiet == 1 {
			w.quiet = 0
			ready(w.main)
			continue
		}
		if len(w.timers) > w.daemonTimers {
			w.fireNextTimer()
			continue
		}
		if w.quiet == 2 {
			w.quiet = 0
			ready(w.main)
			continue
		}
		if w.daemonTimers > 0 && w.idleDaemonTicks < 4 {
			w.idleDaemonTicks++
			w.fireNextTimer()
			continue
		}
		return nil
	}
}

// block suspends the running goroutine until ready(g).
func block(reason string) {
	if w == nil {
		panic("simulator: blocking operation outside a run: " + reason)
	}
	if w.dying {
		runtime.Goexit()
	}
	if w.atomic > 0 {
		panic("simulator: blocking operation inside Atomically: " + reason)
	}
	g := w.cur
	g.state = gBlocked
	g.spin = 0
	g.reason = reason
	nx := w.next()
	if nx == nil {
		w.fail("deadlock", w.describeBlocked())
		endRun(g)
	}
	if nx == g {
		return
	}
	unpark(nx)
	parkOn(g)
}

func (w *world) describeBlocked() string {
	s := "every goroutine is blocked:"
	for _, g := range w.gs {
		if g.Daemon {
			continue
		}
		s += fmt.Sprintf(" g%d(%s: %s)", g.ID, g.Site, g.reason)
	}
	return s
}

func (w *world) fail(class, msg string) {
	if w.failure == nil {
		w.failure = &Failure{Class: class, Msg: msg, Step: w.steps, Now: w.now}
	}
}

// Fail reports a violation and ends the run. It does not return.
func Fail(class, format string, a ...interface{}) {
	if w == nil {
		panic("Fail outside a run: " + class + ": " + fmt.Sprintf(format, a...))
	}
	if w.dying {
		runtime.Goexit()
	}
	w.fail(class, fmt.Sprintf(format, a...))
	endRun(w.cur)
}

func endRun(g *G) {
	w.ending = true
	raceDisable()
	w.ctl <- struct{}{}
	raceEnable()
	park(g)
	runtime.Goexit()
}

// waitsLong tells whether somebody still waits for a time that is far off, while others who wake up
// again and again to look whether anything has changed used up the steps.
func (w *world) waitsLong() bool {
	if w.fired < w.cfg.MaxSteps/50 {
		return false
	}
	for _, t := range w.timers {
		if !t.daemon && t.step < w.steps/2 && t.at > w.now {
			return true
		}
	}
	return false
}

// Tick is called in every loop iteration of simulated code: a loop that never reaches a scheduling
// point ends the run instead of hanging the process.
func Tick() {
	if w == nil {
		return
	}
	w.ticks++
	if w.ticks > 3000000 {
		if w.dying {
			runtime.Goexit()
		}
		w.fail("livelock", "a loop ran 3000000 iterations without reaching a scheduling point")
		endRun(w.cur)
	}
}

func (w *world) spawn(site string, f func(), daemon bool) *G {
	g := &G{ID: w.nextID, Site: site, Daemon: daemon, wake: make(chan struct{}, 1)}
	w.nextID++
	w.gs = append(w.gs, g)
	g.prio = int64(w.rand() >> 24)
	RaceReleaseMerge(unsafe.Pointer(&g.spawnSync))
	go body(g, f)
	return g
}

func body(g *G, f func()) {
	defer finish(g)
	parkOn(g)
	RaceAcquire(unsafe.Pointer(&g.spawnSync))
	f()
}

func finish(g *G) {
	if r := recover(); r != nil && !g.killed && !w.dying {
		w.fail("crash", fmt.Sprintf("unrecovered panic in goroutine %d (%s): %v", g.ID, g.Site, shortVal(r)))
		if w.cfg.Trace {
			w.trace = append(w.trace, string(debug.Stack()))
		}
		w.ending = true
	}
	RaceReleaseMerge(unsafe.Pointer(&endSync))
	g.state = gDone
	if g == w.main {
		w.mainDone = true
	}
	n := len(w.gs)
	for i := 0; i < n; i++ {
		if w.gs[i] == g {
			for ; i+1 < n; i++ {
				w.gs[i] = w.gs[i+1]
			}
			w.gs[n-1] = nil
			w.gs = w.gs[:n-1]
			break
		}
	}
	if w.dying || w.ending || g == w.main {
		w.ending = true
		raceDisable()
		w.ctl <- struct{}{}
		raceEnable()
		return
	}
	nx := w.next()
	if nx == nil {
		w.fail("deadlock", w.describeBlocked())
		w.ending = true
		raceDisable()
		w.ctl <- struct{}{}
		raceEnable()
		return
	}
	unpark(nx)
}

func shortVal(v interface{}) string {
	s := fmt.Sprintf("%v", v)
	for i := 0; i < len(s); i++ {
		if s[i] == '\n' {
			s = s[:i]
			break
		}
	}
	if len(s) > 200 {
		s = s[:200]
	}
	return s
}

// Go starts a simulated goroutine.
func Go(site string, f func()) {
	if w == nil || w.dying {
		return // outside a run: package initialisers, re-executed inside every run
	}
	d := w.inInit || (w.cur != nil && w.cur.Daemon)
	g := w.spawn(site, f, d)
	w.addRunnable(g)
	w.event("go " + site)
	yieldKind(yOp)
}

// Run executes main under the simulator.
func Run(cfg Config, main func()) Result {
	if cfg.MaxSteps == 0 {
		cfg.MaxSteps = 50000
	}
	w = &world{cfg: cfg, rng: cfg.Seed*0x9E3779B97F4A7C15 + 0x1234567, ctl: make(chan struct{}, 1), rep: make(chan struct{}, 1)}
	w.vrng = cfg.Seed*0xD6E8FEB86659FD93 + 0x7654321
	w.rand()
	w.base = int64(Rand64() >> 9)
	w.drawStrategy()
	RaceAcquire(unsafe.Pointer(&endSync))
	g := w.spawn("main", func() {
		w.inInit = true
		for _, f := range resets {
			f()
		}
		w.inInit = false
		main()
	}, false)
	w.main = g
	g.state = gRunning
	w.cur = g
	unpark(g)
	raceDisable()
	<-w.ctl
	raceEnable()
	if w.failure == nil && !w.mainDone && !w.gaveUp {
		panic("simulator: the run ended although its main goroutine had not")
	}
	res := Result{Failure: w.failure, Steps: w.steps, Decisions: w.decisions, Hash: w.hash, Now: w.now,
		Switches: w.switches, Gs: w.nextID, Strategy: w.strat, RaceErrors: RaceErrors()}
	w.kill()
	res.Trace = w.trace
	RaceAcquire(unsafe.Pointer(&endSync))
	totalSim += w.now
	w = nil
	return res
}

func (w *world) kill() {
	w.dying = true
	for len(w.gs) > 0 {
		g := w.gs[len(w.gs)-1]
		g.killed = true
		w.cur = g
		w.dyingOps = 0
		w.ticks = 0
		unpark(g)
		raceDisable()
		<-w.ctl
		raceEnable()
	}
}

// TotalSim is the simulated time covered by the process so far.
func TotalSim() int64 { return totalSim }

func (w *world) drawStrategy() {
	s := w.cfg.Strategy
	r := w.randn(100)
	if s < 0 {
		switch {
		case r < 50:
			s = StratRandom
		case r < 80:
			s = StratPCT
		case r < 95:
			s = StratStarve
		default:
			s = StratRunToBlock
		}
	}
	w.strat = s
	ps := [...]int{20, 60, 150, 300, 500, 800}
	w.pSwitch = ps[w.randn(len(ps))]
	w.starveMod = 2 + w.randn(4)
	w.starveRes = w.randn(w.starveMod)
	ks := [...]int{30, 100, 300, 1000, 3000}
	k := ks[w.randn(len(ks))]
	d := w.randn(6)
	for i := 0; i < d; i++ {
		w.pctPoints = append(w.pctPoints, 1+w.randn(k))
	}
}

// ---------------------------------------------------------------- quiescence and leaks

// WaitIdle blocks the main goroutine until nothing else can run, without advancing time.
func WaitIdle() { waitQuiet(1) }

// WaitQuiet blocks the main goroutine until nothing else can run and no timer is pending.
func WaitQuiet() { waitQuiet(2) }

func waitQuiet(k int) {
	if w.cur != w.main {
		panic("WaitQuiet outside main")
	}
	if w.dying {
		runtime.Goexit()
	}
	w.quiet = k
	g := w.cur
	g.state = gBlocked
	g.reason = "waiting for quiescence"
	nx := w.next()
	if nx == g {
		return
	}
	unpark(nx)
	parkOn(g)
}

// Blocked describes a goroutine that is blocked now.
type Blocked struct {
	ID     int
	Site   string
	Reason string
	Frames []string
}

// BlockedGs lists the non-daemon goroutines other than the caller, with their stacks.
func BlockedGs() []Blocked {
	var out []Blocked
	self := w.cur
	for _, g := range w.gs {
		if g == self || g.Daemon || g.state != gBlocked {
			continue
		}
		g.report = true
		unpark(g)
		raceDisable()
		<-w.rep
		raceEnable()
		b := Blocked{ID: g.ID, Site: g.Site, Reason: g.reason}
		fr := runtime.CallersFrames(g.stack)
		for {
			f, more := fr.Next()
			b.Frames = append(b.Frames, f.Function)
			if !more {
				break
			}
		}
		out = append(out, b)
	}
	return out
}

// PendingTimers counts pending timers not owned by daemons.
func PendingTimers() int {
	if w == nil {
		return 0
	}
	return len(w.timers) - w.daemonTimers
}

// ---------------------------------------------------------------- timers

func (w *world) timerLess(a, b *timer) bool {
	if a.at != b.at {
		return a.at < b.at
	}
	return a.seq < b.seq
}

func (w *world) up(i int) {
	for i > 0 {
		p := (i - 1) / 2
		if !w.timerLess(w.timers[i], w.timers[p]) {
			break
		}
		w.swapT(i, p)
		i = p
	}
}

func (w *world) down(i int) {
	for {
		l := 2*i + 1
		if l >= len(w.timers) {
			return
		}
		if l+1 < len(w.timers) && w.timerLess(w.timers[l+1], w.timers[l]) {
			l++
		}
		if !w.timerLess(w.timers[l], w.timers[i]) {
			return
		}
		w.swapT(i, l)
		i = l
	}
}

func (w *world) swapT(i, j int) {
	w.timers[i], w.timers[j] = w.timers[j], w.timers[i]
	w.timers[i].pos = i
	w.timers[j].pos = j
}

func (w *world) removeTimer(t *timer) {
	i := t.pos
	n := len(w.timers) - 1
	if i != n {
		w.swapT(i, n)
	}
	w.timers[n] = nil
	w.timers = w.timers[:n]
	if i < n {
		w.down(i)
		w.up(i)
	}
	t.active = false
	if t.daemon {
		w.daemonTimers--
	}
}

func (w *world) fireNextTimer() {
	t := w.timers[0]
	w.removeTimer(t)
	if t.at > w.now {
		w.now = t.at
	}
	w.mix(77, uint64(t.seq), uint64(w.now))
	w.fired++
	Count("timers_fired")
	t.fn()
}

// NewTimer schedules fn (run by the scheduler; it must not block) after d.
func NewTimer(d int64, fn func()) *Timer {
	t := &timer{fn: fn}
	StartTimer(t, d)
	return t
}

// MakeTimer makes an inactive timer.
func MakeTimer(fn func()) *Timer { return &timer{fn: fn} }

// SetFn sets the function of a timer.
func (t *timer) SetFn(fn func()) { t.fn = fn }

// MakeTicker makes an inactive recurring timer. Recurring timers do not count as pending work.
func MakeTicker() *Timer { return &timer{ticker: true} }

// StartTimer arms an inactive timer.
func StartTimer(t *Timer, d int64) {
	if w == nil || w.dying {
		return
	}
	if d < 0 {
		d = 0
	}
	t.at = w.now + d
	if t.at < w.now {
		t.at = 1<<63 - 1
	}
	w.timerSeq++
	t.seq = w.timerSeq
	t.active = true
	t.daemon = t.ticker || w.inInit || (w.cur != nil && w.cur.Daemon)
	if t.daemon && w.cfg.NoDaemonTimers {
		t.active = false
		return
	}
	if t.daemon {
		w.daemonTimers++
	}
	t.step = w.steps
	t.pos = len(w.timers)
	w.timers = append(w.timers, t)
	w.up(t.pos)
	RaceReleaseMerge(unsafe.Pointer(&t.sync))
}

// StopTimer disarms a timer and reports whether it was armed.
func StopTimer(t *Timer) bool {
	if w == nil || !t.active {
		return false
	}
	w.removeTimer(t)
	return true
}

// AcquireTimer announces the happens-before edge from arming to firing.
func AcquireTimer(t *Timer) { RaceAcquire(unsafe.Pointer(&t.sync)) }

// SpawnFromTimer starts a goroutine from a timer function.
func SpawnFromTimer(t *Timer, site string, f func()) {
	g := w.spawn(site, func() { AcquireTimer(t); f() }, t.daemon)
	w.addRunnable(g)
}

// Sleep blocks for d of virtual time.
func Sleep(d int64) {
	if w == nil {
		return
	}
	if w.dying {
		runtime.Goexit()
	}
	if d <= 0 {
		yieldKind(yOp)
		return
	}
	g := w.cur
	NewTimer(d, func() { ready(g) })
	block("sleep")
}

// ---------------------------------------------------------------- wait queues for locks

// WaitQ is a FIFO of blocked goroutines. The zero value is ready to use.
type WaitQ struct{ q []*G }

// Len is the number of waiters.
func (q *WaitQ) Len() int { return len(q.q) }

// Wait enqueues the running goroutine and blocks it.
func (q *WaitQ) Wait(reason string) {
	if w == nil {
		panic("simulator: would block outside a run: " + reason)
	}
	if w.dying {
		runtime.Goexit()
	}
	q.q = append(q.q, w.cur)
	block(reason)
}

// WakeOne readies the first waiter.
func (q *WaitQ) WakeOne() bool {
	n := len(q.q)
	if n == 0 {
		return false
	}
	g := q.q[0]
	for i := 0; i+1 < n; i++ {
		q.q[i] = q.q[i+1]
	}
	q.q[n-1] = nil
	q.q = q.q[:n-1]
	ready(g)
	return true
}

// WakeAll readies all waiters.
func (q *WaitQ) WakeAll() {
	for q.WakeOne() {
	}
}

// Dying reports that the run is over and goroutines are being unwound.
func Dying() bool { return w != nil && w.dying }

// Exit unwinds the running goroutine.
func Exit() { runtime.Goexit() }

// Fatal is an unrecoverable runtime error of the simulated program (like "unlock of unlocked mutex").
func Fatal(msg string) {
	if w == nil {
		panic(msg)
	}
	if w.dying {
		runtime.Goexit()
	}
	w.fail("crash", "fatal error: "+msg)
	endRun(w.cur)
}

// Event notes an operation in the recorded trace.
func Event(op string) {
	if w != nil {
		w.event(op)
	}
}

// Recording reports whether operation events are kept.
func Recording() bool { return w != nil && w.cfg.RecordTrace }
