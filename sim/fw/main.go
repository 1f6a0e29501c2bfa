package fw

import (
	"bufio"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"log"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync/atomic"
	"syscall"
	"time"

	"verif.local/vsim/core"
)

// CfgRec is the fault configuration of a run, recorded in replay files.
type CfgRec struct {
	TimerEarly int  `json:"timer_early"`
	Stall      int  `json:"stall"`
	Jump       int  `json:"suspend,omitempty"`
	Skew       int  `json:"wall_clock_set,omitempty"`
	PoolDrop   int  `json:"pool_drop"`
	Procs      int  `json:"procs"`
	Strategy   int  `json:"strategy"`
	MaxSteps   int  `json:"max_steps"`
	NoTickers  bool `json:"no_background_tickers,omitempty"`
}

// Failure is a violation found by a run; it is also the replay file.
type Failure struct {
	Prop      string   `json:"property"`
	Scenario  string   `json:"scenario"`
	Seed      uint64   `json:"seed"`
	Race      bool     `json:"race_build"`
	Class     string   `json:"class"`
	Msg       string   `json:"message"`
	Step      int      `json:"step"`
	SimTimeNs int64    `json:"sim_time_ns"`
	Hash      string   `json:"trace_hash"`
	Generate  bool     `json:"generate"` // decisions come from the seed, not from the list
	Cfg       CfgRec   `json:"config"`
	Plan      *Plan    `json:"plan"`
	Decisions []int    `json:"decisions"`
	Schedule  []string `json:"schedule,omitempty"`
	Minimised bool     `json:"minimised"`
	Note      string   `json:"note,omitempty"`
}

var stderr = os.Stderr

var (
	fMode  = flag.String("mode", "worker", "worker, replay, minimise, hash, list")
	fProp  = flag.String("prop", "", "property")
	fSeed  = flag.Uint64("seed", 1, "base seed")
	fFrom  = flag.Uint64("from", 0, "first run index")
	fStep  = flag.Uint64("step", 1, "run index step")
	fMax   = flag.Uint64("max", 0, "maximum number of runs (0: no limit)")
	fTime  = flag.Duration("time", 10*time.Second, "time limit")
	fOut   = flag.String("out", "", "output prefix")
	fFile  = flag.String("file", "", "replay file")
	fTier  = flag.String("tier", "quick", "tier")
	fTrace = flag.Bool("trace", false, "print the schedule")
	fDump  = flag.Bool("dump", false, "write the plan before running")
	fOnly  = flag.String("scenario", "", "only this scenario")
)

func mixSeed(base, i uint64) uint64 {
	z := base*0x9E3779B97F4A7C15 + i*0xD1B54A32D192ED03 + 0x632BE59BD9B4E019
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

func ofProp(prop string) []*Scenario {
	var out []*Scenario
	for _, s := range scenarios {
		if s.Prop == prop && !(core.RaceEnabled && s.NoRace) && (*fOnly == "" || *fOnly == s.Name) {
			out = append(out, s)
		}
	}
	return out
}

func gcd(a, b uint64) uint64 {
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

func choose(prop string, i uint64) *Scenario {
	ss := ofProp(prop)
	tot := 0
	for _, s := range ss {
		tot += s.Weight
	}
	if tot == 0 {
		return nil
	}
	// A stride spreads the scenarios evenly over the runs.
	stride := uint64(tot)*618/1000 + 1
	for gcd(stride, uint64(tot)) != 1 {
		stride++
	}
	k := int(i % uint64(tot) * stride % uint64(tot))
	for _, s := range ss {
		if k < s.Weight {
			return s
		}
		k -= s.Weight
	}
	return nil
}

func genRun(s *Scenario, seed uint64) (*Plan, core.Config) {
	r := &R{s: seed ^ 0xABCDEF, Tier: *fTier, Race: core.RaceEnabled}
	p := s.Gen(r)
	c := core.Config{Seed: seed, Strategy: -1, MaxSteps: 60000,
		TimerEarly: r.Pick(0, 0, 0, 5, 30), Stall: r.Pick(0, 0, 0, 5, 20), PoolDrop: r.Pick(0, 0, 100, 500), Procs: r.In(1, 8), Jump: r.Pick(0, 0, 0, 0, 0, 2, 10, 40), Skew: r.Pick(0, 0, 0, 0, 0, 0, 0, 5, 30)}
	if s.Cfg != nil {
		s.Cfg(r, p, &c)
	}
	n := 0
	for _, ops := range p.C {
		n += len(ops) + 3
	}
	if n > 120 {
		c.MaxSteps += 400 * n
	}
	if c.MaxSteps < 1000000 {
		c.MaxSteps *= 5
	}
	for _, ops := range p.C {
		for _, o := range ops {
			// a wait of minutes to years (in ms): the pool library's purge ticker would cost a step per second of it
			if o.B > 70000 {
				c.NoDaemonTimers = true
			}
		}
	}
	return p, c
}

func cfgRec(c core.Config) CfgRec {
	return CfgRec{c.TimerEarly, c.Stall, c.Jump, c.Skew, c.PoolDrop, c.Procs, c.Strategy, c.MaxSteps, c.NoDaemonTimers}
}

func (c CfgRec) config(seed uint64) core.Config {
	return core.Config{Seed: seed, TimerEarly: c.TimerEarly, Stall: c.Stall, Jump: c.Jump, Skew: c.Skew, PoolDrop: c.PoolDrop, Procs: c.Procs,
		Strategy: c.Strategy, MaxSteps: c.MaxSteps, NoDaemonTimers: c.NoTickers}
}

var raceLog string

func execute(s *Scenario, p *Plan, c core.Config) core.Result {
	before := core.RaceErrors()
	off := raceLogSize()
	res := core.Run(c, func() { s.Run(p) })
	if res.RaceErrors > before {
		f := &core.Failure{Class: "data-race", Msg: raceText(off), Step: res.Steps, Now: res.Now}
		if res.Failure == nil {
			res.Failure = f
		}
	}
	return res
}

func raceLogPath() string {
	for _, f := range strings.Fields(os.Getenv("GORACE")) {
		if strings.HasPrefix(f, "log_path=") {
			return fmt.Sprintf("%s.%d", strings.TrimPrefix(f, "log_path="), os.Getpid())
		}
	}
	return ""
}

func raceLogSize() int64 {
	if !core.RaceEnabled {
		return 0
	}
	st, err := os.Stat(raceLogPath())
	if err != nil {
		return 0
	}
	return st.Size()
}

func raceText(off int64) string {
	b, err := os.ReadFile(raceLogPath())
	if err != nil || int64(len(b)) < off {
		return "data race reported by the race detector"
	}
	var out []string
	n := 0
	for _, l := range strings.Split(string(b[off:]), "\n") {
		t := strings.TrimSpace(l)
		if strings.Contains(t, "vsim") || t == "" || strings.HasPrefix(t, "===") {
			continue
		}
		if strings.HasPrefix(t, "/") {
			if i := strings.Index(t, " +0x"); i > 0 {
				t = t[:i]
			}
			if i := strings.LastIndex(t, "/"); i >= 0 {
				t = "(" + t[i+1:] + ")"
			}
		}
		if i := strings.Index(t, " at 0x"); i > 0 {
			t = t[:i] + strings.TrimLeft(t[i+6:], "0123456789abcdef")
		}
		if strings.HasPrefix(t, "Goroutine") && strings.Contains(t, "created") {
			break
		}
		out = append(out, t)
		n++
		if n > 16 {
			break
		}
	}
	return "data race: " + strings.Join(out, " ")
}

func scenarioOf(prop, name string) *Scenario {
	for _, s := range scenarios {
		if s.Prop == prop && s.Name == name {
			return s
		}
	}
	return nil
}

// Main is the entry point of the simulation program.
func Main() {
	// What the code under test logs (a recovered panic's stack, say) is not output of the check.
	if f, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stderr = f
		log.SetOutput(f)
	}
	// As in a program of go-pkg's own language version, panic(nil) is possible.
	os.Setenv("GODEBUG", "panicnil=1")
	flag.Parse()
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(400)
	switch *fMode {
	case "list":
		for _, s := range scenarios {
			fmt.Println(s.Prop, s.Name, s.Weight)
		}
	case "worker":
		worker()
	case "hash":
		hashes()
	case "replay":
		replay()
	case "minimise":
		minimise()
	}
}

const noVerdict = 7 // exit status: the run was given up

// watchdog ends the process when a run hangs: it uses the processor (or the clock passes) without a
// single scheduling point, inside code of the program under test that the simulator cannot interrupt.
// A run that gets on, but takes longer than slow, is given up without a verdict.
var runStarted int64 // unix seconds, written by the main loop

func cpuTime() time.Duration {
	var u syscall.Rusage
	if syscall.Getrusage(syscall.RUSAGE_SELF, &u) != nil {
		return 0
	}
	return time.Duration(u.Utime.Nano() + u.Stime.Nano())
}

func watchdog(slow time.Duration, giveUp func()) {
	go func() {
		last, lastRun := int64(-1), int64(0)
		var wall time.Time
		var cpu time.Duration
		for {
			time.Sleep(time.Second)
			st := atomic.LoadInt64(&runStarted)
			if n := core.Progress(); n != last || st != lastRun || st == 0 {
				last, lastRun, wall, cpu = n, st, time.Now(), cpuTime()
			}
			if st == 0 {
				continue
			}
			if used := cpuTime() - cpu; used > 40*time.Second || time.Since(wall) > 240*time.Second {
				buf := make([]byte, 1<<16)
				n := runtime.Stack(buf, true)
				fmt.Fprintf(stderr, "WATCHDOG: a run used %v of processor time, %v of real time, without a scheduling point\n%s\n",
					used.Round(time.Second), time.Since(wall).Round(time.Second), buf[:n])
				os.Exit(5)
			}
			if time.Now().Unix()-st > int64(slow/time.Second) {
				giveUp()
			}
		}
	}()
}

type stats struct {
	Runs        int            `json:"runs"`
	Steps       int64          `json:"steps"`
	SimNs       int64          `json:"sim_ns"`
	RealSec     float64        `json:"real_sec"`
	Switches    int64          `json:"switches"`
	Goroutines  int64          `json:"goroutines"`
	Counters    map[string]int `json:"counters"`
	Scenarios   map[string]int `json:"scenarios"`
	Strategies  map[string]int `json:"strategies"`
	Nontrivial  int            `json:"nontrivial"`
	Rechecked   int            `json:"rechecked"`
	Mismatch    int            `json:"mismatch"`
	MaxGs       int            `json:"max_goroutines"`
	Failures    int            `json:"failures"`
	FirstIndex  uint64         `json:"first_index"`
	LastIndex   uint64         `json:"last_index"`
	Samples     []sample       `json:"samples"`
	FaultConfig map[string]int `json:"fault_config"`
}

type sample struct {
	Seed     uint64 `json:"seed"`
	Scenario string `json:"scenario"`
	Steps    int    `json:"steps"`
	Gs       int    `json:"goroutines"`
	SimNs    int64  `json:"sim_ns"`
	Hash     string `json:"hash"`
	Plan     *Plan  `json:"plan"`
}

func worker() {
	st := stats{Counters: map[string]int{}, Scenarios: map[string]int{}, Strategies: map[string]int{}, FaultConfig: map[string]int{}, FirstIndex: *fFrom}
	cur, err := os.OpenFile(*fOut+".cur", os.O_CREATE|os.O_RDWR|os.O_TRUNC, 0o644)
	if err != nil {
		fmt.Fprintln(stderr, err)
		os.Exit(4)
	}
	hf, _ := os.Create(*fOut + ".hashes")
	hw := bufio.NewWriter(hf)
	start := time.Now()
	i := *fFrom
	finish := func() {
		atomic.StoreInt64(&runStarted, 0)
		st.LastIndex = i
		hw.Flush()
		hf.Close()
		st.RealSec = time.Since(start).Seconds()
		st.SimNs = core.TotalSim()
		core.Counters(func(n string, v int) { st.Counters[n] += v })
		writeJSON(*fOut+".stats", st)
	}
	watchdog(2*time.Minute, func() {
		st.Counters["runs_given_up_as_too_slow"]++
		finish()
		os.Exit(0)
	})
	strat := []string{"random", "pct", "starve", "run-to-block"}
	var line [32]byte
	for ; ; i += *fStep {
		if *fMax > 0 && uint64(st.Runs) >= *fMax {
			break
		}
		if time.Since(start) > *fTime {
			break
		}
		seed := mixSeed(*fSeed, i)
		s := choose(*fProp, i)
		if s == nil {
			break
		}
		binary.LittleEndian.PutUint64(line[:], i+1)
		cur.WriteAt(line[:8], 0)
		atomic.StoreInt64(&runStarted, time.Now().Unix())
		p, c := genRun(s, seed)
		pc := p.Clone()
		if *fDump {
			writeJSON(*fOut+".plan", Failure{Prop: *fProp, Scenario: s.Name, Seed: seed, Race: core.RaceEnabled, Generate: true, Cfg: cfgRec(c), Plan: pc})
		}
		res := execute(s, p, c)
		st.Runs++
		st.Scenarios[s.Name]++
		st.Steps += int64(res.Steps)
		st.Switches += int64(res.Switches)
		st.Goroutines += int64(res.Gs)
		if res.Gs > st.MaxGs {
			st.MaxGs = res.Gs
		}
		st.Strategies[strat[res.Strategy]]++
		if c.TimerEarly > 0 {
			st.FaultConfig["runs_with_early_timers"]++
		}
		if c.Stall > 0 {
			st.FaultConfig["runs_with_stalled_goroutines"]++
		}
		if c.Jump > 0 {
			st.FaultConfig["runs_with_suspensions"]++
		}
		if c.Skew > 0 {
			st.FaultConfig["runs_with_wall_clock_changes"]++
		}
		if c.PoolDrop > 0 {
			st.FaultConfig["runs_with_lossy_pools"]++
		}
		nontrivial := res.Switches > 1 || len(res.Decisions) > 0
		if nontrivial {
			st.Nontrivial++
			var b [8]byte
			binary.LittleEndian.PutUint64(b[:], res.Hash)
			hw.Write(b[:])
		}
		if len(st.Samples) < 3 && st.Runs%7 == 3 {
			st.Samples = append(st.Samples, sample{seed, s.Name, res.Steps, res.Gs, res.Now, fmt.Sprintf("%016x", res.Hash), pc})
		}
		if res.Failure != nil {
			st.Failures++
			f := Failure{Prop: *fProp, Scenario: s.Name, Seed: seed, Race: core.RaceEnabled, Class: res.Failure.Class, Msg: res.Failure.Msg,
				Step: res.Failure.Step, SimTimeNs: res.Failure.Now, Hash: fmt.Sprintf("%016x", res.Hash), Cfg: cfgRec(c), Plan: pc, Decisions: res.Decisions}
			writeJSON(*fOut+".fail", f)
			break
		}
		if st.Runs%64 == 1 {
			// the same seed must give the same execution
			st.Rechecked++
			p2, c2 := genRun(s, seed)
			r2 := execute(s, p2, c2)
			if r2.Hash != res.Hash || r2.Steps != res.Steps {
				st.Mismatch++
				fmt.Fprintf(stderr, "DETERMINISM: prop=%s scenario=%s index=%d seed=%d: %016x/%d then %016x/%d\n", *fProp, s.Name, i, seed, res.Hash, res.Steps, r2.Hash, r2.Steps)
			}
		}
	}
	finish()
}

func writeJSON(path string, v interface{}) {
	b, err := json.Marshal(v)
	if err == nil {
		err = os.WriteFile(path, append(b, '\n'), 0o644)
	}
	if err != nil {
		fmt.Fprintln(stderr, err)
		os.Exit(4)
	}
}

// hashes prints the execution of the given run indexes, for cross-process determinism checks.
func hashes() {
	watchdog(time.Minute, func() { os.Exit(0) })
	for k := uint64(0); k < *fMax; k++ {
		i := *fFrom + k**fStep
		s := choose(*fProp, i)
		if s == nil {
			return
		}
		seed := mixSeed(*fSeed, i)
		p, c := genRun(s, seed)
		atomic.StoreInt64(&runStarted, time.Now().Unix())
		res := execute(s, p, c)
		cl := ""
		if res.Failure != nil {
			cl = res.Failure.Class
		}
		fmt.Printf("%s %s %d %016x %d %d %s\n", *fProp, s.Name, i, res.Hash, res.Steps, res.Now, cl)
	}
}

func load() *Failure {
	b, err := os.ReadFile(*fFile)
	if err != nil {
		fmt.Fprintln(stderr, err)
		os.Exit(4)
	}
	var f Failure
	if err := json.Unmarshal(b, &f); err != nil {
		fmt.Fprintln(stderr, err)
		os.Exit(4)
	}
	if f.Plan == nil {
		f.Plan = NewPlan()
	}
	return &f
}

// replay executes a replay file; exit status 1 when the violation shows again.
func replay() {
	f := load()
	s := scenarioOf(f.Prop, f.Scenario)
	if s == nil {
		fmt.Fprintln(stderr, "unknown scenario", f.Prop, f.Scenario)
		os.Exit(4)
	}
	watchdog(5*time.Minute, func() { os.Exit(noVerdict) })
	atomic.StoreInt64(&runStarted, time.Now().Unix())
	c := f.Cfg.config(f.Seed)
	c.Replaying = !f.Generate
	c.Replay = f.Decisions
	c.Trace, c.RecordTrace = *fTrace, *fTrace
	res := execute(s, f.Plan.Clone(), c)
	atomic.StoreInt64(&runStarted, 0)
	if *fTrace {
		for _, l := range res.Trace {
			fmt.Println(l)
		}
	}
	if res.Failure == nil {
		fmt.Printf("REPLAY property=%s scenario=%s: no violation (hash %016x)\n", f.Prop, f.Scenario, res.Hash)
		return
	}
	fmt.Printf("REPLAY property=%s scenario=%s class=%s hash=%016x step=%d: %s\n", f.Prop, f.Scenario, res.Failure.Class, res.Hash, res.Failure.Step, res.Failure.Msg)
	os.Exit(1)
}

// ---------------------------------------------------------------- minimisation

type minimiser struct {
	s        *Scenario
	best     *Failure
	deadline time.Time
	tries    int
}

// runtimeError is the kind of run-time error in a message: an execution that crashes with another one
// crashes for another reason (a plan may have become too small for the harness itself).
func runtimeError(msg string) string {
	i := strings.Index(msg, "runtime error: ")
	if i < 0 {
		return ""
	}
	kind := msg[i:]
	for k, c := range kind {
		if c >= '0' && c <= '9' {
			return kind[:k]
		}
	}
	return kind
}

// try runs a candidate; decisions nil means: generate from seed.
func (m *minimiser) try(p *Plan, cfg CfgRec, seed uint64, dec []int, gen bool) bool {
	if time.Now().After(m.deadline) {
		return false
	}
	m.tries++
	c := cfg.config(seed)
	c.Replaying = !gen
	c.Replay = dec
	res := execute(m.s, p.Clone(), c)
	if res.Failure == nil || res.Failure.Class != m.best.Class || runtimeError(res.Failure.Msg) != runtimeError(m.best.Msg) {
		return false
	}
	b := *m.best
	b.Plan = p.Clone()
	b.Cfg = cfg
	b.Seed = seed
	d := append([]int(nil), res.Decisions...)
	for len(d) > 0 && d[len(d)-1] == 0 {
		d = d[:len(d)-1]
	}
	b.Decisions = d
	b.Generate = false
	b.Msg = res.Failure.Msg
	b.Step = res.Failure.Step
	b.SimTimeNs = res.Failure.Now
	b.Hash = fmt.Sprintf("%016x", res.Hash)
	m.best = &b
	return true
}

// tryPlan looks for the same violation with a smaller plan under a few schedules.
func (m *minimiser) tryPlan(p *Plan) bool {
	if !m.s.Statistical && m.try(p, m.best.Cfg, m.best.Seed, m.best.Decisions, false) {
		return true
	}
	n := 40
	if core.RaceEnabled {
		n = 15
	}
	for k := 0; k < n; k++ {
		cfg := m.best.Cfg
		cfg.Strategy = -1
		if m.try(p, cfg, mixSeed(m.best.Seed, uint64(k)), nil, true) {
			return true
		}
	}
	return false
}

func minimise() {
	f := load()
	s := scenarioOf(f.Prop, f.Scenario)
	m := &minimiser{s: s, best: f, deadline: time.Now().Add(*fTime)}
	watchdog(*fTime+60*time.Second, func() { os.Exit(noVerdict) })
	atomic.StoreInt64(&runStarted, time.Now().Unix())
	if !m.try(f.Plan, f.Cfg, f.Seed, f.Decisions, f.Generate) {
		// cannot be shown again from the recorded decisions: leave as is, regenerate from the seed
		if !m.try(f.Plan, f.Cfg, f.Seed, nil, true) {
			fmt.Println("minimise: not reproduced")
			os.Exit(6)
		}
	}
	for changed := true; changed; {
		changed = false
		for i := 0; i < len(m.best.Plan.C); i++ {
			p := m.best.Plan.Clone()
			p.C = append(p.C[:i], p.C[i+1:]...)
			if m.tryPlan(p) {
				changed = true
				i--
			}
		}
		for i := 0; i < len(m.best.Plan.C); i++ {
			for j := 0; j < len(m.best.Plan.C[i]); j++ {
				p := m.best.Plan.Clone()
				p.C[i] = append(p.C[i][:j], p.C[i][j+1:]...)
				if m.tryPlan(p) {
					changed = true
					j--
				}
			}
		}
		for _, k := range keysV(m.best.Plan.V) {
			for w := len(m.best.Plan.V[k]) / 2; w >= 1; w /= 2 {
				for i := 0; i+w <= len(m.best.Plan.V[k]); i++ {
					p := m.best.Plan.Clone()
					p.V[k] = append(p.V[k][:i], p.V[k][i+w:]...)
					if m.tryPlan(p) {
						changed = true
						i--
					}
				}
			}
		}
		for _, k := range keysP(m.best.Plan.P) {
			for _, nv := range []int{0, 1, m.best.Plan.P[k] / 2, m.best.Plan.P[k] - 1} {
				if nv < 0 || nv >= m.best.Plan.P[k] {
					continue
				}
				p := m.best.Plan.Clone()
				p.P[k] = nv
				if m.tryPlan(p) {
					changed = true
					break
				}
			}
		}
		if time.Now().After(m.deadline) {
			break
		}
	}
	// faults off where they are not needed
	for k := 0; k < 5; k++ {
		c := m.best.Cfg
		switch k {
		case 0:
			c.TimerEarly = 0
		case 1:
			c.Stall = 0
		case 2:
			c.PoolDrop = 0
		case 3:
			c.Jump = 0
		case 4:
			c.Skew = 0
		}
		if c != m.best.Cfg {
			m.try(m.best.Plan, c, m.best.Seed, m.best.Decisions, m.s.Statistical)
		}
	}
	// schedule: prefer the default decision everywhere it does not matter
	for w := len(m.best.Decisions); w >= 1 && !m.s.Statistical; w /= 2 {
		for i := 0; i < len(m.best.Decisions); i += w {
			d := append([]int(nil), m.best.Decisions...)
			any := false
			for k := i; k < i+w && k < len(d); k++ {
				if d[k] != 0 {
					any = true
				}
				d[k] = 0
			}
			if any {
				m.try(m.best.Plan, m.best.Cfg, m.best.Seed, d, false)
			}
		}
		if time.Now().After(m.deadline) {
			break
		}
	}
	// final: record the schedule
	c := m.best.Cfg.config(m.best.Seed)
	c.Replaying = true
	c.Replay = m.best.Decisions
	c.Trace, c.RecordTrace = true, true
	res := execute(s, m.best.Plan.Clone(), c)
	if res.Failure != nil {
		m.best.Schedule = res.Trace
		if len(m.best.Schedule) > 400 {
			m.best.Schedule = append(m.best.Schedule[:200:200], m.best.Schedule[len(m.best.Schedule)-200:]...)
		}
	}
	m.best.Minimised = true
	m.best.Note = fmt.Sprintf("%d candidate executions", m.tries)
	b, _ := json.MarshalIndent(m.best, "", " ")
	os.WriteFile(*fOut, append(b, '\n'), 0o644)
}

func keysP(m map[string]int) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func keysV(m map[string][]int) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
