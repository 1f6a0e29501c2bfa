package fw

import (
	"fmt"
	"sort"
	"strings"

	"verif.local/vsim/core"
)

// Op is one client operation of a plan.
type Op struct {
	K string `json:"k"`
	A int    `json:"a,omitempty"`
	B int    `json:"b,omitempty"`
	C int    `json:"c,omitempty"`
}

// Plan is the input of one simulated run: parameters, data and client programs. It is generated
// from the seed, recorded in replay files and shrunk by the minimiser.
type Plan struct {
	P map[string]int   `json:"p,omitempty"`
	V map[string][]int `json:"v,omitempty"`
	C [][]Op           `json:"c,omitempty"`
}

func NewPlan() *Plan { return &Plan{P: map[string]int{}, V: map[string][]int{}} }

// get returns a parameter clamped to [lo,hi]; shrinking may have moved it anywhere.
func (p *Plan) Get(k string, lo, hi int) int {
	v := p.P[k]
	if v < lo {
		return lo
	}
	if v > hi {
		return hi
	}
	return v
}

func (p *Plan) On(k string) bool { return p.P[k] != 0 }

func (p *Plan) Clone() *Plan {
	q := NewPlan()
	for k, v := range p.P {
		q.P[k] = v
	}
	for k, v := range p.V {
		q.V[k] = append([]int(nil), v...)
	}
	for _, c := range p.C {
		q.C = append(q.C, append([]Op(nil), c...))
	}
	return q
}

// Scenario is a family of simulated runs that decides (part of) a property.
type Scenario struct {
	Prop   string
	Name   string
	Weight int
	Gen    func(r *R) *Plan
	Run    func(p *Plan)
	Cfg    func(r *R, p *Plan, c *core.Config)
	// NoRace leaves the scenario out of the race build.
	NoRace bool
	// Statistical scenarios judge a number of random draws, so the minimiser must not edit decisions:
	// draws that are all equal would show a violation that is none.
	Statistical bool
	// Heavy scenarios run long; they get fewer runs.
	Nontrivial func() bool
}

var scenarios []*Scenario

// Register adds a scenario. Package state is re-initialised inside every run; that is ignored here.
func Register(s *Scenario) {
	if core.Active() {
		return
	}
	if s.Weight == 0 {
		s.Weight = 1
	}
	scenarios = append(scenarios, s)
}

// R is the generator of plans.
type R struct {
	s    uint64
	Tier string
	Race bool
}

func (r *R) u64() uint64 {
	r.s += 0x9E3779B97F4A7C15
	z := r.s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

// n is in [0,n).
func (r *R) N(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.u64() % uint64(n))
}

// in is in [lo,hi].
func (r *R) In(lo, hi int) int { return lo + r.N(hi-lo+1) }

// p is true with k chances in n.
func (r *R) P(k, n int) bool { return r.N(n) < k }

func (r *R) B() int { return r.N(2) }

func (r *R) Pick(v ...int) int { return v[r.N(len(v))] }

func (r *R) PickS(v ...string) string { return v[r.N(len(v))] }

// small prefers small values in [0,n].
func (r *R) Small(n int) int { return r.N(r.N(n+1) + 1) }

// Many is usually the given bound, now and then one of hundreds.
func (r *R) Many(usual int) int {
	if r.P(1, 200) {
		return r.Pick(70, 140, 270, 530, 1050)
	}
	return usual
}

// ---------------------------------------------------------------- histories

// Entry is one operation in a history.
type Entry struct {
	Client    int
	Op        Op
	Call, Ret int
	R         [4]int
	Pend      bool
	Note      string
}

func (e *Entry) String() string {
	s := fmt.Sprintf("c%d %s(%d,%d,%d)", e.Client, e.Op.K, e.Op.A, e.Op.B, e.Op.C)
	if e.Pend {
		return s + fmt.Sprintf(" [%d,-] pending", e.Call)
	}
	return s + fmt.Sprintf(" [%d,%d] -> %v %s", e.Call, e.Ret, e.R, e.Note)
}

// Hist collects the operations of concurrent clients.
type Hist struct{ per [][]*Entry }

func NewHist(n int) *Hist { return &Hist{per: make([][]*Entry, n)} }

func (h *Hist) Do(c int, op Op, f func(e *Entry)) *Entry {
	e := &Entry{Client: c, Op: op, Pend: true}
	h.per[c] = append(h.per[c], e)
	e.Call = core.Seq()
	if core.Tracing() {
		core.Tracef("client %d calls %s(%d,%d,%d)", c, op.K, op.A, op.B, op.C)
	}
	f(e)
	e.Ret = core.Seq()
	e.Pend = false
	if core.Tracing() {
		core.Tracef("client %d: %s returns %v %s", c, op.K, e.R, e.Note)
	}
	return e
}

func (h *Hist) All() []*Entry {
	var out []*Entry
	for _, p := range h.per {
		for _, e := range p {
			out = append(out, e)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Call < out[j].Call })
	return out
}

func (h *Hist) String() string {
	var b strings.Builder
	for _, e := range h.All() {
		b.WriteString(e.String())
		b.WriteString("; ")
	}
	return b.String()
}

// ---------------------------------------------------------------- running clients

// parallel starts n simulated goroutines and waits until nothing can run any more. It returns the
// indexes of the clients that have not finished.
func Parallel(n int, f func(i int)) []int {
	done := make([]bool, n)
	for i := 0; i < n; i++ {
		i := i
		core.Go("client", func() {
			f(i)
			done[i] = true
		})
	}
	core.WaitQuiet()
	var left []int
	for i := range done {
		if !done[i] {
			left = append(left, i)
		}
	}
	return left
}

// mustFinish is parallel with the requirement that all clients finish.
func MustFinish(class string, n int, f func(i int)) {
	if left := Parallel(n, f); len(left) > 0 {
		core.Fail(class, "clients %v never finished; blocked: %s", left, BlockedText())
	}
}

func BlockedText() string {
	var b strings.Builder
	for _, g := range core.BlockedGs() {
		fmt.Fprintf(&b, "g%d(%s: %s at %s) ", g.ID, g.Site, g.Reason, strings.Join(RepoFrames(g), " < "))
	}
	return b.String()
}

const repoPrefix = "github.com/chenquan/go-pkg/"

func RepoFrames(g core.Blocked) []string {
	var out []string
	for _, f := range g.Frames {
		if strings.HasPrefix(f, repoPrefix) {
			out = append(out, strings.TrimPrefix(f, repoPrefix))
		}
	}
	return out
}

// repoBlocked lists goroutines, other than main, that are blocked inside the library.
func RepoBlocked() []string {
	var out []string
	for _, g := range core.BlockedGs() {
		if fr := RepoFrames(g); len(fr) > 0 {
			out = append(out, fmt.Sprintf("g%d(%s: %s at %s)", g.ID, g.Site, g.Reason, strings.Join(fr, " < ")))
		}
	}
	return out
}

// noLeak requires that no goroutine is left inside the library.
func NoLeak(class string) {
	if l := RepoBlocked(); len(l) > 0 {
		core.Fail(class, "goroutines left blocked inside the library: %s", strings.Join(l, " "))
	}
}

// catch runs f and returns its panic value.
func Catch(f func()) (p interface{}, panicked bool) {
	ok := false
	defer func() {
		if !ok {
			p = recover()
			panicked = true
		}
	}()
	f()
	ok = true
	return
}

func Failf(class, format string, a ...interface{}) { core.Fail(class, format, a...) }

func Ints(n int) []int {
	v := make([]int, n)
	for i := range v {
		v[i] = i
	}
	return v
}

func EqInts(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func SortedInts(a []int) []int {
	b := append([]int(nil), a...)
	sort.Ints(b)
	return b
}
