package main

import (
	"errors"
	"fmt"
	"io"
	"strings"
	"time"

	"github.com/chenquan/go-pkg/xsync"
	"verif.local/vsim/core"
	. "verif.local/vsim/fw"
	"verif.local/vsim/probe"
)

// ---------------------------------------------------------------- C05 sharded map

// shardedMap gives a SharedMap with string keys the interface of the map scenarios.
type shardedMap struct{ m *xsync.SharedMap }

var keyNames []string

func key(k int) string { return keyNames[k] }

func unkey(s string) int {
	for i, n := range keyNames {
		if n == s {
			return i
		}
	}
	Failf("iteration", "a key that was never stored: %q", s)
	return -1
}

func (s *shardedMap) Load(k interface{}) (interface{}, bool) { return s.m.Load(key(k.(int))) }
func (s *shardedMap) Store(k, v interface{})                 { s.m.Store(key(k.(int)), v) }
func (s *shardedMap) LoadOrStore(k, v interface{}) (interface{}, bool) {
	panic("not used")
}
func (s *shardedMap) LoadAndDelete(k interface{}) (interface{}, bool) { panic("not used") }
func (s *shardedMap) Delete(k interface{})                            { s.m.Delete(key(k.(int))) }
func (s *shardedMap) ComputeIfAbsent(k interface{}, f func(interface{}) interface{}) (interface{}, bool) {
	return s.m.ComputeIfAbsent(key(k.(int)), func(x string) interface{} { return f(unkey(x)) })
}
func (s *shardedMap) ComputeIfPresent(k interface{}, f func(k, v interface{}) interface{}) (interface{}, bool) {
	return s.m.ComputeIfPresent(key(k.(int)), func(x string, v interface{}) interface{} { return f(unkey(x), v) })
}
func (s *shardedMap) Clear() { s.m.Clear() }
func (s *shardedMap) Range(f func(k, v interface{}) bool) {
	s.m.Range(func(k, v interface{}) bool {
		if strings.HasPrefix(k.(string), "fill ") {
			return f(k, v)
		}
		return f(unkey(k.(string)), v)
	})
}

func genShards(r *R, p *Plan) *Plan {
	switch r.N(12) {
	case 0, 1, 2, 3, 4:
		p.P["shards"] = r.In(1, 9)
	case 5, 6, 7, 8:
		p.P["shards"] = r.In(10, 70)
	case 9:
		p.P["shards"] = 0 // default
	case 10:
		p.P["shards"] = r.In(71, 600)
	case 11:
		p.P["shards"] = r.In(1, 40)
		if r.P(1, 60) {
			p.P["shards"] = r.Pick(1000, 4097, 33000, 65536, 70000)
		}
	}
	p.P["salt"] = r.N(1000)
	return p
}

func shardCfg(r *R, p *Plan, c *core.Config) {
	if p.P["shards"] > 60 || p.P["fill"] > 600 {
		c.MaxSteps = 20000000
	}
}

// Strings that agree under a hash of 32 bits, whichever of each pair they are put together of:
// FNV-1, FNV-1a, multiplication by 31 and by 33.
var sameHash = [4][4][2]string{
	{{"3qxybz", "pr4o1o"}, {"3as0no", "sfk1by"}, {"n5sbkm", "pgkr40"}, {"igzbsj", "ucjncv"}},
	{{"v0ctuv", "efsqqp"}, {"n42wn3", "o4wpfd"}, {"0e00pj", "euryya"}, {"sut1h3", "e0b2vs"}},
	{{"53q1an", "3s1oc0"}, {"53q1an", "3s1oc0"}, {"53q1an", "3s1oc0"}, {"53q1an", "3s1oc0"}},
	{{"yz3431", "yxsv1s"}, {"yz3431", "yxsv1s"}, {"yz3431", "yxsv1s"}, {"yz3431", "yxsv1s"}},
}

// keysOf makes total different keys: of all families, or all of one.
func keysOf(total, salt int) []string {
	var keys []string
	for i := 0; i < total; i++ {
		family := i + salt
		if salt%2 == 0 {
			family = salt / 2
		}
		var s string
		switch family % 14 {
		case 13:
			s = fmt.Sprintf("%s/%d", strings.Repeat("dir/", salt%5), i)
		case 7: // long, different in the middle only
			s = strings.Repeat("same-", 5+salt/20) + fmt.Sprint(i) + strings.Repeat("-end", 5+salt/20)
		case 8: // blank
			s = strings.Repeat(" ", 1+i+salt/8)
		case 9:
			s = strings.Repeat("\t\n", 1+salt/13) + fmt.Sprint("#", i)
		case 10:
			s = fmt.Sprint(i*i + salt)
		case 11:
			s = strings.Repeat("\x00", i+1)
		case 12: // different in the case of one letter only, or in the order of letters
			s = strings.Repeat("q", i) + "Z" + strings.Repeat("q", total-i)
		case 5:
			s = strings.Repeat("Ab", i+1)
		case 6:
			s = strings.Repeat("aB", i+1) + " "
		case 0:
			s = fmt.Sprint("k", salt, i)
		case 1:
			s = string(rune('a' + i))
		case 2:
			s = strings.Repeat("x", 1+salt%7) + fmt.Sprint(i)
			if salt%10 == 7 {
				s = strings.Repeat("long", 10+salt/10) + s
			}
		case 3:
			s = fmt.Sprintf("é%d\x00%d", i, salt)
		case 4:
			s = string([]byte{byte(200 + i), byte(salt)})
		}
		if salt%5 == 1 { // each is the beginning of the next
			s = strings.Repeat("0123456789abcdef", 6)[:1+salt%25+i]
		}
		if salt%7 == 3 {
			pairs := sameHash[[]int{0, 0, 0, 1, 2, 3}[salt/7%6]]
			s = strings.Repeat("+", i>>4)
			for b, pair := range pairs {
				s += pair[i>>uint(b)&1]
			}
		}
		keys = append(keys, s)
	}
	if salt%3 == 0 {
		keys[salt%4] = ""
	}
	return keys
}

func newSharded(p *Plan) *shardedMap {
	n := p.Get("shards", 0, 70000)
	keyNames = keysOf(rangeKeys+2, p.Get("salt", 0, 1000))
	if n == 0 {
		return &shardedMap{xsync.NewSharedMap()}
	}
	return &shardedMap{xsync.NewSharedMap(xsync.WithShardBlockSize(n))}
}

var shardKinds = []string{"load", "load", "store", "slos", "slos", "has", "has", "shload", "del", "cia", "cip", "inc", "mst", "clear"}

func genSharded(r *R) *Plan {
	p := genMapPlan(r, shardKinds, 4, 6, nKeys)
	for _, c := range p.C {
		for i := range c {
			if c[i].K == "mst" {
				c[i].C = (c[i].A + 1 + r.N(nKeys-1)) % nKeys
			}
		}
	}
	return genShards(r, p)
}

func runSharded(p *Plan) {
	const class = "sharded-map"
	n := len(p.C)
	if n == 0 {
		return
	}
	m := newSharded(p)
	domains(p)
	if p.P["shards"] < 100 {
		go bystander(p, class, newSharded(p))
	}
	wearMap(p, class, m)
	mobMap(p, class, m)
	h := NewHist(n + 1)
	for _, op := range p.C[0] {
		if op.K == "range" {
			m.Range(func(k, v interface{}) bool { return true })
			continue
		}
		h.Do(0, op, func(e *Entry) { mapDo(m, e, false) })
	}
	MustFinish("stuck", n-1, func(i int) {
		for _, op := range p.C[i+1] {
			h.Do(i+1, op, func(e *Entry) { mapDo(m, e, false) })
		}
	})
	left := map[int]int{}
	m.Range(func(k, v interface{}) bool {
		if _, dup := left[k.(int)]; dup {
			Failf(class, "final iteration visits key %v twice", k)
		}
		left[k.(int)] = decV(v)
		return true
	})
	stopped := 0
	m.Range(func(k, v interface{}) bool { stopped++; return false })
	if stopped > 1 {
		Failf(class, "an iteration whose function returns false at once made %d calls", stopped)
	}
	for k := 0; k < nKeys; k++ {
		e := h.Do(n, Op{K: "load", A: k}, func(e *Entry) { mapDo(m, e, false) })
		if left[k] != e.R[0] {
			Failf(class, "final iteration says %d for key %d, load says %d; history: %s", left[k], k, e.R[0], h)
		}
	}
	hist := h.All()
	for k := 0; k < nKeys; k++ {
		var es []*Entry
		for _, e := range hist {
			if touches(e, k) {
				es = append(es, e)
			}
		}
		if len(es) <= 62 && !perKey(0, es) {
			s := ""
			for _, e := range es {
				s += e.String() + "; "
			}
			Failf(class, "%d shards: no sequential order explains the operations on key %q: %s", p.P["shards"], key(k), s)
		}
	}
	m.Clear()
	m.Range(func(k, v interface{}) bool {
		Failf(class, "key %v survives clear", k)
		return true
	})
	for k := 0; k < nKeys; k++ {
		if m.m.Has(key(k)) {
			Failf(class, "key %d survives clear", k)
		}
	}
}

// Multi-stores of many keys by several clients, each over a range of its own, possibly overlapping.
func genBulk(r *R) *Plan {
	p := NewPlan()
	for n := r.In(1, 3); n > 0; n-- {
		var c []Op
		for k := r.In(1, 2); k > 0; k-- {
			c = append(c, Op{K: "bulk", A: r.Pick(0, 0, 0, 10, 50), B: r.Pick(0, 1, 2, r.In(3, 40), r.In(3, 40), r.In(100, 400)), C: r.N(2)})
			if r.P(1, 200) {
				c[len(c)-1].B = r.Pick(1000, 1024, 1025, 4099, 10001)
			}
			if r.P(1, 3000) {
				c[len(c)-1].B = r.Pick(33000, 66000)
			}
		}
		p.C = append(p.C, c)
	}
	return genShards(r, p)
}

func runBulk(p *Plan) {
	const class = "sharded-map"
	m := newSharded(p).m
	name := func(k int) string { return fmt.Sprintf("%d-%d", k, p.P["salt"]) }
	value := func(i, n, k int) interface{} {
		if k%13 == 5 {
			return nil
		}
		return fmt.Sprint(i, n, k)
	}
	last := map[string]map[interface{}]bool{} // what the last stores of the clients may have left
	for i, c := range p.C {
		mine := map[string]interface{}{}
		for n, op := range c {
			for k := op.A; k < op.A+op.B; k++ {
				mine[name(k)] = value(i, n, k)
			}
		}
		for k, v := range mine {
			if last[k] == nil {
				last[k] = map[interface{}]bool{}
			}
			last[k][v] = true
		}
	}
	MustFinish("stuck", len(p.C), func(i int) {
		for n, op := range p.C[i] {
			var data map[string]interface{}
			if op.B > 0 {
				data = map[string]interface{}{}
			}
			for k := op.A; k < op.A+op.B; k++ {
				data[name(k)] = value(i, n, k)
			}
			m.MStore(data)
			if len(data) != op.B {
				Failf(class, "a multi-store of %d keys left %d in the caller's map", op.B, len(data))
			}
			for k := op.A; k < op.A+op.B; k++ {
				if v, ok := data[name(k)]; !ok || v != value(i, n, k) {
					Failf(class, "a multi-store changed the caller's map")
				}
				if _, ok := m.Load(name(k)); !ok {
					Failf(class, "a multi-store of %d keys over %d shards returned without having stored %q", op.B, p.P["shards"], name(k))
				}
			}
		}
	})
	seen := map[string]int{}
	m.Range(func(k, v interface{}) bool {
		s := k.(string)
		seen[s]++
		if !last[s][v] {
			Failf(class, "iteration finds %v for key %q", v, s)
		}
		return true
	})
	for k, vs := range last {
		v, ok := m.Load(k)
		if !ok || !vs[v] || !m.Has(k) || seen[k] != 1 {
			Failf(class, "after multi-stores over %d shards key %q is loaded as %v, %v, has says %v, and it is visited %d times", p.P["shards"], k, v, ok, m.Has(k), seen[k])
		}
		if w, ok := m.GetShard(k).Load(k); !ok || w != v {
			Failf(class, "the shard of key %q holds %v, %v, the map holds %v", k, w, ok, v)
		}
	}
	if len(seen) != len(last) {
		Failf(class, "%d keys were stored, %d are visited", len(last), len(seen))
	}
}

// ---------------------------------------------------------------- C06 spin lock

func genSpin(r *R) *Plan {
	p := NewPlan()
	if r.P(1, 150) {
		for n := r.Pick(40, 130, 270); n > 0; n-- {
			p.C = append(p.C, []Op{{K: "lock", A: r.N(2)}})
		}
		return p
	}
	for n := r.In(2, 6); n > 0; n-- {
		var c []Op
		for k := r.In(1, 6); k > 0; k-- {
			hold := r.Small(6)
			if r.P(1, 20) {
				hold = r.In(20, 200)
			}
			if r.P(1, 300) {
				hold = r.Pick(300, 1000, 3000)
			}
			o := Op{K: r.PickS("lock", "lock", "try"), A: hold, B: r.Small(5)}
			if r.P(1, 40) {
				o.C = r.Pick(1, 50, 1500, 11000, 65000, 700000)
			}
			c = append(c, o)
		}
		p.C = append(p.C, c)
	}
	return p
}

func spinCfg(r *R, p *Plan, c *core.Config) {
	p.P["held"] = r.Pick(5, 20, 20, 100)
	if r.P(1, 100) {
		p.P["held"] = 2000
	}
	c.MaxSteps = 1000000
	c.NoDaemonTimers = true
	for _, ops := range p.C {
		for _, o := range ops {
			if o.C > 0 {
				c.TimerEarly = r.Pick(5, 30, 100)
			}
		}
	}
}

func yields(n int) {
	for i := 0; i < n; i++ {
		core.Yield()
	}
}

func runSpin(p *Plan) {
	var other, l, another xsync.Spinlock
	other.Lock() // held all the time by somebody else
	if !another.TryLock() {
		Failf("try-lock", "try-lock of a free lock failed while another one is held")
	}
	var shared probe.Cell
	inside, total := 0, 0
	type iv struct{ from, to int }
	var holds []iv // conservative hold intervals
	type tr struct{ call, ret, client int }
	var fails []tr
	nc := len(p.C)
	wearSpin(p, &l)
	open := make([]int, nc) // call of an acquisition in progress or held, 0 if none
	MustFinish("no-progress", nc, func(i int) {
		for _, op := range p.C[i] {
			call := core.Seq()
			if op.K == "try" {
				open[i] = call
				if !l.TryLock() {
					open[i] = 0
					fails = append(fails, tr{call, core.Seq(), i})
					yields(op.B)
					continue
				}
			} else {
				open[i] = call
				l.Lock()
			}
			inside++
			if inside != 1 {
				Failf("mutual-exclusion", "%d goroutines hold the spin lock", inside)
			}
			v := shared.Get()
			yields(op.A)
			if op.C > 0 {
				time.Sleep(time.Duration(op.C) * time.Millisecond)
			}
			shared.Set(v + 1)
			total++
			if inside != 1 {
				Failf("mutual-exclusion", "%d goroutines hold the spin lock", inside)
			}
			inside--
			l.Unlock()
			open[i] = 0
			holds = append(holds, iv{call, core.Seq()})
			yields(op.B)
		}
	})
	for _, f := range fails {
		ok := false
		for _, h := range holds {
			if h.from < f.ret && h.to > f.call {
				ok = true
			}
		}
		if !ok {
			Failf("try-lock", "try-lock of client %d failed although nobody held the lock at any time during it", f.client)
		}
	}
	if !l.TryLock() {
		Failf("try-lock", "try-lock of a free lock failed")
	}
	if got := shared.Get(); got != total {
		Failf("visibility", "%d critical sections left the counter at %d", total, got)
	}
	// held throughout: must fail at once, must not block
	var res []bool
	MustFinish("try-lock-blocks", 2, func(i int) {
		for k := 0; k < 3; k++ {
			if l.TryLock() {
				Failf("mutual-exclusion", "try-lock succeeded on a held lock")
			}
			res = append(res, false)
		}
	})
	// blocked lockers get it after the release
	got := 0
	holding := true
	for i := 0; i < 2; i++ {
		core.Go("locker", func() {
			l.Lock()
			if holding {
				Failf("mutual-exclusion", "lock acquired while held")
			}
			got++
			l.Unlock()
		})
	}
	yields(p.Get("held", 0, 5000))
	holding = false
	l.Unlock()
	core.WaitQuiet()
	if got != 2 {
		Failf("no-progress", "%d of 2 waiting lock calls returned after the release", got)
	}
	if other.TryLock() || another.TryLock() {
		Failf("mutual-exclusion", "try-lock succeeded on a lock that is held; other locks were used meanwhile")
	}
}

// ---------------------------------------------------------------- C07, C08 resource manager

type resource struct {
	mgr       *mgrRun
	key, id   int
	fail      bool
	odd       int
	closed    int
	closedAt  int
	owned     bool
	getFailed bool
	slow      int
}

type nilPtrErr struct{}

func (*nilPtrErr) Error() string { return errClosing.Error() }

var errClosing = errors.New("close failed")

func (r *resource) Close() error {
	yields(r.slow)
	r.closed++
	r.closedAt = core.Seq()
	core.Yield()
	if r.fail {
		core.Count("fault.close_error")
		switch r.odd {
		case 1: // an error that cannot be compared
			return sliceErr{"closing", "resource", fmt.Sprint(r.id), "failed"}
		case 2: // an error with the text of others
			return errors.New(errClosing.Error())
		case 3: // the very same error as others, or one that is a nil pointer, which is an error all the same
			if r.id%2 == 0 {
				return (*nilPtrErr)(nil)
			}
			return errClosing
		}
		return fmt.Errorf("closing-resource-%d-failed", r.id)
	}
	return nil
}

type creation struct {
	key, start, end, getCall int
	ok                       bool
	id                       int
	reports                  []*Entry
}

// notRemembered: once a failed creation has been reported, no later get reports it again.
func (x *mgrRun) notRemembered() {
	for _, c := range x.creations {
		for _, a := range c.reports {
			for _, b := range c.reports {
				if a.Ret < b.Call {
					Failf("remembered-failure", "a get that began after a failed creation had been reported reports that same failure: %s; %s", a, b)
				}
			}
		}
	}
}

const nMgrKeys = 64

var plainMgrKeys = []string{"key0", "key1", "key01", "", "Key0", "é\x00", strings.Repeat("long-key/", 40), "key0 "}

func init() {
	for i := len(plainMgrKeys); i < nMgrKeys; i++ {
		plainMgrKeys = append(plainMgrKeys, fmt.Sprint("resource ", i))
	}
}

type mgrRun struct {
	p         *Plan
	m         *xsync.ResourceManager
	closing   bool
	keys      []string
	res       []*resource // by id-1
	creating  [nMgrKeys]int
	creations []*creation
	h         *Hist
	others    []*fillRes

	plain, plainClosed int
}

func newMgrRun(p *Plan, clients int) *mgrRun {
	x := &mgrRun{p: p, m: xsync.NewResourceManager(), h: NewHist(clients), keys: plainMgrKeys}
	if salt := p.Get("salt", 0, 1000); salt > 0 {
		x.keys = keysOf(nMgrKeys, salt)
	}
	return x
}

// halfOpen is what some failing creations return besides their error.
type halfOpen struct{ c *creation }

func (halfOpen) Close() error { return nil }

// Resources of other types than a pointer: one that cannot be compared, one that is a struct.
type sliceRes []*resource

func (s sliceRes) Close() error { return s[0].Close() }

type structRes struct {
	*resource
	note interface{}
}

func (r *resource) as(how int) io.Closer {
	switch how {
	case 1:
		return sliceRes{r}
	case 2:
		return structRes{r, []int{r.id}}
	}
	return r
}

func resourceOf(c io.Closer) *resource {
	switch v := c.(type) {
	case *resource:
		return v
	case sliceRes:
		return v[0]
	case structRes:
		return v.resource
	}
	return nil
}

// plainRes is a resource of which all are equal: how many there are is told by counts.
type plainRes struct{ x *mgrRun }

func (r plainRes) Close() error {
	r.x.plainClosed++
	return nil
}

type createErr struct{ c *creation }

func (e *createErr) Error() string { return fmt.Sprintf("creation of key %d failed", e.c.key) }

func genMgr(closing bool) func(r *R) *Plan {
	return func(r *R) *Plan {
		p := NewPlan()
		keys := r.In(1, 3)
		if r.P(1, 5) {
			keys = 8
		}
		nc := r.In(2, 5)
		if r.P(1, 30) { // many resources
			var c []Op
			for k := nMgrKeys - r.Pick(10, 25, 45); k < nMgrKeys; k++ {
				c = append(c, Op{K: "get", A: k, C: r.Pick(0, 4, r.N(16))})
			}
			p.C = append(p.C, c)
		}
		for i := 0; i < nc; i++ {
			var c []Op
			for k := r.In(1, 5); k > 0; k-- {
				switch r.N(10) {
				case 0, 1, 2:
					c = append(c, Op{K: "remove", A: r.N(keys)})
				case 3:
					c = append(c, Op{K: "getF", A: r.N(keys), B: r.Small(4)})
				case 4:
					c = append(c, Op{K: "pause", A: r.Small(8)})
				default:
					o := Op{K: "get", A: r.N(keys), B: r.Small(4), C: r.N(16)}
					if r.P(1, 8) {
						o.C += 16 * r.In(1, 3)
					}
					c = append(c, o)
				}
			}
			p.C = append(p.C, c)
		}
		if r.P(1, 3) {
			p.P["salt"] = r.In(1, 1000)
		}
		if r.P(1, 4) {
			p.P["as"] = r.In(1, 2)
		}
		if r.P(1, 4) {
			p.P["plain"] = r.In(1, 4)
		}
		if r.P(1, 12) { // a manager that holds many other resources
			p.P["fill"] = r.Pick(20, 100, 200, 300, 600, 1100, 2100)
			p.P["fillRemoved"] = r.N(2)
		}
		if closing {
			for n := r.Pick(1, 1, 1, 2); n > 0; n-- {
				p.C = append(p.C, []Op{{K: "pause", A: r.N(30)}, {K: "close"}})
			}
			if r.P(1, 3) {
				i := r.N(nc)
				p.C[i] = append(p.C[i], Op{K: "close"})
			}
		}
		return p
	}
}

// fillRes is one of many resources that are there besides those the clients use.
type fillRes struct {
	id      int
	removed bool
	closed  int
}

func (r *fillRes) Close() error {
	r.closed++
	if r.id%7 == 0 {
		core.Count("fault.close_error")
		return fmt.Errorf("closing-other-%d-failed", r.id)
	}
	return nil
}

// fillUp creates the other resources, before anybody else uses the manager.
func (x *mgrRun) fillUp() {
	for i := x.p.Get("plain", 0, 9); i > 0; i-- {
		key := fmt.Sprint("plain/", i)
		r, err := x.m.Get(key, func() (io.Closer, error) { return plainRes{x}, nil })
		if _, ok := r.(plainRes); !ok || err != nil {
			Failf("get-result", "the get of a resource that is absent returned %v, %v", r, err)
		}
		x.plain++
		if i == 3 && x.m.Remove(key) {
			x.plain--
		}
	}
	n := x.p.Get("fill", 0, 5000)
	for i := 0; i < n; i++ {
		o := &fillRes{id: i}
		x.others = append(x.others, o)
		r, err := x.m.Get(fmt.Sprint("other/", i), func() (io.Closer, error) { return o, nil })
		if rr, ok := r.(*fillRes); !ok || err != nil || rr != o {
			Failf("get-result", "the get of other resource %d, which is absent, returned %v, %v", i, r, err)
		}
		if x.p.On("fillRemoved") && i%50 == 49 {
			o.removed = x.m.Remove(fmt.Sprint("other/", i))
			if !o.removed {
				Failf("resource-sharing", "other resource %d of %d was not there to be removed", i, n)
			}
		}
	}
}

// othersShared checks that the other resources are all still there.
func (x *mgrRun) othersShared() {
	for i, o := range x.others {
		created := false
		r, err := x.m.Get(fmt.Sprint("other/", i), func() (io.Closer, error) { created = true; return &fillRes{id: i}, nil })
		if rr, ok := r.(*fillRes); !ok || err != nil || created != o.removed || (rr == o) == o.removed {
			Failf("resource-sharing", "other resource %d of %d, which was created%s, is not shared: a later get (creating: %v) returned %v, %v",
				i, len(x.others), map[bool]string{true: " and removed"}[o.removed], created, r, err)
		}
		if o.closed != 0 {
			Failf("closed-early", "other resource %d was closed although the manager was not", i)
		}
		if !x.m.Remove(fmt.Sprint("other/", i)) {
			Failf("resource-sharing", "other resource %d of %d was not there to be removed", i, len(x.others))
		}
	}
}

func (x *mgrRun) do(i int, op Op) {
	if op.K == "pause" {
		yields(op.A)
		return
	}
	k := x.keys[op.A&(nMgrKeys-1)]
	op.A &= nMgrKeys - 1
	switch op.K {
	case "remove":
		x.h.Do(i, op, func(e *Entry) { e.R[0] = toFlag(x.m.Remove(k)) })
	case "close":
		x.h.Do(i, op, func(e *Entry) {
			if err := x.m.Close(); err != nil {
				e.R[0] = 1
				e.Note = err.Error()
			}
		})
	case "get", "getF":
		x.h.Do(i, op, func(e *Entry) {
			var mine *resource
			r, err := x.m.Get(k, func() (io.Closer, error) {
				c := &creation{key: op.A, start: core.Seq(), getCall: e.Call}
				x.creations = append(x.creations, c)
				if x.creating[op.A] != 0 {
					Failf("concurrent-creation", "two creations of key %d run at the same time", op.A)
				}
				x.creating[op.A]++
				yields(op.B)
				// a creation may use the manager for what it depends on
				switch o := op.C / 16; {
				case o == 1 && op.A < 7:
					x.do(i, Op{K: "get", A: op.A + 1, C: op.C & 15})
				case o == 2:
					x.do(i, Op{K: "remove", A: op.A ^ 1})
				case o == 3 && x.closing:
					x.do(i, Op{K: "close"})
				}
				x.creating[op.A]--
				c.end = core.Seq()
				if op.K == "getF" {
					core.Count("fault.create_error")
					if op.B == 1 {
						return halfOpen{c}, &createErr{c}
					}
					return nil, &createErr{c}
				}
				c.ok = true
				r := &resource{mgr: x, key: op.A, id: len(x.res) + 1, fail: op.C%4 == 0, odd: op.C / 4 % 4, slow: op.C % 4}
				x.res = append(x.res, r)
				c.id = r.id
				mine = r
				return r.as(x.p.Get("as", 0, 2)), nil
			})
			if err != nil {
				if _, half := r.(halfOpen); r != nil && !half {
					Failf("get-result", "get returned both a resource and an error")
				}
				e.R[0] = -1
				var ce *createErr
				if errors.As(err, &ce) {
					if ce.c.key != op.A {
						Failf("get-result", "get of key %d reports a failed creation of key %d", op.A, ce.c.key)
					}
					ce.c.reports = append(ce.c.reports, e)
					e.R[1] = 1
				} else {
					e.R[1] = 2
					e.Note = err.Error()
				}
				if mine != nil {
					mine.getFailed = true
					if mine.closed != 1 {
						Failf("leaked-resource", "get failed (%v) after creating resource %d of key %d, which was closed %d times", err, mine.id, mine.key, mine.closed)
					}
				}
				return
			}
			rr := resourceOf(r)
			if _, half := r.(halfOpen); half {
				Failf("get-result", "get of key %d returned what came with a failed creation, and no error", op.A)
			}
			if rr == nil || rr.mgr != x || rr.key != op.A {
				Failf("get-result", "get of key %d returned %v", op.A, r)
			}
			e.R[0] = rr.id
			rr.owned = true
		})
	default:
		panic("unknown op " + op.K)
	}
}

// model of one key: the current resource and the set of all that ever were current
type mgrState struct {
	cur  int
	used uint64
}

func mgrStep(st interface{}, e *Entry) []interface{} {
	s := st.(mgrState)
	switch e.Op.K {
	case "get", "getF":
		id := e.R[0]
		switch {
		case id == -1:
			if s.cur != 0 {
				return nil
			}
		case id == s.cur:
		case s.cur == 0 && s.used&(1<<uint(id)) == 0:
			s.cur = id
			s.used |= 1 << uint(id)
		default:
			return nil
		}
	case "remove":
		if (e.R[0] == 1) != (s.cur != 0) {
			return nil
		}
		s.cur = 0
	case "absent":
		if s.cur != 0 {
			return nil
		}
	}
	return []interface{}{s}
}

func runMgr(p *Plan) {
	n := len(p.C)
	mobMgr(p, false)
	x := newMgrRun(p, n)
	wearMgr(p, x.m)
	x.fillUp()
	MustFinish("stuck", n, func(i int) {
		for _, op := range p.C[i] {
			x.do(i, op)
		}
	})
	x.notRemembered()
	x.othersShared()
	for k := 0; k < nMgrKeys; k++ {
		var es []*Entry
		txt := ""
		for _, e := range x.h.All() {
			if e.Op.A == k && e.Op.K != "pause" && e.Op.K != "close" {
				es = append(es, e)
				txt += e.String() + "; "
				if e.R[0] == -1 && e.R[1] != 1 {
					Failf("get-result", "get of an open manager failed with an error that no creation returned: %s", e.Note)
				}
			}
		}
		for _, c := range x.creations {
			if c.key == k {
				// a creation is started only if the key is absent at some moment of its get
				es = append(es, &Entry{Client: -1, Op: Op{K: "absent", A: k}, Call: c.getCall, Ret: c.start})
			}
		}
		if len(es) <= 62 && len(x.res) < 60 && !Linearizable(Model{Init: mgrState{}, Step: mgrStep}, es) {
			Failf("resource-sharing", "no sequential order explains the operations on key %d: %s", k, txt)
		}
	}
	// nothing is remembered of failures; every present resource is still shared
	for _, r := range x.res {
		if r.closed != 0 {
			Failf("closed-early", "resource %d of key %d was closed although the manager was not", r.id, r.key)
		}
	}
}

func runMgrClose(p *Plan) {
	n := len(p.C)
	mobMgr(p, true)
	x := newMgrRun(p, n+1)
	x.closing = true
	wearMgr(p, x.m)
	x.fillUp()
	MustFinish("stuck", n, func(i int) {
		for _, op := range p.C[i] {
			x.do(i, op)
		}
	})
	closed := false
	for _, e := range x.h.All() {
		closed = closed || e.Op.K == "close"
	}
	if !closed {
		x.do(n, Op{K: "close"})
	}
	x.notRemembered()
	hist := x.h.All()
	removed := map[int]int{}
	var texts []string
	reported := 0
	lastClose := 0
	for _, e := range hist {
		switch e.Op.K {
		case "remove":
			removed[e.Op.A] += e.R[0]
		case "close":
			if e.R[0] == 1 {
				reported++
				texts = append(texts, e.Note)
			}
			if e.Ret > lastClose {
				lastClose = e.Ret
			}
		}
	}
	unclosed := map[int]int{}
	failing, alike := 0, 0
	for _, o := range x.others {
		if want := toFlag(!o.removed); o.closed != want {
			Failf("not-closed", "other resource %d of %d was closed %d times instead of %d", o.id, len(x.others), o.closed, want)
		}
		if o.closed > 0 && o.id%7 == 0 {
			failing++
			want := fmt.Sprintf("closing-other-%d-failed", o.id)
			found := false
			for _, t := range texts {
				found = found || strings.Contains(t, want)
			}
			if !found {
				Failf("close-error-lost", "closing other resource %d of %d failed, but no close call reported it", o.id, len(x.others))
			}
		}
	}
	if x.plainClosed != x.plain {
		Failf("not-closed", "of %d live resources that are all equal %d were closed", x.plain, x.plainClosed)
	}
	for _, r := range x.res {
		switch {
		case r.closed > 1:
			Failf("closed-twice", "resource %d of key %d was closed %d times; history: %s", r.id, r.key, r.closed, x.h)
		case r.closed == 0:
			unclosed[r.key]++
		case r.fail:
			failing++
			if r.owned && !r.getFailed && r.odd >= 2 {
				alike++
			} else if r.owned && !r.getFailed {
				want := fmt.Sprintf("closing-resource-%d-failed", r.id)
				found := 0
				for _, t := range texts {
					for _, l := range strings.Split(t, "\n") {
						if strings.Contains(l, want) {
							found++
							break
						}
					}
				}
				if found == 0 {
					Failf("close-error-lost", "closing resource %d failed, but no close call reported it: %q", r.id, texts)
				}
			}
		}
	}
	if alike > 0 {
		found := 0
		for _, t := range texts {
			found += strings.Count(t, errClosing.Error())
		}
		if found < alike {
			Failf("close-error-lost", "%d resources failed to close with %q, but the close calls reported that %d times: %q", alike, errClosing.Error(), found, texts)
		}
	}
	if failing == 0 && reported > 0 {
		Failf("close-error-invented", "no resource's close failed, but close reported %q", texts)
	}
	for k := 0; k < nMgrKeys; k++ {
		if unclosed[k] != removed[k] {
			Failf("not-closed", "key %d: %d resources were removed but %d were not closed; history: %s", k, removed[k], unclosed[k], x.h)
		}
	}
}

func init() {
	Register(worn(60, 200, mobbed(150, 200, &Scenario{Prop: "C05", Name: "sharded", Weight: 3, Gen: genSharded, Run: runSharded, Cfg: shardCfg})))
	Register(&Scenario{Prop: "C05", Name: "bulk", Weight: 1, Gen: genBulk, Run: runBulk, Cfg: func(r *R, p *Plan, c *core.Config) { c.MaxSteps = 20000000 }})
	Register(&Scenario{Prop: "C04", Name: "sharded-panics", Weight: 1, Cfg: shardCfg, Run: runSharded,
		Gen: func(r *R) *Plan {
			return genShards(r, genMapPlan(r, []string{"ciaP", "ciaP", "cipP", "cipP", "cia", "inc", "load", "store", "del", "slos", "has"}, 4, 5, 3))
		}})
	Register(worn(20, 200, &Scenario{Prop: "C05", Name: "rounds", Weight: 1,
		Gen: func(r *R) *Plan {
			return genShards(r, genRounds("load", "store", "store", "slos", "has", "del", "del", "cia", "inc", "cip", "shload")(r))
		},
		Run: func(p *Plan) {
			m := newSharded(p)
			wearMap(p, "sharded-map", m)
			runRounds(p, "sharded-map", m)
		},
		Cfg: func(r *R, p *Plan, c *core.Config) { shardCfg(r, p, c); c.MaxSteps += 1000000 }}))
	Register(&Scenario{Prop: "C05", Name: "sharded-iteration", Weight: 2,
		Gen: func(r *R) *Plan {
			return genShards(r, genRangeKinds(r, []string{"load", "store", "slos", "has", "del", "cia", "cip", "clear"}))
		},
		Run: func(p *Plan) { runRange(p, newSharded(p)) }, Cfg: shardCfg})
	Register(worn(60, 20, &Scenario{Prop: "C06", Name: "spinlock", Gen: genSpin, Run: runSpin, Cfg: spinCfg}))
	Register(worn(60, 100, mobbed(150, 100, &Scenario{Prop: "C07", Name: "sharing", Gen: genMgr(false), Run: runMgr, Cfg: fillCfg})))
	Register(worn(60, 100, mobbed(150, 100, &Scenario{Prop: "C08", Name: "closing", Gen: genMgr(true), Run: runMgrClose, Cfg: fillCfg})))
}
