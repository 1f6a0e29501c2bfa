package main

import (
	"fmt"

	"github.com/chenquan/go-pkg/xsync"
	"verif.local/vsim/core"
	. "verif.local/vsim/fw"
)

const nKeys = 5

// mapState is the contents of a map with keys 0..nKeys-1; 0 means absent.
type mapState [nKeys]int

// R of map operations: value (0 for nil/absent), flag, 1 if the operation panicked.

func mapStep(st interface{}, e *Entry) []interface{} {
	s := st.(mapState)
	k, v := e.Op.A, e.Op.B
	cur := s[k]
	var res [4]int
	b := func(x bool) int {
		if x {
			return 1
		}
		return 0
	}
	switch e.Op.K {
	case "load", "shload":
		res[0], res[1] = cur, b(cur != 0)
	case "store":
		s[k] = v
	case "los":
		if cur != 0 {
			res[0], res[1] = cur, 1
		} else {
			s[k] = v
			res[0] = v
		}
	case "lad":
		res[0], res[1] = cur, b(cur != 0)
		s[k] = 0
	case "del":
		s[k] = 0
	case "cia":
		if cur != 0 {
			res[0], res[1] = cur, 1
		} else {
			s[k] = v
			res[0] = v
		}
	case "cip": // v replaces
		if cur != 0 {
			s[k] = v
			res[0], res[1] = v, 1
		}
	case "inc": // compute-if-present adding v
		if cur != 0 {
			s[k] = incd(cur, v)
			res[0], res[1] = s[k], 1
		}
	case "ciaP": // function panics
		if cur != 0 {
			res[0], res[1] = cur, 1
		} else {
			res[2] = 1
		}
	case "cipP":
		if cur != 0 {
			res[2] = 1
		}
	case "slos": // reports whether it stored
		res[1] = b(cur == 0)
		if cur == 0 {
			s[k] = v
		}
	case "has":
		res[1] = b(cur != 0)
	case "clear":
		s = mapState{}
	default:
		panic("unknown op " + e.Op.K)
	}
	if !e.Pend && res != e.R {
		return nil
	}
	return []interface{}{s}
}

type mapAPI interface {
	Load(key interface{}) (interface{}, bool)
	Store(key, value interface{})
	LoadOrStore(key, value interface{}) (interface{}, bool)
	LoadAndDelete(key interface{}) (interface{}, bool)
	Delete(key interface{})
	ComputeIfAbsent(key interface{}, f func(interface{}) interface{}) (interface{}, bool)
	ComputeIfPresent(key interface{}, f func(k, v interface{}) interface{}) (interface{}, bool)
	Clear()
	Range(f func(k, v interface{}) bool)
}

// Keys and values are numbers in the plans; the maps get them in the domain of the run: all ints,
// or a mixture of types, some of which print alike or cannot be compared. The number nilVal is nil.
var keyDom, valDom int

const nilVal = -1

type keyStruct struct {
	a int
	b string
}

var mixedKeys = []interface{}{0, "0", int64(0), nil, keyStruct{0, "0"}, 0.0, [1]int{0}, false, keyStruct{}, uint8(0), "", "nil", [1]string{"0"}, '0'}

func domains(p *Plan) {
	keyDom, valDom = p.Get("keys", 0, 1), p.Get("vals", 0, 1)
}

func genDomains(r *R, p *Plan) {
	if r.P(1, 3) {
		p.P["keys"] = 1
	}
	if r.P(1, 3) {
		p.P["vals"] = 1
	}
}

func encK(k int) interface{} {
	if keyDom == 1 {
		return mixedKeys[k]
	}
	return k
}

func decK(key interface{}) int {
	if keyDom == 0 {
		if k, ok := key.(int); ok {
			return k
		}
	} else {
		for k, x := range mixedKeys {
			if x == key {
				return k
			}
		}
	}
	Failf("foreign-key", "a key that was never stored: %T %v", key, key)
	return 0
}

func encV(n int) interface{} {
	if n == nilVal {
		return nil
	}
	if valDom == 0 {
		return n
	}
	switch n / 1000 % 7 {
	case 1:
		return int64(n)
	case 2:
		return []int{n}
	case 3:
		return keyStruct{n, "v"}
	case 4:
		return &keyStruct{n, "p"}
	case 5:
		return func() int { return n }
	case 6:
		var e error = valErr(n)
		return e
	}
	return n
}

type valErr int

func (valErr) Error() string { return "value" }

func decV(v interface{}) int {
	switch x := v.(type) {
	case nil:
		return nilVal
	case int:
		return x
	case int64:
		return int(x)
	case []int:
		return x[0]
	case keyStruct:
		return x.a
	case *keyStruct:
		return x.a
	case func() int:
		return x()
	case valErr:
		return int(x)
	}
	Failf("foreign-value", "a value that was never stored: %T %v", v, v)
	return 0
}

// incd is what the increment functions make of a value.
func incd(old, by int) int {
	if old == nilVal {
		return 1000 + by
	}
	return old + by
}

func toFlag(b bool) int {
	if b {
		return 1
	}
	return 0
}

type boom struct{ n int }

type boomList []int

// boomOf is what the function of an operation panics with.
func boomOf(n int) interface{} {
	switch n / 1000 % 7 {
	case 1:
		return nil
	case 2:
		return fmt.Errorf("boom %d", n)
	case 3:
		return boomList{n}
	case 4:
		return n
	case 5:
		return fmt.Sprint("boom ", n)
	case 6:
		return &boom{n}
	}
	return boom{n}
}

func sameBoom(p, x interface{}, n int) bool {
	switch y := p.(type) {
	case boomList:
		return len(y) == 1 && y[0] == n && n/1000%7 == 3
	case *boom:
		return y.n == n && n/1000%7 == 6
	case error:
		return y.Error() == fmt.Sprintf("boom %d", n) && n/1000%7 == 2
	}
	return p == x
}

func mapDo(m mapAPI, e *Entry, weak bool) {
	op := e.Op
	var v interface{}
	var ok bool
	_, isSharded := m.(*shardedMap)
	kk := interface{}(op.A)
	if !isSharded {
		kk = encK(op.A)
	}
	switch op.K {
	case "load":
		v, ok = m.Load(kk)
	case "store":
		m.Store(kk, encV(op.B))
	case "los":
		v, ok = m.LoadOrStore(kk, encV(op.B))
	case "lad":
		v, ok = m.LoadAndDelete(kk)
	case "del":
		m.Delete(kk)
	case "cia":
		v, ok = m.ComputeIfAbsent(kk, func(k interface{}) interface{} {
			if k != kk {
				Failf("compute-key", "compute-if-absent(%v) called its function with key %v", kk, k)
			}
			core.Yield()
			return encV(op.B)
		})
	case "cip":
		v, ok = m.ComputeIfPresent(kk, func(k, old interface{}) interface{} {
			core.Yield()
			return encV(op.B)
		})
	case "inc":
		v, ok = m.ComputeIfPresent(kk, func(k, old interface{}) interface{} {
			if k != kk {
				Failf("compute-key", "compute-if-present(%v) called its function with key %v", kk, k)
			}
			core.Yield()
			return encV(incd(decV(old), op.B))
		})
	case "ciaP", "cipP":
		x := boomOf(op.B)
		core.Count("fault.callback_panic_offered")
		p, bad := Catch(func() {
			if op.K == "ciaP" {
				v, ok = m.ComputeIfAbsent(kk, func(k interface{}) interface{} { core.Yield(); panic(x) })
			} else {
				v, ok = m.ComputeIfPresent(kk, func(k, o interface{}) interface{} { core.Yield(); panic(x) })
			}
		})
		if bad {
			if !sameBoom(p, x, op.B) {
				Failf("wrong-panic", "%s panicked with %v instead of %v", op.K, p, x)
			}
			e.R[2] = 1
			return
		}
	case "clear":
		m.Clear()
	case "slos":
		ok = m.(*shardedMap).m.LoadOrStore(key(op.A), encV(op.B))
	case "has":
		ok = m.(*shardedMap).m.Has(key(op.A))
	case "mst": // two keys at once
		m.(*shardedMap).m.MStore(map[string]interface{}{key(op.A): encV(op.B), key(op.C): encV(op.B)})
	case "shload": // a load from the shard the key belongs to
		v, ok = m.(*shardedMap).m.GetShard(key(op.A)).Load(key(op.A))
	default:
		panic("unknown op " + op.K)
	}
	switch {
	case ok && op.K != "has" && op.K != "slos", op.K == "los", op.K == "cia", op.K == "ciaP":
		e.R[0] = decV(v)
	case v != nil:
		Failf("value-without-key", "%s(%v) returned value %v although it reports the key absent", op.K, kk, v)
	}
	e.R[1] = toFlag(ok)
}

// bystander uses a map of its own beside the others, with the same keys; to its only user that map
// must look as if it were the only one. C[...] knows nothing of it: P "twin" is its program.
func bystander(p *Plan, class string, m mapAPI) {
	twin := p.Get("twin", 0, 1<<20)
	if twin == 0 {
		return
	}
	var state [4]int
	n := 0
	wrong := func(what string, k, want int, got interface{}) {
		Failf(class, "a map that nobody else uses: %s of key %d gave %v, it holds number %d; other maps are in use", what, k, got, want)
	}
	val := func(v interface{}, ok bool) int {
		if !ok {
			return 0
		}
		x, _ := v.(bystanderVal)
		return int(x)
	}
	is := func(what string, k int, v interface{}, ok bool) {
		if ok != (state[k] != 0) || val(v, ok) != state[k] {
			wrong(what, k, state[k], v)
		}
	}
	all := func() {
		var seen [4]int
		m.Range(func(key, v interface{}) bool {
			k := 0
			if _, sharded := m.(*shardedMap); sharded {
				k, _ = key.(int)
			} else {
				k = decK(key)
			}
			if k < 0 || k > 3 {
				Failf(class, "a map that nobody else uses: an iteration visits key %v", key)
			}
			if seen[k]++; seen[k] > 1 {
				Failf(class, "a map that nobody else uses: an iteration visits key %v twice", key)
			}
			is("iteration", k, v, true)
			return true
		})
		for k, s := range state {
			if s != 0 && seen[k] == 0 {
				wrong("iteration", k, s, "nothing")
			}
		}
	}
	rnd := uint32(twin)
	_, sharded := m.(*shardedMap)
	for i := 0; i < 12; i++ {
		rnd = rnd*1664525 + 1013904223
		k := int(rnd>>16) % 4
		key := interface{}(k)
		if !sharded {
			key = encK(k)
		}
		switch op := int(rnd>>24) % 8; op {
		case 0, 1:
			n++
			m.Store(key, bystanderVal(n))
			state[k] = n
		case 2:
			m.Delete(key)
			state[k] = 0
		case 3:
			n++
			v, loaded := m.ComputeIfAbsent(key, func(interface{}) interface{} { return bystanderVal(n) })
			if loaded != (state[k] != 0) {
				wrong("compute-if-absent", k, state[k], v)
			}
			if !loaded {
				state[k] = n
			}
			is("compute-if-absent", k, v, true)
		case 4:
			n++
			v, ok := m.ComputeIfPresent(key, func(_, old interface{}) interface{} {
				if val(old, true) != state[k] {
					wrong("compute-if-present", k, state[k], old)
				}
				return bystanderVal(n)
			})
			if state[k] != 0 {
				state[k] = n
			}
			is("compute-if-present", k, v, ok)
		case 5:
			all()
		default:
			v, ok := m.Load(key)
			is("load", k, v, ok)
		}
	}
	all()
	m.Clear()
	state = [4]int{}
	all()
}

type bystanderVal int

// genMapPlan: C[0] is a sequential prefix, the rest are concurrent clients.
func genMapPlan(r *R, kinds []string, maxC, maxOps, hot int) *Plan {
	p := NewPlan()
	val := 1000
	keys := r.In(1, hot)
	op := func() Op {
		val += 1000
		o := Op{K: r.PickS(kinds...), A: r.N(keys), B: val}
		if r.P(1, 8) {
			o.B = nilVal
		}
		if o.K == "inc" {
			o.B = r.In(1, 3)
		}
		return o
	}
	genDomains(r, p)
	if r.P(1, 4) {
		p.P["twin"] = r.In(1, 1<<20)
	}
	var pre []Op
	n := r.Small(12)
	for i := 0; i < n; i++ {
		val += 1000
		switch r.N(6) {
		case 0, 1, 2:
			pre = append(pre, Op{K: "store", A: r.N(keys), B: val})
		case 3:
			pre = append(pre, Op{K: "load", A: r.N(nKeys)})
		case 4:
			pre = append(pre, Op{K: "del", A: r.N(keys)})
		case 5:
			pre = append(pre, Op{K: "range"})
		}
	}
	p.C = append(p.C, pre)
	nc := r.In(2, maxC)
	for i := 0; i < nc; i++ {
		var c []Op
		for k := r.In(1, maxOps); k > 0; k-- {
			c = append(c, op())
		}
		p.C = append(p.C, c)
	}
	return p
}

func runMap(p *Plan, class string) {
	runMapOn(p, class, &xsync.Map{})
}

func runMapOn(p *Plan, class string, m mapAPI) {
	n := len(p.C)
	if n == 0 {
		return
	}
	domains(p)
	go bystander(p, class, &xsync.Map{})
	wearMap(p, class, m)
	mobMap(p, class, m)
	h := NewHist(n + 1)
	for _, op := range p.C[0] {
		if op.K == "range" {
			m.Range(func(k, v interface{}) bool { return true })
			continue
		}
		h.Do(0, op, func(e *Entry) { mapDo(m, e, false) })
	}
	MustFinish("stuck", n-1, func(i int) {
		for _, op := range p.C[i+1] {
			if op.K == "range" {
				m.Range(func(k, v interface{}) bool { return true })
				continue
			}
			h.Do(i+1, op, func(e *Entry) { mapDo(m, e, false) })
		}
	})
	// afterwards the map still works and holds what the history says
	left := map[int]int{}
	m.Range(func(k, v interface{}) bool {
		kk := decK(k)
		if _, dup := left[kk]; dup {
			Failf(class, "final iteration visits key %v twice", k)
		}
		left[kk] = decV(v)
		return true
	})
	for k := 0; k < nKeys; k++ {
		e := h.Do(n, Op{K: "load", A: k}, func(e *Entry) { mapDo(m, e, false) })
		if left[k] != e.R[0] {
			Failf(class, "final iteration says %d for key %d, load says %d; history: %s", left[k], k, e.R[0], h)
		}
	}
	if len(h.All()) > 62 {
		return
	}
	if !Linearizable(Model{Init: mapState{}, Step: mapStep}, h.All()) {
		Failf(class, "no sequential order explains the history: %s", h)
	}
}

// Rounds: few clients use few keys for long, in rounds of a few operations each. The histories of
// some rounds at a time are checked, each from the contents that the loads after the last one saw.

const perRound = 3

func genRounds(kinds ...string) func(r *R) *Plan {
	return func(r *R) *Plan {
		p := genMapPlan(r, kinds, 3, 1, 2)
		keys := r.In(1, 2)
		delete(p.P, "twin")
		n := r.Pick(10, 30, 60, 150) * perRound
		val := 1000
		for i := 1; i < len(p.C); i++ {
			p.C[i] = nil
			for k := 0; k < n; k++ {
				val += 1000
				o := Op{K: r.PickS(kinds...), A: r.N(keys), B: val}
				if r.P(1, 30) {
					o.A = keys // now and then a key of its own
				}
				if r.P(1, 8) {
					o.B = nilVal
				}
				if o.K == "inc" {
					o.B = r.In(1, 3)
				}
				p.C[i] = append(p.C[i], o)
			}
		}
		return p
	}
}

func roundsCfg(r *R, p *Plan, c *core.Config) { c.MaxSteps = 1000000 }

func runRounds(p *Plan, class string, m mapAPI) {
	n, most := len(p.C), 0
	if n == 0 {
		return
	}
	domains(p)
	for _, c := range p.C[1:] {
		if len(c) > most {
			most = len(c)
		}
	}
	state := mapState{}
	h := NewHist(n + 1)
	for _, op := range p.C[0] {
		if op.K != "range" {
			h.Do(0, op, func(e *Entry) { mapDo(m, e, false) })
		}
	}
	for at := 0; at < most; at += perRound {
		MustFinish("stuck", n-1, func(i int) {
			c := p.C[i+1]
			for k := at; k < len(c) && k < at+perRound; k++ {
				if c[k].K == "range" {
					m.Range(func(k, v interface{}) bool { return true })
					continue
				}
				op := c[k]
				h.Do(i+1, op, func(e *Entry) { mapDo(m, e, false) })
			}
		})
		if len(h.All()) < 36 && at+perRound < most {
			continue
		}
		var next mapState
		for k := 0; k < nKeys; k++ {
			e := h.Do(n, Op{K: "load", A: k}, func(e *Entry) { mapDo(m, e, false) })
			if next[k] = e.R[0]; k == 2 && at%2 == 0 {
				break // higher keys are not used
			}
		}
		if len(h.All()) > 62 {
			return
		}
		if !Linearizable(Model{Init: state, Step: mapStep}, h.All()) {
			Failf(class, "no sequential order explains rounds up to %d, which began with %v (0: absent): %s", at/perRound, state, h)
		}
		if at%2 == 0 {
			next[3], next[4] = state[3], state[4]
		}
		state = next
		h = NewHist(n + 1)
	}
}

func init() {
	Register(worn(20, 150, &Scenario{Prop: "C01", Name: "rounds", Weight: 1,
		Gen: genRounds("load", "store", "store", "los", "lad", "del", "del", "cia", "inc", "cip"),
		Run: func(p *Plan) {
			m := &xsync.Map{}
			wearMap(p, "not-linearizable", m)
			runRounds(p, "not-linearizable", m)
		}, Cfg: roundsCfg}))
	Register(worn(20, 150, &Scenario{Prop: "C03", Name: "rounds", Weight: 1,
		Gen: genRounds("inc", "inc", "cia", "cia", "lad", "del", "store", "load"),
		Run: func(p *Plan) {
			m := &xsync.Map{}
			wearMap(p, "compute-not-atomic", m)
			runRounds(p, "compute-not-atomic", m)
		}, Cfg: roundsCfg}))
	Register(worn(20, 150, &Scenario{Prop: "C04", Name: "rounds", Weight: 1,
		Gen: genRounds("ciaP", "ciaP", "cipP", "cipP", "cia", "inc", "load", "store", "del", "lad"),
		Run: func(p *Plan) {
			m := &xsync.Map{}
			wearMap(p, "panic-changed-map", m)
			runRounds(p, "panic-changed-map", m)
		}, Cfg: roundsCfg}))
	all := []string{"load", "load", "store", "store", "los", "lad", "del", "cia", "cip", "clear", "range"}
	Register(worn(60, 150, &Scenario{Prop: "C01", Name: "linearizable", Weight: 3,
		Gen: func(r *R) *Plan { return genMapPlan(r, all, 5, 6, nKeys) },
		Run: func(p *Plan) { runMap(p, "not-linearizable") }}))
	Register(worn(60, 150, mobbed(200, 100, &Scenario{Prop: "C01", Name: "hot-key", Weight: 2,
		Gen: func(r *R) *Plan {
			return genMapPlan(r, []string{"load", "store", "los", "lad", "del", "cia", "inc", "clear"}, 4, 6, 2)
		},
		Run: func(p *Plan) { runMap(p, "not-linearizable") }})))
	Register(&Scenario{Prop: "C01", Name: "many-keys", Weight: 1, Gen: genMany,
		Run: func(p *Plan) { runMany(p, "not-linearizable") }, Cfg: fillCfg})
	Register(worn(60, 150, mobbed(200, 100, &Scenario{Prop: "C03", Name: "compute", Weight: 3,
		Gen: func(r *R) *Plan {
			return genMapPlan(r, []string{"inc", "inc", "inc", "cia", "cia", "lad", "del", "load", "store"}, 5, 5, 2)
		},
		Run: func(p *Plan) { runMap(p, "compute-not-atomic") }})))
	Register(worn(60, 150, &Scenario{Prop: "C03", Name: "counters", Weight: 2,
		Gen: func(r *R) *Plan {
			p := genMapPlan(r, []string{"inc"}, 6, 6, 1)
			// traffic on other keys moves the hot entry between the internal maps
			var c []Op
			for k := r.Small(10); k > 0; k-- {
				c = append(c, Op{K: r.PickS("store", "load", "del", "range"), A: r.In(1, nKeys-1), B: 7})
			}
			p.C = append(p.C, c)
			if r.P(2, 3) {
				p.C[0] = append(p.C[0], Op{K: "store", A: 0, B: 1000})
			}
			return p
		},
		Run: runCounters}))
	Register(worn(60, 150, mobbed(200, 100, &Scenario{Prop: "C03", Name: "absent", Weight: 2,
		Gen: func(r *R) *Plan {
			return genMapPlan(r, []string{"cia", "cia", "cia", "cia", "lad", "load", "range"}, 5, 4, 2)
		},
		Run: func(p *Plan) { runMap(p, "compute-not-atomic") }})))
	Register(worn(60, 150, &Scenario{Prop: "C04", Name: "panics", Weight: 3,
		Gen: func(r *R) *Plan {
			return genMapPlan(r, []string{"ciaP", "ciaP", "cipP", "cipP", "cia", "inc", "load", "store", "del", "los", "lad", "range"}, 4, 5, 3)
		},
		Run: func(p *Plan) { runMap(p, "panic-changed-map") }}))
	Register(worn(60, 150, &Scenario{Prop: "C02", Name: "iterate", Weight: 1, Gen: genRange, Run: func(p *Plan) { runRange(p, &xsync.Map{}) }, Cfg: fillCfg}))
}

// Many keys and long histories: every key must have a sequential history of its own, and the final
// iteration must agree with the final loads.
func genMany(r *R) *Plan {
	p := NewPlan()
	genDomains(r, p)
	nk := r.Pick(8, 20, 40, 80)
	if p.P["keys"] == 1 {
		nk = len(mixedKeys)
	}
	p.P["nkeys"] = nk
	genFill(r, p)
	val := 1000
	p.C = append(p.C, nil)
	for i := r.Pick(1, 1, 2, 3); i > 0; i-- {
		var c []Op
		base := r.N(nk)
		for k := r.In(10, 70); k > 0; k-- {
			val += 1000
			a := r.N(nk)
			if r.P(1, 2) {
				a = base
				base = (base + r.Pick(0, 1, 1)) % nk
			}
			kind := r.PickS("store", "store", "store", "load", "load", "los", "del", "lad", "cia", "cip", "inc", "range")
			if r.P(1, 40) {
				kind = "clear"
			}
			o := Op{K: kind, A: a, B: val}
			if kind == "inc" {
				o.B = r.In(1, 3)
			}
			c = append(c, o)
		}
		p.C = append(p.C, c)
	}
	return p
}

func runMany(p *Plan, class string) {
	n := len(p.C)
	if n == 0 {
		return
	}
	domains(p)
	nk := p.Get("nkeys", 1, 200)
	if keyDom == 1 && nk > len(mixedKeys) {
		nk = len(mixedKeys)
	}
	m := &xsync.Map{}
	fill := fillOf(p, m)
	fill.store(m)
	cleared := false
	for _, c := range p.C {
		for _, op := range c {
			cleared = cleared || op.K == "clear"
		}
	}
	h := NewHist(n + 1)
	MustFinish("stuck", n, func(i int) {
		for _, op := range p.C[i] {
			if op.K == "range" {
				seen := map[int]bool{}
				m.Range(func(k, v interface{}) bool {
					if _, ok := fill.is(k, v); ok {
						return true
					}
					kk := decK(k)
					if seen[kk] {
						Failf(class, "an iteration visits key %v twice", k)
					}
					seen[kk] = true
					return true
				})
				continue
			}
			if op.A < 0 || op.A >= nk {
				continue
			}
			h.Do(i, op, func(e *Entry) { mapDo(m, e, false) })
		}
	})
	left := map[int]int{}
	fills := make([]int, fill.n)
	m.Range(func(k, v interface{}) bool {
		if k, ok := fill.is(k, v); ok {
			fills[k]++
			return true
		}
		kk := decK(k)
		if _, dup := left[kk]; dup {
			Failf(class, "final iteration visits key %v twice", k)
		}
		left[kk] = decV(v)
		return true
	})
	if !cleared {
		fill.check(class, fills)
		fill.load(class, m)
	}
	for k := 0; k < nk; k++ {
		e := h.Do(n, Op{K: "load", A: k}, func(e *Entry) { mapDo(m, e, false) })
		if left[k] != e.R[0] {
			Failf(class, "final iteration says %d for key %d, load says %d", left[k], k, e.R[0])
		}
	}
	byKey := make([][]*Entry, nk)
	for _, e := range h.All() {
		if e.Op.K == "clear" {
			for k := range byKey {
				byKey[k] = append(byKey[k], e)
			}
			continue
		}
		byKey[e.Op.A] = append(byKey[e.Op.A], e)
	}
	for k, es := range byKey {
		if len(es) <= 62 && !perKey(0, es) {
			s := ""
			for _, e := range es {
				s += e.String() + "; "
			}
			Failf(class, "no sequential order explains what happened to key %d: %s", k, s)
		}
	}
}

func runCounters(p *Plan) {
	m := &xsync.Map{}
	if len(p.C) == 0 {
		return
	}
	domains(p)
	wearMap(p, "compute-not-atomic", m)
	for _, op := range p.C[0] {
		e := &Entry{Op: op}
		if op.K == "range" {
			m.Range(func(k, v interface{}) bool { return true })
			continue
		}
		mapDo(m, e, false)
	}
	v0, ok0 := m.Load(encK(0))
	n := len(p.C) - 1
	sum := make([]int, n)
	ret := make([][]int, n)
	MustFinish("stuck", n, func(i int) {
		for _, op := range p.C[i+1] {
			if op.K == "range" {
				m.Range(func(k, v interface{}) bool { return true })
				continue
			}
			e := &Entry{Op: op}
			mapDo(m, e, false)
			if op.K == "inc" {
				if e.R[1] != toFlag(ok0) {
					Failf("compute-not-atomic", "compute-if-present reported exist=%d on a key that is always present=%v", e.R[1], ok0)
				}
				if e.R[1] == 1 {
					sum[i] += op.B
					ret[i] = append(ret[i], e.R[0])
				}
			}
		}
	})
	if !ok0 {
		return
	}
	total := decV(v0)
	seen := map[int]bool{}
	for i := range sum {
		total += sum[i]
		for _, v := range ret[i] {
			if seen[v] {
				Failf("compute-not-atomic", "two increments returned the same value %d", v)
			}
			seen[v] = true
		}
	}
	v1, ok1 := m.Load(encK(0))
	if !ok1 || decV(v1) != total {
		Failf("compute-not-atomic", "counter is %v (present=%v) after increments that sum to %d", v1, ok1, total)
	}
}

// A filler is a number of further keys that nobody touches: they must be there, once, all the time.
type filler struct {
	n       int
	sharded bool
}

type fillKey int

func fillOf(p *Plan, m mapAPI) filler {
	_, sh := m.(*shardedMap)
	return filler{p.Get("fill", 0, 70000), sh}
}

func genFill(r *R, p *Plan) {
	if r.P(1, 25) {
		p.P["fill"] = r.Pick(30, 70, 140, 300, 600)
	}
	if r.P(1, 300) {
		p.P["fill"] = r.Pick(1023, 1024, 1025, 2049, 2500, 4097, 5000)
	}
	if r.P(1, 4000) {
		p.P["fill"] = r.Pick(10001, 33000, 66000)
	}
}

func fillCfg(r *R, p *Plan, c *core.Config) {
	if p.P["fill"] > 600 {
		c.MaxSteps = 20000000
	}
}

func (f filler) store(m mapAPI) {
	for i := 0; i < f.n; i++ {
		if f.sharded {
			m.(*shardedMap).m.Store(fmt.Sprint("fill ", i), fillKey(i))
		} else {
			m.Store(fillKey(i), fillKey(i))
		}
	}
}

// is tells whether the key is one of the filler's.
func (f filler) is(k, v interface{}) (int, bool) {
	if f.n == 0 {
		return 0, false
	}
	i, ok := v.(fillKey)
	if !ok {
		return 0, false
	}
	if f.sharded && k != fmt.Sprint("fill ", int(i)) || !f.sharded && k != i {
		Failf("foreign-value", "value %v, stored for another key, is found for %v", v, k)
	}
	return int(i), true
}

// check looks at what an iteration over the whole of a map that was never cleared has visited.
func (f filler) check(class string, seen []int) {
	for i := 0; i < f.n; i++ {
		if seen[i] != 1 {
			Failf(class, "an iteration over a map with %d untouched keys visits one of them %d times", f.n, seen[i])
		}
	}
}

func (f filler) load(class string, m mapAPI) {
	for i := 0; i < f.n; i++ {
		var v interface{}
		var ok bool
		if f.sharded {
			v, ok = m.(*shardedMap).m.Load(fmt.Sprint("fill ", i))
		} else {
			v, ok = m.Load(fillKey(i))
		}
		if !ok || v != fillKey(i) {
			Failf(class, "an untouched key of %d loads as %v, %v", f.n, v, ok)
		}
	}
}

// ---------------------------------------------------------------- C02

const rangeKeys = 12

// Keys 0..3 are mutated, the others are stable (present or absent) for the whole run.
func genRange(r *R) *Plan {
	return genRangeKinds(r, []string{"load", "store", "los", "lad", "del", "cia", "cip", "clear"})
}

// the last kind is clear, left out of most plans
func genRangeKinds(r *R, kinds []string) *Plan {
	p := NewPlan()
	if r.P(3, 4) {
		kinds = kinds[:len(kinds)-1]
	} else {
		p.P["clear"] = 1
	}
	genDomains(r, p)
	val := 1000
	var pre []Op
	for k := 0; k < rangeKeys; k++ {
		val += 1000
		if r.P(3, 5) {
			v := val
			if r.P(1, 10) {
				v = nilVal
			}
			pre = append(pre, Op{K: "store", A: k, B: v})
		}
		if r.P(1, 3) {
			pre = append(pre, Op{K: r.PickS("load", "range", "del"), A: r.N(rangeKeys + 2)})
		}
	}
	p.C = append(p.C, pre)
	genFill(r, p)
	nr := r.In(1, 2)
	p.P["rangers"] = nr
	p.P["stop"] = r.Pick(0, 0, 0, r.In(1, 6))
	p.P["reent"] = r.Pick(0, 0, 0, r.In(1, 50))
	for i := r.In(0, 4); i >= 0; i-- {
		var c []Op
		for k := r.In(1, 6); k > 0; k-- {
			val += 1000
			c = append(c, Op{K: r.PickS(kinds...), A: r.N(4), B: val})
		}
		p.C = append(p.C, c)
	}
	return p
}

// perKey checks the history of one key: clear acts on it as a delete, mst as a store.
func perKey(init int, es []*Entry) bool {
	step := func(st interface{}, e *Entry) []interface{} {
		ms := mapState{st.(int)}
		e2 := *e
		e2.Op.A = 0
		if e2.Op.K == "mst" {
			e2.Op.K = "store"
		}
		out := mapStep(ms, &e2)
		for i := range out {
			out[i] = out[i].(mapState)[0]
		}
		return out
	}
	return Linearizable(Model{Init: init, Step: step}, es)
}

func touches(e *Entry, k int) bool {
	return e.Op.K == "clear" || e.Op.A == k || e.Op.K == "mst" && e.Op.C == k
}

func runRange(p *Plan, m mapAPI) {
	const class = "iteration"
	if len(p.C) == 0 {
		return
	}
	domains(p)
	_, isSharded := m.(*shardedMap)
	fill := fillOf(p, m)
	wearMap(p, class, m)
	fill.store(m)
	fills := make([][]int, p.Get("rangers", 1, 3))
	base := map[int]int{}
	for _, op := range p.C[0] {
		if op.K == "range" {
			m.Range(func(k, v interface{}) bool { return true })
			continue
		}
		if op.A >= rangeKeys && op.K != "load" {
			continue
		}
		e := &Entry{Op: op}
		mapDo(m, e, false)
		switch op.K {
		case "store":
			base[op.A] = op.B
		case "del":
			delete(base, op.A)
		}
	}
	nm := len(p.C) - 1
	nr := p.Get("rangers", 1, 3)
	stop := p.Get("stop", 0, 100)
	type visit struct {
		start, end int
		keys, vals []int
		at         []int
		stopped    bool
	}
	visits := make([]*visit, nr)
	h := NewHist(nm + nr)
	reent := p.Get("reent", 0, 1000)
	MustFinish("stuck", nm+nr, func(i int) {
		if i < nm {
			for _, op := range p.C[i+1] {
				h.Do(i, op, func(e *Entry) { mapDo(m, e, false) })
			}
			return
		}
		v := &visit{}
		fills[i-nm] = make([]int, fill.n)
		v.start = core.Seq()
		m.Range(func(k, x interface{}) bool {
			if v.stopped {
				Failf(class, "the function was called again after it returned false")
			}
			if k, ok := fill.is(k, x); ok {
				fills[i-nm][k]++
				return true
			}
			core.Yield()
			if reent > 0 {
				// the function uses the map itself
				n := reent + len(v.keys)
				kinds := []string{"load", "store", "lad", "los", "del"}
				if isSharded {
					kinds = []string{"load", "store", "has", "slos", "del"}
				}
				op := Op{K: kinds[n%5], A: n / 5 % 4, B: 1000000 + 1000*n + i}
				h.Do(i, op, func(e *Entry) { mapDo(m, e, false) })
			}
			if !isSharded {
				k = decK(k)
			}
			v.keys = append(v.keys, k.(int))
			v.vals = append(v.vals, decV(x))
			v.at = append(v.at, core.Seq())
			if len(v.keys) == stop {
				v.stopped = true
				return false
			}
			return true
		})
		v.end = core.Seq()
		visits[i-nm] = v
	})
	cleared := p.On("clear")
	hist := h.All()
	if !cleared {
		fill.load(class, m)
	}
	for i, v := range visits {
		if !cleared && !v.stopped {
			fill.check(class, fills[i])
		}
		got := map[int]int{}
		for i, k := range v.keys {
			if _, dup := got[k]; dup {
				Failf(class, "key %d visited twice", k)
			}
			got[k] = v.vals[i]
		}
		for k := 4; k < rangeKeys; k++ {
			want, present := base[k]
			g, seen := got[k]
			switch {
			case seen && !present:
				Failf(class, "key %d was absent throughout but was visited with %d", k, g)
			case seen && g != want:
				Failf(class, "key %d held %d throughout but was visited with %d", k, want, g)
			case !seen && present && !v.stopped && !cleared:
				Failf(class, "key %d held %d throughout but was not visited", k, want)
			}
		}
	}
	// the mutated keys: a visit is a load somewhere inside the iteration; a key not visited by an
	// iteration that overlaps no operation on it must have been absent
	for k := 0; k < 4; k++ {
		var es []*Entry
		for _, e := range hist {
			if touches(e, k) {
				es = append(es, e)
			}
		}
		for _, v := range visits {
			g, seen := 0, false
			for i := range v.keys {
				if v.keys[i] == k {
					g, seen = v.vals[i], true
				}
			}
			le := &Entry{Op: Op{K: "load", A: k}, Call: v.start, Ret: v.end}
			if seen {
				le.R = [4]int{g, 1}
				for i := range v.keys {
					if v.keys[i] == k {
						le.Ret = v.at[i]
					}
				}
			} else {
				if v.stopped {
					continue
				}
				overlap := false
				for _, e := range es {
					if e.Call < v.end && e.Ret > v.start {
						overlap = true
					}
				}
				if overlap {
					continue
				}
			}
			es = append(es, le)
		}
		if len(es) <= 60 && !perKey(base[k], es) {
			s := ""
			for _, e := range es {
				s += e.String() + "; "
			}
			Failf(class, "key %d (initially %d): visits do not match the values it held: %s", k, base[k], s)
		}
	}
}
