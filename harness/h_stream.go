package main

import (
	"fmt"
	"math"
	"sort"
	"strings"
	"time"

	"github.com/chenquan/go-pkg/xstream"
	"verif.local/vsim/core"
	. "verif.local/vsim/fw"
)

// ---------------------------------------------------------------- elements and their model

// Elements are ints, odd elements such as nil, or slices of elements (after split and merge).

func ekey(x interface{}) int {
	switch v := x.(type) {
	case int:
		return v
	case []interface{}:
		k := 1000 + len(v)
		for _, y := range v {
			k = (k*31 + ekey(y)) % 100003
		}
		return k
	}
	for i, y := range oddElems {
		if x == y {
			return -1 - i
		}
	}
	return -100
}

// oddElems are elements -1, -2, ...: several of them look alike as text or count as zero.
var oddElems = []interface{}{nil, "", "1", int64(1), 1.5, struct{}{}, errDisk, false, "2", uint8(2), [2]int{0, 1}, '1'}

func etext(x interface{}) string {
	switch v := x.(type) {
	case nil:
		return "nil"
	case int:
		return fmt.Sprint(v)
	case []interface{}:
		return "[" + etexts(v) + "]"
	}
	return fmt.Sprintf("%T:%v", x, x)
}

func etexts(v []interface{}) string {
	var b []string
	for i, y := range v {
		if i == 40 {
			b = append(b, fmt.Sprintf("... (%d elements)", len(v)))
			break
		}
		b = append(b, etext(y))
	}
	return strings.Join(b, " ")
}

func esame(a, b interface{}) bool {
	x, ok1 := a.([]interface{})
	y, ok2 := b.([]interface{})
	if ok1 || ok2 {
		return ok1 && ok2 && esames(x, y)
	}
	return a == b
}

func esames(x, y []interface{}) bool {
	if len(x) != len(y) {
		return false
	}
	for i := range x {
		if !esame(x[i], y[i]) {
			return false
		}
	}
	return true
}

func eless(a, b interface{}) bool {
	if x, y := ekey(a), ekey(b); x != y {
		return x < y
	}
	return etext(a) < etext(b)
}

// ebag is the multiset of the elements, in a canonical order.
func ebag(v []interface{}) []interface{} {
	w := make([]interface{}, 0, len(v))
	for _, x := range v {
		w = append(w, x)
	}
	sort.SliceStable(w, func(i, j int) bool { return eless(w[i], w[j]) })
	return w
}

func elems(ints []int) []interface{} {
	var out []interface{}
	for _, n := range ints {
		if n < 0 {
			out = append(out, oddElems[(-1-n)%len(oddElems)])
		} else {
			out = append(out, n)
		}
	}
	return out
}

// typedKey maps k to one of m numbers and, if typed, to several types that print alike.
func typedKey(k, m int, typed bool) interface{} {
	t := 0
	if k < 0 {
		k = -k
	}
	if typed {
		t = k / m % 9
	}
	k %= m
	switch t {
	case 1:
		return fmt.Sprint(k)
	case 2:
		return int64(k)
	case 3:
		return float64(k)
	case 4:
		return [1]int{k}
	case 5:
		if k%2 == 0 {
			return nil
		}
		return struct{ k interface{} }{k}
	case 6:
		return textKey(k)
	case 7:
		return errKey{k}
	case 8:
		return &ptrKeys[k%len(ptrKeys)]
	}
	return k
}

// Keys that differ but print alike.
type textKey int

func (textKey) String() string { return "key" }

type errKey struct{ n int }

func (errKey) Error() string { return "key" }

var ptrKeys [8]struct{ n int }

func genInts(r *R, max, vals int) []int {
	n := r.Small(max)
	v := []int{}
	for i := 0; i < n; i++ {
		v = append(v, r.N(vals))
	}
	return v
}

// ---------------------------------------------------------------- sources

// source makes a stream of the items: kind 0 of, 1 from, 2 range with a producer, 3 range over a
// buffered channel, 4 range over a full closed channel, 5 concat of one.
func source(kind, pace int, items []interface{}) *xstream.Stream {
	switch kind {
	case 1:
		return xstream.From(func(ch chan<- interface{}) {
			for i, x := range items {
				pause(pace, i)
				ch <- x
			}
		})
	case 2, 3:
		ch := make(chan interface{}, (kind-2)*2)
		go func() {
			for i, x := range items {
				pause(pace, i)
				ch <- x
			}
			close(ch)
		}()
		return xstream.Range(ch)
	case 4:
		ch := make(chan interface{}, len(items))
		for _, x := range items {
			ch <- x
		}
		close(ch)
		return xstream.Range(ch)
	case 5:
		return xstream.Concat(xstream.Of(items...))
	}
	return xstream.Of(items...)
}

// pause makes some elements late: pace 0 never, 1 yields, 2 sleeps now and then.
func pause(pace, i int) {
	switch pace {
	case 1:
		yields(i % 3)
	case 2:
		if i%3 == 0 {
			time.Sleep(time.Millisecond)
		}
	case 3:
		if i%4 == 1 {
			time.Sleep(700 * time.Millisecond)
		}
	}
}

// ---------------------------------------------------------------- C27

var stageNames = []string{"distinct", "buffer", "split", "splitstream", "sort", "tail", "skip", "limit", "reverse", "peek", "merge", "map", "filter", "flatmap", "walk", "concat1", "copy1"}

// A client's first operation is the source (A: kind, B: pace, C: consumer), the following "el"
// operations its elements (A), the rest its stages (K, A: parameter, B: option kind, C: pace).
func genPipe(r *R) *Plan {
	p := NewPlan()
	for n := r.Pick(1, 1, 1, 2, 3); n > 0; n-- {
		c := []Op{{K: "src", A: r.N(6), B: r.Pick(0, 0, 1, 2, 3), C: r.N(5)}}
		vals := r.Pick(2, 5, 50)
		lo := r.Pick(0, 0, 0, 0, 0, 0, -1, -1, -12)
		max := 10
		if r.P(1, 12) {
			max = 80
		}
		max = r.Many(max)
		if max > 80 {
			vals = r.Pick(5, 50, 1000)
		}
		for k := r.Small(max); k > 0; k-- {
			c = append(c, Op{K: "el", A: r.In(lo, vals)})
		}
		for k := r.Pick(1, 1, 2, 2, 3, 4, 5); k > 0; k-- {
			s := Op{K: stageNames[r.N(len(stageNames))], A: r.Pick(0, 1, 1, 2, 2, 3, 4, 7, 13), B: r.N(5), C: r.Pick(0, 0, 0, 1, 2)}
			if max > 80 && r.P(1, 2) {
				s.A = r.Pick(16, 17, 64, 65, 100, 256, 257, 300, 513)
			}
			if r.P(1, 15) && (s.K == "split" || s.K == "splitstream" || s.K == "tail" || s.K == "skip" || s.K == "limit") {
				// more than any source has: everything, or nothing, is meant
				s.A = r.Pick(1<<50, math.MaxInt64-1, math.MaxInt64)
			}
			c = append(c, s)
		}
		p.C = append(p.C, c)
	}
	return p
}

func oneWorker(kind int) []xstream.Option {
	switch kind {
	case 1:
		return []xstream.Option{xstream.WithWorkSize(1)}
	case 2:
		return []xstream.Option{xstream.WithWorkSize(0)}
	case 3:
		return []xstream.Option{xstream.WithWorkSize(-3)}
	case 4:
		return []xstream.Option{xstream.WithWorkSize(4), xstream.WithOption(&xstream.Options{})}
	}
	return nil
}

func mapped(x interface{}) interface{} {
	k := ekey(x)
	switch k % 13 {
	case 5:
		return nil
	case 7:
		return []interface{}{k}
	case 9:
		return ""
	}
	return k*3 + 1
}

func kept(x interface{}, m int) bool { return ekey(x)%(m+1) != 0 }

type peekLog struct {
	want []interface{}
	got  []interface{}
}

// apply is both the stage and its list function.
func apply(s *xstream.Stream, v []interface{}, op Op, logs *[]*peekLog) (*xstream.Stream, []interface{}) {
	pace := op.C
	i := 0
	slow := func() {
		pause(pace, i)
		i++
	}
	var w []interface{}
	switch op.K {
	case "distinct":
		key := func(x interface{}) interface{} { return typedKey(ekey(x), op.A+2, op.B == 1) }
		seen := map[interface{}]bool{}
		for _, x := range v {
			if k := key(x); !seen[k] {
				seen[k] = true
				w = append(w, x)
			}
		}
		return s.Distinct(func(x interface{}) interface{} { slow(); return key(x) }), w
	case "buffer":
		return s.Buffer(op.A - 1), v
	case "split", "splitstream":
		n := op.A
		if n < 1 {
			n = 1
		}
		for j := 0; j < len(v); {
			e := len(v)
			if n < e-j {
				e = j + n
			}
			w = append(w, v[j:e:e])
			j = e
		}
		if op.K == "split" {
			return s.Split(n), w
		}
		ss := s.SplitSteam(n)
		if op.B%2 == 0 {
			// the parts are read as they come
			return ss.Map(func(x interface{}) interface{} { slow(); return collect(x.(*xstream.Stream).Chan(), 0) }), w
		}
		// the parts are read when all have been delivered
		return xstream.From(func(ch chan<- interface{}) {
			var parts []*xstream.Stream
			for x := range ss.Chan() {
				slow()
				parts = append(parts, x.(*xstream.Stream))
			}
			for _, x := range parts {
				ch <- collect(x.Chan(), 0)
			}
		}), w
	case "sort":
		for _, x := range v {
			w = append(w, x)
		}
		sort.SliceStable(w, func(i, j int) bool { return eless(w[i], w[j]) })
		return s.Sort(eless), w
	case "tail":
		if op.A < len(v) {
			return s.Tail(op.A), v[len(v)-op.A:]
		}
		return s.Tail(op.A), v
	case "skip":
		if op.A < len(v) {
			return s.Skip(op.A), v[op.A:]
		}
		return s.Skip(op.A), nil
	case "limit":
		if op.A < len(v) {
			v = v[:op.A]
		}
		return s.Limit(op.A), v
	case "reverse":
		for j := len(v) - 1; j >= 0; j-- {
			w = append(w, v[j])
		}
		return s.Reverse(), w
	case "peek":
		l := &peekLog{want: v}
		*logs = append(*logs, l)
		return s.Peek(func(x interface{}) {
			slow()
			l.got = append(l.got, x)
		}), v
	case "merge":
		return s.Merge(), []interface{}{v}
	case "map":
		for _, x := range v {
			w = append(w, mapped(x))
		}
		return s.Map(func(x interface{}) interface{} { slow(); return mapped(x) }, oneWorker(op.B)...), w
	case "filter":
		for _, x := range v {
			if kept(x, op.A) {
				w = append(w, x)
			}
		}
		return s.Filter(func(x interface{}) bool { slow(); return kept(x, op.A) }, oneWorker(op.B)...), w
	case "flatmap":
		for _, x := range v {
			if l, ok := x.([]interface{}); ok {
				for _, y := range l {
					w = append(w, mapped(y))
				}
			} else {
				w = append(w, mapped(x))
			}
		}
		return s.FlatMap(func(x interface{}) interface{} { slow(); return mapped(x) }, oneWorker(op.B)...), w
	case "walk":
		out := func(x interface{}) int { return (ekey(x) + 1 + op.A) % 3 }
		val := func(x interface{}, k int) interface{} {
			if ekey(x)%5 == 4 {
				return nil
			}
			return ekey(x)*4 + k
		}
		for _, x := range v {
			for k := 0; k < out(x); k++ {
				w = append(w, val(x, k))
			}
		}
		return s.Walk(func(x interface{}, pipe chan<- interface{}) {
			slow()
			for k := 0; k < out(x); k++ {
				pipe <- val(x, k)
			}
		}, oneWorker(op.B)...), w
	case "concat1":
		return s.Concat(), v
	case "copy1":
		return s.Copy(map[string]int{"a": op.A})["a"], v
	}
	return s, v
}

func collect(ch <-chan interface{}, pace int) []interface{} {
	var out []interface{}
	i := 0
	for x := range ch {
		pause(pace, i)
		i++
		out = append(out, x)
	}
	return out
}

// consume reads a stream to its end in one of several ways.
func consume(s *xstream.Stream, kind, pace int) []interface{} {
	var out []interface{}
	i := 0
	switch kind {
	case 1:
		s.Foreach(func(x interface{}) {
			pause(pace, i)
			i++
			out = append(out, x)
		})
	case 2:
		s.Collection(xstream.CollectorFunc(func(c <-chan interface{}) { out = collect(c, pace) }))
	case 3:
		s.ForeachOrdered(func(x interface{}) {
			pause(pace, i)
			i++
			out = append(out, x)
		})
		for a, b := 0, len(out)-1; a < b; a, b = a+1, b-1 {
			out[a], out[b] = out[b], out[a]
		}
	default:
		out = collect(s.Chan(), pace)
	}
	return out
}

// ownSlices: each list delivered is the receiver's own; what is done to one does not show in others.
func ownSlices(class string, lists [][]interface{}) {
	const mine = "appended by the receiver"
	before := make([][]interface{}, len(lists))
	longer := make([][]interface{}, len(lists))
	for i, l := range lists {
		before[i] = make([]interface{}, len(l))
		for j, x := range l {
			before[i][j] = x
		}
	}
	for i, l := range lists {
		longer[i] = append(l, mine)
	}
	for i, l := range lists {
		if longer[i][len(l)] != interface{}(mine) {
			Failf(class, "what was appended to list %d of %d is gone after appending to the others", i, len(lists))
		}
		for j := range l {
			if !esame(l[j], before[i][j]) {
				Failf(class, "list %d of %d changed when others were appended to", i, len(lists))
			}
			l[j] = mine
		}
	}
}

func runPipe(p *Plan) {
	wearStream(p, "lost")
	var logs []*peekLog
	MustFinish("stuck", len(p.C), func(c int) {
		var items []interface{}
		src := Op{}
		var stages []Op
		for _, op := range p.C[c] {
			switch op.K {
			case "src":
				src = op
			case "el":
				items = append(items, elems([]int{op.A})[0])
			default:
				stages = append(stages, op)
			}
		}
		s := source(src.A, src.B, items)
		want := items
		for _, op := range stages {
			s, want = apply(s, want, op, &logs)
		}
		got := consume(s, src.C, (src.B+src.C)%4)
		if !esames(got, want) {
			Failf("sequence", "pipeline %d delivered %s instead of %s", c, etexts(got), etexts(want))
		}
		if _, ok := <-s.Chan(); ok {
			Failf("sequence", "pipeline %d delivered an element after its end", c)
		}
		if n := len(stages); n > 0 && (stages[n-1].K == "split" || stages[n-1].K == "splitstream" || stages[n-1].K == "merge") {
			var lists [][]interface{}
			for _, x := range got {
				lists = append(lists, x.([]interface{}))
			}
			ownSlices("sequence", lists)
		}
	})
	core.WaitQuiet()
	for _, l := range logs {
		if !esames(l.got, l.want) {
			Failf("peek", "the peek action was performed on %s instead of %s", etexts(l.got), etexts(l.want))
		}
	}
	NoLeak("leak")
}

// ---------------------------------------------------------------- C28

// P: workers, kind (0 walk, 1 map, 2 filter, 3 flat-map, 4 parallel finish), n elements, src,
// pace, gate (calls wait for one another), second (another parallel stage follows).
func genPar(r *R) *Plan {
	p := NewPlan()
	if r.P(1, 3) {
		p.P["opts"] = r.N(64)
	}
	for n := r.Pick(1, 1, 1, 2); n > 0; n-- {
		c := []Op{{K: "src", A: r.N(5), B: r.Pick(0, 0, 1, 2), C: r.N(5)},
			{K: "stage", A: r.Pick(-1, 0, 1, 1, 2, 2, 3, 4, 8), B: r.N(5), C: r.Pick(0, 0, 1, 2)}}
		if r.P(1, 3) {
			c[1].K = "gate"
		}
		if r.P(1, 4) {
			c = append(c, Op{K: "stage", A: r.Pick(1, 2, 3), B: r.N(4), C: r.Pick(0, 0, 1, 2)})
		}
		max := 12
		if r.P(1, 12) {
			max = 70
		}
		if r.P(1, 25) {
			c[1].A = r.Pick(16, 17, 33)
			max = 80
		}
		if max = r.Many(max); max > 80 && r.P(1, 2) {
			c[1].A = r.Pick(64, 65, 128, 129, 300)
		}
		for k := r.Small(max); k > 0; k-- {
			if c[1].B == 3 && r.P(1, 3) {
				n := r.N(4)
				if r.P(1, 12) {
					n = r.Pick(9, 17, 40, 70)
				}
				c = append(c, Op{K: "sl", A: n})
			} else {
				c = append(c, Op{K: "el"})
			}
		}
		p.C = append(p.C, c)
	}
	return p
}

type parStage struct {
	op         Op
	name       string
	limit      int
	n          int // elements expected
	active     int
	max        int
	begun      int
	calls      []int // by element number
	inners     []int
	closed     bool
	gate       bool
	gateN      int
	gateCh     chan struct{}
	slices     map[int]int
	panicsAt   func(id int) bool
	before     int // outputs before a panic, for walk
	opts       int // how the number of workers is passed
	produced   []interface{}
	total      int
	sequential bool
	last       bool // its results may be anything
}

// sharedOptions are used by several stages and say nothing: one worker.
var sharedOptions = &xstream.Options{}

var parKinds = []string{"walk", "map", "filter", "flat-map", "parallel-finish"}

func (ps *parStage) enter(id int) {
	if ps.closed {
		Failf("late-call", "%s: a call begins after the stage closed or returned", ps.name)
	}
	ps.calls[id]++
	if ps.calls[id] > 1 {
		Failf("twice", "%s: the function is called again for element %d", ps.name, id)
	}
	ps.active++
	ps.begun++
	if ps.active > ps.max {
		ps.max = ps.active
	}
	if ps.active > ps.limit {
		Failf("too-many", "%s: %d calls at once with %d workers", ps.name, ps.active, ps.limit)
	}
	if ps.gate {
		ch := ps.gateCh
		ps.gateN++
		want := ps.limit
		if left := ps.n - (ps.begun-1)/ps.limit*ps.limit; left < want {
			want = left
		}
		if ps.gateN == want {
			ps.gateN = 0
			ps.gateCh = make(chan struct{})
			close(ch)
		} else {
			<-ch
		}
	} else {
		pause(ps.op.C, id)
		core.Yield()
	}
	if ps.panicsAt != nil && ps.panicsAt(id) {
		return
	}
}

func (ps *parStage) leave() { ps.active-- }

func (ps *parStage) val(i, k int) interface{} {
	if ps.last && i%6 == 5 {
		if i%4 == 1 {
			return []interface{}{i, k}
		}
		return oddElems[(i/6+k)%len(oddElems)]
	}
	return i*10 + k
}

// add attaches the stage to s; elements are numbers (10*id) or, for flat-map, slices of them.
func (ps *parStage) add(s *xstream.Stream) *xstream.Stream {
	var opts []xstream.Option
	one := ps.op.A == 1
	switch {
	case ps.opts == 1: // the later option counts
		opts = append(opts, xstream.WithWorkSize(9), xstream.WithWorkSize(ps.op.A))
	case ps.opts == 2 && one:
		opts = append(opts, xstream.WithWorkSize(7), xstream.WithOption(sharedOptions))
	case ps.opts == 3 && one:
		opts = append(opts, xstream.WithOption(sharedOptions))
	case ps.opts >= 2:
		opts = append(opts, xstream.WithOption(sharedOptions), xstream.WithWorkSize(ps.op.A))
	case !one || ps.op.C != 0:
		opts = append(opts, xstream.WithWorkSize(ps.op.A))
	}
	id := func(x interface{}) int { return ps.ident(x) }
	boom := func(i int) bool {
		if ps.panicsAt != nil && ps.panicsAt(i) {
			core.Count("fault.callback_panic")
			return true
		}
		return false
	}
	switch ps.op.B {
	case 0:
		return s.Walk(func(x interface{}, pipe chan<- interface{}) {
			i := id(x)
			ps.enter(i)
			defer ps.leave()
			for k := 0; k < i%3; k++ {
				if boom(i) && k == ps.before {
					raise(i)
				}
				pipe <- ps.val(i, k)
			}
			if boom(i) {
				raise(i)
			}
		}, opts...)
	case 1:
		return s.Map(func(x interface{}) interface{} {
			i := id(x)
			ps.enter(i)
			defer ps.leave()
			if boom(i) {
				raise(i + 1)
			}
			return ps.val(i, 1)
		}, opts...)
	case 2:
		return s.Filter(func(x interface{}) bool {
			i := id(x)
			ps.enter(i)
			defer ps.leave()
			if boom(i) {
				raise(i + 2)
			}
			return i%2 == 0
		}, opts...)
	case 3:
		return s.FlatMap(func(x interface{}) interface{} {
			i := id(x)
			ps.enter(i)
			defer ps.leave()
			if boom(i) {
				raise(i + 3)
			}
			return ps.val(i, 2)
		}, opts...)
	default:
		s.ParallelFinish(func(x interface{}) {
			i := id(x)
			ps.enter(i)
			defer ps.leave()
			if boom(i) {
				raise(i + 4)
			}
		}, opts...)
		return nil
	}
}

// raise panics with a value that depends on n.
func raise(n int) {
	switch n % 8 {
	case 0:
		panic(nil) // recovered as nil, see fw.Main
	case 1:
		panic(n)
	case 2:
		var m map[string]int
		m["x"] = n
	case 3:
		panic(fmt.Errorf("boom-%d", n))
	case 4:
		panic([]int{n})
	case 5:
		defer func() { panic(fmt.Sprint("again ", recover())) }()
		panic(n)
	case 6:
		panic(&n)
	}
	panic(fmt.Sprintf("boom-%d", n))
}

func (ps *parStage) ident(x interface{}) int {
	v, ok := x.(int)
	if !ok || v < 0 || v >= len(ps.calls) || v != int(v) {
		if ok && ps.slices != nil {
			if i, ok := ps.slices[v]; ok {
				return i
			}
		}
		Failf("foreign", "%s: the function is called with %v, which the source never delivered", ps.name, etext(x))
	}
	if ps.slices != nil {
		i, ok := ps.slices[v]
		if !ok {
			Failf("foreign", "%s: the function is called with %v, which the source never delivered", ps.name, etext(x))
		}
		return i
	}
	return v
}

// out is what the call for element i delivers (by the kind), for an element x.
func (ps *parStage) out(i int, x interface{}) []interface{} {
	var w []interface{}
	switch ps.op.B {
	case 0:
		for k := 0; k < i%3; k++ {
			w = append(w, ps.val(i, k))
		}
	case 1:
		w = append(w, ps.val(i, 1))
	case 2:
		if i%2 == 0 {
			w = append(w, x)
		}
	case 3:
		w = append(w, ps.val(i, 2))
	}
	return w
}

func (ps *parStage) finish() {
	if ps.active != 0 {
		Failf("closed-early", "%s closed or returned while %d calls are running", ps.name, ps.active)
	}
	ps.closed = true
	for i, n := range ps.calls {
		if n != 1 {
			Failf("not-called", "%s closed or returned although the function was called %d times for element %d", ps.name, n, i)
		}
	}
}

// parInput gives the source elements and the number of calls of the first stage.
func parInput(c []Op, flat bool) (items []interface{}, calls int) {
	for _, op := range c {
		switch op.K {
		case "el":
			items = append(items, calls)
			calls++
		case "sl":
			if !flat {
				items = append(items, calls)
				calls++
				continue
			}
			l := []interface{}{}
			for k := 0; k < op.A; k++ {
				l = append(l, calls)
				calls++
			}
			items = append(items, l)
		}
	}
	return
}

func parStages(c []Op) (src Op, st []*parStage) {
	for _, op := range c {
		if op.K == "src" {
			src = op
		}
		if op.K == "stage" || op.K == "gate" {
			ps := &parStage{op: op, gate: op.K == "gate", limit: op.A, gateCh: make(chan struct{})}
			if ps.limit < 1 {
				ps.limit = 1
			}
			if ps.op.B < 0 || ps.op.B > 4 {
				ps.op.B = 1
			}
			if len(st) > 0 {
				ps.gate = false
				if ps.op.B == 4 {
					ps.op.B = 1
				}
			}
			ps.name = fmt.Sprintf("%s with %d workers", parKinds[ps.op.B], op.A)
			st = append(st, ps)
		}
	}
	if len(st) == 0 {
		st = append(st, &parStage{op: Op{A: 2, B: 1}, limit: 2, name: "map"})
	}
	return
}

func runPar(p *Plan) {
	wearStream(p, "lost")
	sharedOptions = &xstream.Options{}
	MustFinish("stuck", len(p.C), func(c int) {
		src, st := parStages(p.C[c])
		first := st[0]
		st[len(st)-1].last = true
		for i, ps := range st {
			ps.opts = (p.Get("opts", 0, 1000) / (1 + 4*i)) % 4
		}
		items, calls := parInput(p.C[c], first.op.B == 3)
		first.n = calls
		for _, x := range items {
			if _, ok := x.([]interface{}); ok {
				first.gate = false // inner calls of one slice follow one another
			}
		}
		first.calls = make([]int, calls)
		want := []interface{}{}
		for i := 0; i < calls; i++ {
			want = append(want, first.out(i, i)...)
		}
		s := first.add(source(src.A, src.B, items))
		if s == nil {
			first.finish()
			return
		}
		for _, ps := range st[1:] {
			// the next stage numbers the elements by their value
			ps.slices = map[int]int{}
			var w []interface{}
			for i, x := range want {
				ps.slices[x.(int)] = i
				w = append(w, ps.out(i, x)...)
			}
			ps.calls = make([]int, len(want))
			ps.n = len(want)
			want = w
			s = ps.add(s)
		}
		got := consume(s, src.C, (src.B+src.C)%3)
		for _, ps := range st {
			ps.finish()
		}
		if !esames(ebag(got), ebag(want)) {
			Failf("results", "%s delivered %s instead of %s (in any order)", first.name, etexts(ebag(got)), etexts(ebag(want)))
		}
	})
	core.WaitQuiet()
	NoLeak("leak")
}

// ---------------------------------------------------------------- C29

// Clients hold one pipeline each: "src" (A: kind of source: 0 finite, 1 unending, 2 stalled;
// B: pace, C: channel capacity), "op" (K the operation, A: parameter), "el" elements.
func genShort(r *R) *Plan {
	p := NewPlan()
	for n := r.Pick(1, 1, 1, 2, 3); n > 0; n-- {
		c := []Op{{K: "src", A: r.Pick(0, 0, 1, 2), B: r.Pick(0, 0, 1, 2), C: r.Pick(0, 0, 1, 3)}}
		op := Op{K: r.PickS("any", "all", "first", "limit", "any", "all", "first", "limit", "count", "last", "foreach", "ordered", "done"), A: r.N(6), B: r.N(8), C: r.Pick(0, 0, 1, 2)}
		c = append(c, op)
		lo := r.Pick(0, 0, 0, 0, 0, 0, -1, -1, -12)
		max := 8
		if r.P(1, 12) {
			max = 60
			if r.P(1, 2) {
				c[1].A = r.N(70)
			}
		}
		if max = r.Many(max); max > 60 && r.P(1, 2) {
			c[1].A = r.N(max)
		}
		for k := r.Small(max); k > 0; k-- {
			c = append(c, Op{K: "el", A: r.In(lo, 6)})
		}
		p.C = append(p.C, c)
	}
	if r.P(1, 60) {
		p.P["left"] = r.Pick(100, 300, 1100, 1100, 5000)
		if r.P(1, 10) {
			p.P["left"] = r.Pick(9000, 17000, 40000, 70000)
		}
	}
	if r.P(1, 100) { // many elements before the decisive one
		p.P["lead"] = r.Pick(100, 300, 1030, 1030, 2100)
		if r.P(1, 10) {
			p.P["lead"] = r.Pick(4200, 17000, 33000, 66000)
		}
		p.C = p.C[:1]
		p.C[0][0].B, p.C[0][1].C = 0, 0
	}
	return p
}

// addLead puts elements that settle nothing before those of the plan.
func (sr *shortRun) addLead(n int) {
	v := 1000
	switch sr.op.K {
	case "first":
		return
	case "all":
		v = sr.op.A
	case "limit":
		if sr.op.A > 0 {
			sr.op.A += n
		}
	}
	lead := make([]interface{}, n)
	for i := range lead {
		lead[i] = v
	}
	sr.items = append(lead, sr.items...)
}

type shortRun struct {
	src, op  Op
	items    []interface{}
	answered bool
	sent     int
	ended    bool
	left     int // elements after the answer
	release  chan struct{}
}

func (sr *shortRun) text() string {
	return fmt.Sprintf("%s(%d) on %s source %s", sr.op.K, sr.op.A, []string{"a finite", "an unending", "a stalled"}[sr.src.A], etexts(sr.items))
}

// determined tells whether the listed elements settle the outcome without an end of the source.
func (sr *shortRun) determined() bool {
	switch sr.op.K {
	case "any", "all":
		for _, x := range sr.items {
			if (ekey(x) == sr.op.A) == (sr.op.K == "any") {
				return true
			}
		}
		return false
	case "first":
		return len(sr.items) > 0
	case "limit":
		return len(sr.items) >= sr.op.A
	}
	return false
}

func runShort(p *Plan) {
	wearStream(p, "lost")
	var all []*shortRun
	for _, c := range p.C {
		sr := &shortRun{release: make(chan struct{}), left: p.Get("left", 8, 100000)}
		for _, op := range c {
			switch op.K {
			case "src":
				sr.src = op
			case "el":
				sr.items = append(sr.items, elems([]int{op.A})[0])
			default:
				sr.op = op
			}
		}
		sr.addLead(p.Get("lead", 0, 100000))
		if sr.src.A < 0 || sr.src.A > 2 || !sr.determined() {
			sr.src.A = 0
		}
		all = append(all, sr)
	}
	left := Parallel(len(all), func(i int) { all[i].run() })
	if len(left) > 0 {
		Failf("stuck", "no answer: %s; blocked: %s", all[left[0]].text(), BlockedText())
	}
	core.WaitQuiet()
	for _, sr := range all {
		if sr.src.A == 2 {
			close(sr.release)
		}
	}
	core.WaitQuiet()
	for _, sr := range all {
		if !sr.ended {
			Failf("producer-blocked", "%s: the producer is left blocked after %d elements; blocked: %s", sr.text(), sr.sent, BlockedText())
		}
	}
	NoLeak("leak")
}

func (sr *shortRun) produce(ch chan<- interface{}) {
	for i, x := range sr.items {
		pause(sr.src.B, i)
		ch <- x
		sr.sent++
	}
	switch sr.src.A {
	case 1:
		for i := 0; !sr.answered; i++ {
			if i%5 == 4 {
				time.Sleep(time.Millisecond) // everything else gets its turn
			}
			if i > 200 {
				Failf("no-answer", "%s: no answer although the outcome is settled and %d more elements were consumed", sr.text(), i)
			}
			ch <- 100 + i
			sr.sent++
		}
	case 2:
		core.Count("fault.stalled_source")
		<-sr.release
	}
	if sr.src.A != 0 {
		for i := 0; i < sr.left; i++ {
			ch <- 100 + i
			sr.sent++
		}
	}
	sr.ended = true
}

func (sr *shortRun) run() {
	var s *xstream.Stream
	if sr.op.B == 0 {
		s = xstream.From(func(ch chan<- interface{}) { sr.produce(ch) })
	} else {
		ch := make(chan interface{}, sr.src.C)
		go func() {
			sr.produce(ch)
			close(ch)
		}()
		s = xstream.Range(ch)
		switch sr.op.B {
		case 2:
			s = s.Buffer(sr.src.C)
		case 3:
			s = s.Map(func(x interface{}) interface{} { return x })
		case 4:
			s = s.Filter(func(x interface{}) bool { return true })
		case 5:
			s = s.Skip(0).Peek(func(x interface{}) {})
		case 6:
			s = xstream.Concat(s, xstream.Empty())
		case 7:
			s = s.Copy(map[string]int{"only": sr.src.C})["only"]
		}
	}
	op := sr.op
	items := sr.items
	i := 0
	slow := func() {
		pause(op.C, i)
		i++
	}
	hit := -1
	for j, x := range items {
		if ekey(x) == op.A {
			hit = j
			break
		}
	}
	miss := -1
	for j, x := range items {
		if ekey(x) != op.A {
			miss = j
			break
		}
	}
	wrong := func(got interface{}) { Failf("answer", "%s answered %v", sr.text(), got) }
	switch op.K {
	case "any":
		got := s.AnyMach(func(x interface{}) bool { slow(); return ekey(x) == op.A })
		if got != (hit >= 0) {
			wrong(got)
		}
	case "all":
		got := s.AllMach(func(x interface{}) bool { slow(); return ekey(x) == op.A })
		if got != (miss < 0) {
			wrong(got)
		}
	case "first":
		got, err := s.FindFirst()
		if len(items) == 0 {
			if err != xstream.ErrNoElement || got != nil {
				wrong(fmt.Sprint(got, err))
			}
		} else if err != nil || !esame(got, items[0]) {
			wrong(fmt.Sprint(got, err))
		}
	case "last":
		got, err := s.FindLast()
		if len(items) == 0 {
			if err != xstream.ErrNoElement || got != nil {
				wrong(fmt.Sprint(got, err))
			}
		} else if err != nil || !esame(got, items[len(items)-1]) {
			wrong(fmt.Sprint(got, err))
		}
	case "count":
		if got := s.Count(); got != len(items) {
			wrong(got)
		}
	case "foreach":
		var got []interface{}
		s.Foreach(func(x interface{}) { slow(); got = append(got, x) })
		if !esames(got, items) {
			wrong(etexts(got))
		}
	case "ordered":
		var got []interface{}
		s.ForeachOrdered(func(x interface{}) { slow(); got = append(got, x) })
		for j, x := range got {
			if len(got) != len(items) || !esame(x, items[len(items)-1-j]) {
				wrong(etexts(got))
			}
		}
		if len(got) != len(items) {
			wrong(etexts(got))
		}
	case "done":
		s.Done()
		if sr.src.A == 0 && sr.sent != len(items) {
			Failf("answer", "%s returned before the source ended", sr.text())
		}
	default: // limit
		l := s.Limit(op.A)
		if op.C == 1 {
			l = l.Buffer(1)
		}
		got := collect(l.Chan(), op.C)
		n := op.A
		if n > len(items) {
			n = len(items)
		}
		if !esames(got, items[:n]) {
			wrong(etexts(got))
		}
	}
	sr.answered = true
}

// ---------------------------------------------------------------- C30

// "src" (A: kind, B: pace), "el", then "copy" operations (A: buffer size, B: consumer pace,
// C: consumer kind).
func genCopy(r *R) *Plan {
	p := NewPlan()
	c := []Op{{K: "src", A: r.N(6), B: r.Pick(0, 0, 1, 2)}}
	max := 8
	if r.P(1, 10) {
		max = 60
	}
	n := r.Small(r.Many(max))
	for k := n; k > 0; k-- {
		c = append(c, Op{K: "el", A: r.In(-1, 9)})
	}
	nc := r.In(1, 4)
	if n < 20 && r.P(1, 100) {
		nc = r.Pick(9, 17, 40, 70, 130)
	}
	for k := nc; k > 0; k-- {
		c = append(c, Op{K: "copy", A: r.Pick(0, 0, 1, 2, 5, n, n+3), B: r.Pick(0, 0, 1, 2), C: r.N(5)})
	}
	p.C = append(p.C, c)
	p.P["late"] = r.B() // copies big enough to hold everything are read one after another
	p.P["join"] = r.N(4)
	return p
}

func runCopy(p *Plan) {
	if len(p.C) == 0 {
		return
	}
	wearStream(p, "lost")
	var items []interface{}
	src := Op{}
	var cp []Op
	for _, op := range p.C[0] {
		switch op.K {
		case "src":
			src = op
		case "el":
			items = append(items, elems([]int{op.A})[0])
		case "copy":
			cp = append(cp, op)
		}
	}
	if len(cp) == 0 {
		return
	}
	join := p.Get("join", 0, 3) == 1
	late := p.On("late")
	param := map[string]int{}
	for i, op := range cp {
		n := op.A
		if n < 0 {
			n = 0
		}
		if late && n < len(items) && i < len(cp)-1 {
			n = len(items)
		}
		param[fmt.Sprint("copy", i)] = n
	}
	streams := source(src.A, src.B, items).Copy(param)
	for name := range param { // the caller's own: it may be used for something else
		param[name] = 1000
	}
	param["another"] = 1
	if len(streams) != len(cp) {
		Failf("copies", "%d copies were asked for, %d returned", len(cp), len(streams))
	}
	var ss []*xstream.Stream
	for i := range cp {
		s := streams[fmt.Sprint("copy", i)]
		if s == nil {
			Failf("copies", "copy%d is missing", i)
		}
		ss = append(ss, s)
	}
	check := func(i int, got []interface{}) {
		if !esames(got, items) {
			Failf("copy", "copy%d (buffer %d) of %d delivered %s instead of %s", i, cp[i].A, len(cp), etexts(got), etexts(items))
		}
	}
	switch {
	case join:
		MustFinish("stuck", 1, func(int) {
			got := consume(xstream.Concat(ss[0], ss[1:]...), cp[0].C, cp[0].B)
			want := []interface{}{}
			for range cp {
				want = append(want, items...)
			}
			if !esames(ebag(got), ebag(want)) {
				Failf("copy", "the joined copies delivered %s instead of %s", etexts(ebag(got)), etexts(ebag(want)))
			}
		})
	case late:
		// All but the last copy hold the whole source: the last is read first, the others later.
		MustFinish("stuck", 1, func(int) {
			for i := len(cp) - 1; i >= 0; i-- {
				check(i, consume(ss[i], cp[i].C, cp[i].B))
			}
		})
	default:
		MustFinish("stuck", len(cp), func(i int) { check(i, consume(ss[i], cp[i].C, cp[i].B)) })
	}
	core.WaitQuiet()
	NoLeak("leak")
}

// Clients are the joined streams: "src" (A: kind, B: pace, C: 1 stalls before its end), "el".
func genConcat(r *R) *Plan {
	p := NewPlan()
	n := r.Pick(1, 2, 2, 3, 4)
	if r.P(1, 100) {
		n = r.Pick(9, 17, 40, 70, 130, 260)
	}
	many := n > 40
	for ; n > 0; n-- {
		c := []Op{{K: "src", A: r.N(6), B: r.Pick(0, 0, 1, 2), C: r.Pick(0, 0, 0, 1)}}
		max := 6
		if r.P(1, 15) {
			max = 50
		}
		if many {
			max = 3
		}
		for k := r.Small(r.Many(max)); k > 0; k-- {
			c = append(c, Op{K: "el"})
		}
		p.C = append(p.C, c)
	}
	p.P["method"] = r.B()
	p.P["consumer"] = r.N(5)
	p.P["pace"] = r.Pick(0, 0, 1, 2)
	return p
}

func runConcat(p *Plan) {
	wearStream(p, "lost")
	if len(p.C) == 0 {
		return
	}
	var ss []*xstream.Stream
	var items [][]interface{}
	release := make(chan struct{})
	stalled, total, seen := 0, 0, 0
	for i, c := range p.C {
		src := Op{}
		var v []interface{}
		for _, op := range c {
			if op.K == "src" {
				src = op
			} else {
				v = append(v, i*idBase+len(v))
			}
		}
		items = append(items, v)
		total += len(v)
		if src.C == 1 {
			stalled++
			ss = append(ss, xstream.From(func(ch chan<- interface{}) {
				for j, x := range v {
					if j == len(v)/2 {
						core.Count("fault.stalled_source")
						<-release
					}
					ch <- x
				}
				<-release
			}))
		} else {
			ss = append(ss, source(src.A, src.B, v))
		}
	}
	var s *xstream.Stream
	if p.On("method") {
		s = ss[0].Concat(ss[1:]...)
	} else {
		s = xstream.Concat(ss[0], ss[1:]...)
	}
	var got []interface{}
	done := false
	released := false
	Parallel(1, func(int) {
		i := 0
		for x := range s.Chan() {
			pause(p.Get("pace", 0, 2), i)
			i++
			got = append(got, x)
			seen++
		}
		if stalled > 0 && !released {
			Failf("closed-early", "the joined stream closed although one of its streams has not ended")
		}
		done = true
	})
	released = true
	close(release)
	core.WaitQuiet()
	if !done {
		Failf("stuck", "the joined stream has not closed although all its streams ended; blocked: %s", BlockedText())
	}
	next := make([]int, len(items))
	for _, x := range got {
		v, ok := x.(int)
		if !ok || v/idBase >= len(items) {
			Failf("foreign", "the joined stream delivered %s, which none of its streams delivered", etext(x))
		}
		if k := v / idBase; v%idBase != next[k] {
			Failf("order", "the joined stream delivered element %d of stream %d where %d was due: %s", v%idBase, k, next[k], etexts(got))
		} else {
			next[k]++
		}
	}
	if len(got) != total {
		Failf("lost", "the joined stream delivered %d of %d elements: %s", len(got), total, etexts(got))
	}
	NoLeak("leak")
}

// P: mod, byMap (GroupBy collector), consumer, pace; clients as in genPipe without stages.
func genGroup(r *R) *Plan {
	p := NewPlan()
	for n := r.Pick(1, 1, 2); n > 0; n-- {
		c := []Op{{K: "src", A: r.N(6), B: r.Pick(0, 0, 1, 2), C: r.N(5)}, {K: "group", A: r.In(1, 10), B: r.N(3), C: r.Pick(0, 0, 1, 2)}}
		max := 10
		if r.P(1, 15) {
			max = 60
		}
		hi := 12
		if max = r.Many(max); max > 60 && r.P(1, 2) {
			hi = 1000
			c[1].A = r.Pick(3, 64, 100, 300, 1000)
		}
		for k := r.Small(max); k > 0; k-- {
			c = append(c, Op{K: "el", A: r.In(r.Pick(0, -1, -12), hi)})
		}
		p.C = append(p.C, c)
	}
	return p
}

func runGroup(p *Plan) {
	wearStream(p, "lost")
	MustFinish("stuck", len(p.C), func(c int) {
		src, op := Op{}, Op{A: 2}
		var items []interface{}
		for _, o := range p.C[c] {
			switch o.K {
			case "src":
				src = o
			case "group":
				op = o
			default:
				items = append(items, elems([]int{o.A})[0])
			}
		}
		m := op.A % 6
		if op.A > 10 {
			m = op.A
		}
		if m < 1 {
			m = 1
		}
		key := func(x interface{}) interface{} {
			if x == nil {
				return nil
			}
			if ekey(x)%m == 1 {
				return "one"
			}
			return typedKey(ekey(x), m, op.A > 5)
		}
		i := 0
		slow := func(x interface{}) interface{} {
			pause(op.C, i)
			i++
			return key(x)
		}
		want := map[interface{}][]interface{}{}
		for _, x := range items {
			want[key(x)] = append(want[key(x)], x)
		}
		s := source(src.A, src.B, items)
		got := map[interface{}][]interface{}{}
		if op.B == 0 {
			g := xstream.GroupBy(slow)
			s.Collection(g)
			got = g.Map()
			if again := g.Map(); len(again) != len(got) {
				Failf("groups", "the group collector gave %d groups, then %d", len(got), len(again))
			}
		} else {
			for _, x := range consume(s.Group(slow), src.C, src.B) {
				l, ok := x.([]interface{})
				if !ok || len(l) == 0 {
					Failf("groups", "a group is %s", etext(x))
				}
				k := key(l[0])
				if _, dup := got[k]; dup {
					Failf("groups", "the group of key %v was delivered twice", k)
				}
				got[k] = l
			}
		}
		if len(got) != len(want) {
			Failf("groups", "%d groups instead of %d for %s", len(got), len(want), etexts(items))
		}
		for k, w := range want {
			if !esames(got[k], w) {
				Failf("groups", "the group of key %v is %s instead of %s", k, etexts(got[k]), etexts(w))
			}
		}
		var lists [][]interface{}
		for _, x := range items {
			if k := key(x); got[k] != nil {
				lists = append(lists, got[k])
				delete(got, k)
			}
		}
		ownSlices("groups", lists)
	})
	core.WaitQuiet()
	NoLeak("leak")
}

// ---------------------------------------------------------------- very long streams (C27, C28, C30)

// P: n elements of vals kinds, source, consumer; C[0][0] is what happens to them.
func genMassOf(names ...string) func(r *R) *Plan {
	return func(r *R) *Plan {
		p := NewPlan()
		p.P["n"] = r.Pick(11000, 33000, 33000, 33000, 66000)
		p.P["vals"] = r.Pick(3, 1000, 100003)
		p.P["src"], p.P["consumer"] = r.N(6), r.N(5)
		p.C = append(p.C, []Op{{K: names[r.N(len(names))], A: r.Pick(1, 2, 3, 100, 33000, 66000), B: r.N(5)}})
		switch {
		case names[0] == "parallel" && len(names) > 1: // as many calls at once as elements
			p.C[0][0].K = "parallel"
			p.P["n"] = r.Pick(100, 300, 300, 1030, 1030, 2100)
			p.C[0][0].A = p.P["n"] - r.Pick(0, 0, 1, 20)
			p.P["gate"] = 1
		case len(names) > 5 && r.P(1, 3): // more than twice 65536
			p.P["n"] = 133000
			p.C[0][0] = Op{K: r.PickS("skip", "limit", "tail"), A: r.Pick(66000, 131100, 132000), B: p.C[0][0].B}
		}
		return p
	}
}

func runMassive(p *Plan) {
	if len(p.C) == 0 || len(p.C[0]) == 0 {
		return
	}
	op := p.C[0][0]
	n, vals := p.Get("n", 1, 140000), p.Get("vals", 1, 200000)
	items := make([]interface{}, n)
	for i := range items {
		items[i] = i * 7919 % vals
	}
	kind, consumer := p.Get("src", 0, 5), p.Get("consumer", 0, 4)
	var logs []*peekLog
	MustFinish("stuck", 1, func(int) {
		switch op.K {
		case "copy":
			param := map[string]int{"a": op.A % 5, "b": n}
			ss := source(kind, 0, items).Copy(param)
			for _, name := range []string{"a", "b"} { // b can hold everything while a is read
				if got := consume(ss[name], consumer, 0); !esames(got, items) {
					Failf("copy", "copy %s of %d elements delivered %s", name, n, etexts(got))
				}
			}
		case "concat":
			for i := range items {
				items[i] = i
			}
			got := consume(source(kind, 0, items[:n/2]).Concat(source(1, 0, items[n/2:])), consumer, 0)
			next := [2]int{0, n / 2}
			for _, x := range got {
				i, k := x.(int), 0
				if i >= n/2 {
					k = 1
				}
				if next[k] != i {
					Failf("order", "the joined stream delivered element %d where %d was due", i, next[k])
				}
				next[k]++
			}
			if len(got) != n {
				Failf("lost", "the joined stream delivered %d of %d elements", len(got), n)
			}
		case "group":
			m := op.A
			want := make([][]interface{}, m)
			for _, x := range items {
				want[x.(int)%m] = append(want[x.(int)%m], x)
			}
			groups := 0
			for _, w := range want {
				if len(w) > 0 {
					groups++
				}
			}
			key := func(x interface{}) interface{} { return x.(int) % m }
			s := source(kind, 0, items)
			got := 0
			look := func(k int, l []interface{}) {
				got++
				if !esames(l, want[k]) {
					Failf("groups", "the group of key %v is %s instead of %s", k, etexts(l), etexts(want[k]))
				}
			}
			if op.B == 0 {
				g := xstream.GroupBy(key)
				s.Collection(g)
				for k, l := range g.Map() {
					look(k.(int), l)
				}
			} else {
				for _, x := range consume(s.Group(key), consumer, 0) {
					l := x.([]interface{})
					look(l[0].(int)%m, l)
				}
			}
			if got != groups {
				Failf("groups", "%d groups instead of %d", got, groups)
			}
		case "parallel":
			calls := make([]int, n)
			sum, wantSum, active, most := 0, 0, 0, 0
			w := op.A % 40
			opened := false
			var gate chan struct{} // opened when as many calls run at once as can
			if p.On("gate") {
				w = op.A
				gate = make(chan struct{})
			}
			for i := range items {
				items[i] = i
				wantSum += 2*i + 1
			}
			f := func(x interface{}) interface{} {
				active++
				if active > most {
					most = active
				}
				calls[x.(int)]++
				if gate != nil && active == w && !opened {
					opened = true
					close(gate)
				}
				if gate != nil {
					<-gate
				}
				if x.(int)%64 == 0 {
					core.Yield()
				}
				active--
				return 2*x.(int) + 1
			}
			s := source(kind, 0, items)
			opt := xstream.WithWorkSize(w)
			if w == 0 {
				w = 1
			}
			var got []interface{}
			switch op.B {
			case 0:
				got = consume(s.Walk(func(x interface{}, pipe chan<- interface{}) { pipe <- f(x) }, opt), consumer, 0)
			case 1:
				got = consume(s.Map(f, opt), consumer, 0)
			case 2:
				got = consume(s.Filter(func(x interface{}) bool { f(x); return true }, opt), consumer, 0)
				for i, x := range got {
					got[i] = 2*x.(int) + 1
				}
			case 3:
				got = consume(s.FlatMap(f, opt), consumer, 0)
			default:
				s.ParallelFinish(func(x interface{}) { f(x) }, opt)
				sum = wantSum
			}
			for i, c := range calls {
				if c != 1 {
					Failf("calls", "element %d of %d was processed %d times", i, n, c)
				}
			}
			for _, x := range got {
				sum += x.(int)
			}
			if sum != wantSum || op.B < 4 && len(got) != n {
				Failf("results", "%d results of %d, sum %d instead of %d", len(got), n, sum, wantSum)
			}
			if most > w {
				Failf("too-many", "%d calls at once with %d workers", most, w)
			}
		default:
			s, want := apply(source(kind, 0, items), items, op, &logs)
			if got := consume(s, consumer, 0); !esames(got, want) {
				Failf("sequence", "%s of %d elements delivered %s instead of %s", op.K, n, etexts(got), etexts(want))
			}
		}
	})
	core.WaitQuiet()
	for _, l := range logs {
		if !esames(l.got, l.want) {
			Failf("peek", "the peek action was performed on %s instead of %s", etexts(l.got), etexts(l.want))
		}
	}
	NoLeak("leak")
}

// ---------------------------------------------------------------- C31

// P: kind (0 generator, 1 distinct, 2 peek, 3.. per-element stages), and the panics as V["boom"].
func genBoom(r *R) *Plan {
	p := genPar(r)
	p.C = p.C[:1]
	c := p.C[0]
	c[1].K = "stage"
	if len(c) > 2 && c[2].K == "stage" {
		p.C[0] = append(c[:2:2], c[3:]...)
	}
	p.P["kind"] = r.Pick(0, 1, 2, 2, 3, 3, 3, 3)
	p.P["before"] = r.N(3)
	var boom []int
	for k := r.In(1, 5); k > 0; k-- {
		boom = append(boom, r.Small(12))
	}
	if r.P(1, 6) {
		boom = Ints(40)
	}
	if r.P(1, 15) {
		boom = Ints(1100)
	}
	p.P["rounds"] = r.Pick(1, 1, 1, 1, 2, 3)
	if r.P(1, 40) && len(p.C[0]) < 15 {
		p.P["rounds"] = r.Pick(20, 70, 130, 130, 300)
	}
	p.V["boom"] = boom
	return p
}

func runBoom(p *Plan) {
	if len(p.C) == 0 {
		return
	}
	wearStream(p, "lost")
	boom := map[int]bool{}
	for _, i := range p.V["boom"] {
		boom[i] = true
	}
	round := func() {
		kind := p.Get("kind", 0, 3)
		src, st := parStages(p.C[0])
		ps := st[0]
		pace := (src.B + src.C) % 3
		if kind < 3 {
			items, _ := parInput(p.C[0], false)
			if kind == 1 {
				for i := range items {
					items[i] = i % 4
				}
			}
			n := 0
			at := func() bool {
				n++
				if boom[n-1] {
					core.Count("fault.callback_panic")
				}
				return boom[n-1]
			}
			var s *xstream.Stream
			switch kind {
			case 0:
				s = xstream.From(func(ch chan<- interface{}) {
					for _, x := range items {
						if at() {
							raise(src.C + n)
						}
						ch <- x
					}
				})
			case 1:
				s = source(src.A, src.B, items).Distinct(func(x interface{}) interface{} {
					if at() {
						if src.C%2 == 0 {
							return []int{1} // a key that cannot be compared makes the stage itself panic
						}
						raise(src.C + n)
					}
					return x
				})
			default:
				s = source(src.A, src.B, items).Peek(func(x interface{}) {
					core.Yield()
					if at() {
						raise(src.C + n)
					}
				})
			}
			got := consume(s, src.C, pace)
			if kind == 1 {
				var w []interface{}
				for i, x := range items {
					if i < 4 {
						w = append(w, x)
					}
				}
				items = w
			}
			legit := func() bool {
				if kind == 1 { // distinct elements of the source, in order
					j := 0
					for _, x := range got {
						for j < len(items) && !esame(items[j], x) {
							j++
						}
						if j == len(items) {
							return false
						}
						j++
					}
					return true
				}
				return len(got) <= len(items) && esames(got, items[:len(got)])
			}
			if !legit() {
				Failf("illegitimate", "after the panic, %s was delivered from %s", etexts(got), etexts(items))
			}
			return
		}
		items, calls := parInput(p.C[0], ps.op.B == 3)
		ps.calls = make([]int, calls)
		ps.n = calls
		ps.before = p.Get("before", 0, 2)
		ps.panicsAt = func(i int) bool { return boom[i] }
		must, may := []interface{}{}, []interface{}{}
		for _, x := range items {
			if l, ok := x.([]interface{}); ok {
				lost := false
				for _, y := range l {
					if boom[y.(int)] {
						lost = true
					}
				}
				for _, y := range l {
					if lost {
						may = append(may, ps.out(y.(int), y)...)
					} else {
						must = append(must, ps.out(y.(int), y)...)
					}
				}
				continue
			}
			if boom[x.(int)] {
				may = append(may, ps.out(x.(int), x)...)
			} else {
				must = append(must, ps.out(x.(int), x)...)
			}
		}
		s := ps.add(source(src.A, src.B, items))
		var got []interface{}
		if s != nil {
			got = consume(s, src.C, pace)
		}
		if ps.active != 0 {
			Failf("closed-early", "%s closed or returned while %d calls are running", ps.name, ps.active)
		}
		ps.closed = true
		for _, x := range items {
			if l, ok := x.([]interface{}); ok {
				// a panic ends the work on its own slice only
				for _, y := range l {
					if boom[y.(int)] {
						break
					}
					if ps.calls[y.(int)] != 1 {
						Failf("not-called", "%s: element %v was processed %d times", ps.name, y, ps.calls[y.(int)])
					}
				}
			} else if ps.calls[x.(int)] != 1 {
				Failf("not-called", "%s: element %v was processed %d times", ps.name, x, ps.calls[x.(int)])
			}
		}
		left := map[int]int{}
		for _, x := range got {
			v, _ := x.(int)
			left[v]++
		}
		for _, x := range must {
			if left[x.(int)] == 0 {
				Failf("lost", "%s: the result %v is missing although its call did not panic: %s", ps.name, x, etexts(got))
			}
			left[x.(int)]--
		}
		for _, x := range may {
			if left[x.(int)] > 0 {
				left[x.(int)]--
			}
		}
		for v, n := range left {
			if n > 0 {
				Failf("illegitimate", "%s: %d was delivered %d times too often: %s", ps.name, v, n, etexts(got))
			}
		}
	}
	MustFinish("stuck", 1, func(int) {
		for k := p.Get("rounds", 1, 1000); k > 0; k-- {
			round()
		}
	})
	// the machinery shared by all streams still works
	MustFinish("stuck-after", 1, func(int) {
		got := consume(xstream.Of(1, 2, 3).Map(mapped, xstream.WithWorkSize(2)).Sort(eless), 0, 0)
		if !esames(got, []interface{}{mapped(1), mapped(2), mapped(3)}) {
			Failf("after", "after the panic another pipeline delivered %s", etexts(got))
		}
	})
}

// ---------------------------------------------------------------- C32

// Operations of the first client, in order: "stall" (A: how many, B: kind) creates stalled
// pipelines; "nest" (A: depth, B: workers, C: elements) runs nested pipelines; "burst" (A: how
// many, B: kind) runs pipelines at once; "idle" (A: ms) lets time pass.
func genCrowd(r *R) *Plan {
	p := NewPlan()
	var c []Op
	for k := r.In(2, 7); k > 0; k-- {
		switch r.N(5) {
		case 0, 1:
			n := r.In(1, 20)
			if r.P(1, 20) {
				n = r.Pick(70, 130, 300)
			}
			c = append(c, Op{K: "stall", A: n, B: r.N(3 * len(crowdStages))})
		case 2:
			if r.P(1, 2) {
				c = append(c, Op{K: "inside", A: r.N(len(crowdStages)), B: r.N(5 + 2*len(crowdStages))})
				break
			}
			c = append(c, Op{K: "nest", A: r.In(1, 3), B: r.In(0, 3), C: r.In(1, 3)})
		case 3:
			c = append(c, Op{K: "burst", A: r.In(1, 5), B: r.N(5 + 2*len(crowdStages))})
		default:
			c = append(c, Op{K: "idle", A: r.Pick(1, 300, 999, 1000, 1001, 1500, 3500)})
		}
	}
	c = append(c, Op{K: "burst", A: r.In(1, 3), B: r.N(5 + 2*len(crowdStages))})
	p.C = [][]Op{c}
	return p
}

// genMass makes one crowd of stalled pipelines much larger than any plausible worker limit.
func genMass(r *R) *Plan {
	p := NewPlan()
	n := r.Pick(600, 1100, 2100)
	if r.Tier == "thorough" && !r.Race {
		n = r.Pick(600, 2100, 4200, 11000)
	}
	stall := Op{K: "stall", A: n, B: r.N(3 * len(crowdStages))}
	if r.P(1, 2) {
		stall = Op{K: "wide", A: r.Pick(3000, 6000), B: r.N(3)}
		if r.P(1, 2) && !r.Race {
			stall.A = 11000
		}
		if r.Tier == "thorough" && r.P(1, 2) && !r.Race {
			stall.A = r.Pick(22000, 36000, 70000)
		}
	}
	p.C = [][]Op{{stall, {K: "burst", A: 2, B: r.N(5 + 2*len(crowdStages))}}}
	return p
}

func runCrowd(p *Plan) {
	if len(p.C) == 0 {
		return
	}
	wearStream(p, "lost")
	release := make(chan struct{})
	healthy := 0
	var ends []func() // what is done with the stalled pipelines at the end
	MustFinish("stuck", 1, func(int) {
		for _, op := range p.C[0] {
			switch op.K {
			case "stall":
				for i := 0; i < op.A; i++ {
					ends = append(ends, stall(op.B+i*(i%2), i, release))
				}
			case "wide":
				ends = append(ends, wide(op.B, op.A, release))
				time.Sleep(time.Millisecond) // all of it starts
			case "inside": // the user functions of one stage run pipelines with another one
				st := crowdStages[op.A%len(crowdStages)]
				if n := st.make(xstream.Of(1, 2, 3, 4), func() { work(op.B, 1) }).Count(); n != st.want {
					Failf("answer", "a pipeline with %s, in whose functions others run, delivered %d elements instead of %d", st.name, n, st.want)
				}
			case "nest":
				got := nest(op.A, op.B, op.C)
				want := 1
				for d := 0; d < op.A; d++ {
					want *= op.C
				}
				if got != want {
					Failf("answer", "a pipeline nested %d deep counted %d instead of %d", op.A, got, want)
				}
			case "burst":
				done := make(chan struct{}, op.A)
				for i := 0; i < op.A; i++ {
					i := i
					go func() {
						work(op.B+i, i)
						done <- struct{}{}
					}()
				}
				for i := 0; i < op.A; i++ {
					<-done
				}
				healthy += op.A
			case "idle":
				time.Sleep(time.Duration(op.A) * time.Millisecond)
			}
		}
		// once the stalled consumers move again, their pipelines finish too
		close(release)
		done := make(chan struct{}, len(ends))
		for _, f := range ends {
			f := f
			go func() {
				f()
				done <- struct{}{}
			}()
		}
		for range ends {
			<-done
		}
	})
	core.WaitQuiet()
	NoLeak("leak")
}

// A crowdStage is one stage over the elements 1 to 4; hook is called in its user functions.
type crowdStage struct {
	name string
	want int
	make func(s *xstream.Stream, hook func()) *xstream.Stream
}

// a terminal operation as a stage: its answer is turned into as many elements
func answerStage(name string, want int, f func(s *xstream.Stream, hook func()) int) crowdStage {
	return crowdStage{name, want, func(s *xstream.Stream, hook func()) *xstream.Stream {
		return xstream.Of(make([]interface{}, f(s, hook))...)
	}}
}

var crowdStages = []crowdStage{
	{"map", 4, func(s *xstream.Stream, hook func()) *xstream.Stream {
		return s.Map(func(x interface{}) interface{} { hook(); return x })
	}},
	{"filter", 4, func(s *xstream.Stream, hook func()) *xstream.Stream {
		return s.Filter(func(x interface{}) bool { hook(); return true })
	}},
	{"walk", 4, func(s *xstream.Stream, hook func()) *xstream.Stream {
		return s.Walk(func(x interface{}, pipe chan<- interface{}) { hook(); pipe <- x }, xstream.WithWorkSize(2))
	}},
	{"flatmap", 4, func(s *xstream.Stream, hook func()) *xstream.Stream {
		return s.FlatMap(func(x interface{}) interface{} { hook(); return x }, xstream.WithWorkSize(3))
	}},
	{"peek", 4, func(s *xstream.Stream, hook func()) *xstream.Stream {
		return s.Peek(func(interface{}) { hook() })
	}},
	{"distinct", 4, func(s *xstream.Stream, hook func()) *xstream.Stream {
		return s.Distinct(func(x interface{}) interface{} { hook(); return x })
	}},
	{"buffer", 4, func(s *xstream.Stream, hook func()) *xstream.Stream { return s.Buffer(2) }},
	{"split", 2, func(s *xstream.Stream, hook func()) *xstream.Stream { return s.Split(2) }},
	{"splitstream", 2, func(s *xstream.Stream, hook func()) *xstream.Stream { return s.SplitSteam(2) }},
	{"sort", 4, func(s *xstream.Stream, hook func()) *xstream.Stream {
		return s.Sort(func(a, b interface{}) bool { hook(); return a.(int) < b.(int) })
	}},
	{"reverse", 4, func(s *xstream.Stream, hook func()) *xstream.Stream { return s.Reverse() }},
	{"tail", 3, func(s *xstream.Stream, hook func()) *xstream.Stream { return s.Tail(3) }},
	{"skip", 3, func(s *xstream.Stream, hook func()) *xstream.Stream { return s.Skip(1) }},
	{"limit", 2, func(s *xstream.Stream, hook func()) *xstream.Stream { return s.Limit(2) }},
	{"merge", 1, func(s *xstream.Stream, hook func()) *xstream.Stream { return s.Merge() }},
	{"group", 2, func(s *xstream.Stream, hook func()) *xstream.Stream {
		return s.Group(func(x interface{}) interface{} { hook(); return x.(int) % 2 })
	}},
	{"concat", 5, func(s *xstream.Stream, hook func()) *xstream.Stream { return s.Concat(xstream.Of(9)) }},
	{"copy", 8, func(s *xstream.Stream, hook func()) *xstream.Stream {
		m := s.Copy(map[string]int{"a": 0, "b": 4})
		return m["a"].Concat(m["b"])
	}},
	answerStage("count", 4, func(s *xstream.Stream, hook func()) int { return s.Count() }),
	answerStage("foreach", 4, func(s *xstream.Stream, hook func()) (n int) {
		s.Foreach(func(interface{}) { hook(); n++ })
		return
	}),
	answerStage("foreachordered", 4, func(s *xstream.Stream, hook func()) (n int) {
		s.ForeachOrdered(func(interface{}) { hook(); n++ })
		return
	}),
	answerStage("last", 4, func(s *xstream.Stream, hook func()) int { x, _ := s.FindLast(); return x.(int) }),
	answerStage("first", 1, func(s *xstream.Stream, hook func()) int { x, _ := s.FindFirst(); return x.(int) }),
	answerStage("done", 3, func(s *xstream.Stream, hook func()) int { s.Done(); return 3 }),
	answerStage("any", 2, func(s *xstream.Stream, hook func()) int {
		if s.AnyMach(func(x interface{}) bool { hook(); return x == 3 }) {
			return 2
		}
		return 0
	}),
	answerStage("all", 2, func(s *xstream.Stream, hook func()) int {
		if s.AllMach(func(x interface{}) bool { hook(); return x != 9 }) {
			return 2
		}
		return 0
	}),
	answerStage("parallel", 3, func(s *xstream.Stream, hook func()) int {
		s.ParallelFinish(func(interface{}) { hook() }, xstream.WithWorkSize(2))
		return 3
	}),
	{"wide map", 4, func(s *xstream.Stream, hook func()) *xstream.Stream {
		return s.Map(func(x interface{}) interface{} { hook(); return x }, xstream.WithWorkSize(100))
	}},
	{"narrow map", 4, func(s *xstream.Stream, hook func()) *xstream.Stream {
		return s.Map(func(x interface{}) interface{} { hook(); return x }, xstream.WithWorkSize(1))
	}},
	{"no buffer", 4, func(s *xstream.Stream, hook func()) *xstream.Stream { return s.Buffer(0) }},
	{"large buffer", 4, func(s *xstream.Stream, hook func()) *xstream.Stream { return s.Buffer(600) }},
	{"split by one", 4, func(s *xstream.Stream, hook func()) *xstream.Stream { return s.Split(1) }},
	{"large split", 1, func(s *xstream.Stream, hook func()) *xstream.Stream { return s.Split(600) }},
	{"large splitstream", 1, func(s *xstream.Stream, hook func()) *xstream.Stream { return s.SplitSteam(600) }},
	{"short tail", 1, func(s *xstream.Stream, hook func()) *xstream.Stream { return s.Tail(1) }},
	{"long tail", 4, func(s *xstream.Stream, hook func()) *xstream.Stream { return s.Tail(600) }},
	{"limit beyond", 4, func(s *xstream.Stream, hook func()) *xstream.Stream { return s.Limit(600) }},
	{"limit one", 1, func(s *xstream.Stream, hook func()) *xstream.Stream { return s.Limit(1) }},
	{"limit none", 0, func(s *xstream.Stream, hook func()) *xstream.Stream { return s.Limit(0) }},
	{"many copies", 4 * 12, func(s *xstream.Stream, hook func()) *xstream.Stream {
		sizes := map[string]int{}
		for i := 0; i < 12; i++ {
			sizes[fmt.Sprint(i)] = i % 3
		}
		m := s.Copy(sizes)
		var rest []*xstream.Stream
		for i := 1; i < 12; i++ {
			rest = append(rest, m[fmt.Sprint(i)])
		}
		return m["0"].Concat(rest...)
	}},
	{"one copy", 4, func(s *xstream.Stream, hook func()) *xstream.Stream {
		return s.Copy(map[string]int{"only": 100})["only"]
	}},
	{"many in one", 4 + 20, func(s *xstream.Stream, hook func()) *xstream.Stream {
		var rest []*xstream.Stream
		for i := 0; i < 20; i++ {
			rest = append(rest, xstream.Of(i))
		}
		return s.Concat(rest...)
	}},
	{"groups of one", 4, func(s *xstream.Stream, hook func()) *xstream.Stream {
		return s.Group(func(x interface{}) interface{} { hook(); return x })
	}},
	{"long pipeline", 4, func(s *xstream.Stream, hook func()) *xstream.Stream {
		return s.Buffer(1).Skip(0).Peek(func(interface{}) {}).Filter(func(interface{}) bool { return true }, xstream.WithWorkSize(1)).
			Map(func(x interface{}) interface{} { hook(); return x }, xstream.WithWorkSize(2)).Limit(10).Distinct(func(x interface{}) interface{} { return x }).Reverse()
	}},
	answerStage("wide parallel", 3, func(s *xstream.Stream, hook func()) int {
		s.ParallelFinish(func(interface{}) { hook() }, xstream.WithWorkSize(100))
		return 3
	}),
	answerStage("collection", 4, func(s *xstream.Stream, hook func()) (n int) {
		s.Collection(xstream.CollectorFunc(func(c <-chan interface{}) {
			for range c {
				hook()
				n++
			}
		}))
		return
	}),
}

// stall starts a pipeline that cannot progress until release, and returns what finishes it.
func stall(kind, i int, release chan struct{}) func() {
	core.Count("fault.stalled_pipeline")
	st := crowdStages[kind/3%len(crowdStages)]
	check := func(n int) {
		if n != st.want {
			Failf("answer", "a stalled pipeline with %s delivered %d of %d elements after all", st.name, n, st.want)
		}
	}
	if kind%3 == 0 { // nobody reads the result
		s := st.make(xstream.Of(1, 2, 3, 4), func() {})
		return func() { check(s.Count()) }
	}
	src, hook := xstream.Of(1, 2, 3, 4), func() { <-release }
	if kind%3 == 1 { // the source gives nothing
		src, hook = xstream.From(func(ch chan<- interface{}) {
			<-release
			for x := 1; x <= 4; x++ {
				ch <- x
			}
		}), func() {}
	}
	n := make(chan int, 1)
	go func() { n <- st.make(src, hook).Count() }()
	return func() { check(<-n) }
}

// wide stalls one pipeline that has n goroutines at work.
func wide(kind, n int, release chan struct{}) func() {
	core.Count("fault.stalled_wide_pipeline")
	got := make(chan int, 1)
	items := make([]interface{}, n)
	switch kind % 3 {
	case 0: // many silent streams in one
		silent := make(chan interface{})
		rest := make([]*xstream.Stream, n-1)
		for i := range rest {
			rest[i] = xstream.Range(silent)
		}
		s := xstream.Range(silent).Concat(rest...)
		go func() {
			<-release
			close(silent)
		}()
		return func() {
			if k := s.Count(); k != 0 {
				Failf("answer", "%d empty streams in one delivered %d elements", n, k)
			}
		}
	case 1:
		go func() {
			got <- xstream.Of(items...).Map(func(x interface{}) interface{} { <-release; return x }, xstream.WithWorkSize(n)).Count()
		}()
	default:
		go func() {
			k := 0
			xstream.Of(items...).ParallelFinish(func(interface{}) { <-release; core.Atomically(func() { k++ }) }, xstream.WithWorkSize(n))
			got <- k
		}()
	}
	return func() {
		if k := <-got; k != n {
			Failf("answer", "a stalled stage with %d workers handled %d of %d elements after all", n, k, n)
		}
	}
}

func nest(depth, workers, n int) int {
	if depth == 0 {
		return 1
	}
	total := 0
	items := []interface{}{}
	for i := 0; i < n; i++ {
		items = append(items, i)
	}
	for x := range xstream.Of(items...).Map(func(x interface{}) interface{} {
		return nest(depth-1, workers, n)
	}, xstream.WithWorkSize(workers)).Chan() {
		total += x.(int)
	}
	return total
}

func work(kind, i int) {
	if kind >= 5 {
		st := crowdStages[kind%len(crowdStages)]
		if n := st.make(xstream.Of(1, 2, 3, 4), core.Yield).Count(); n != st.want {
			Failf("answer", "a pipeline with %s delivered %d elements instead of %d", st.name, n, st.want)
		}
		return
	}
	items := []interface{}{5, 3, i, 8}
	var got interface{}
	var want interface{}
	switch kind % 5 {
	case 0:
		got, want = xstream.Of(items...).Map(mapped, xstream.WithWorkSize(3)).Count(), 4
	case 1:
		got, want = xstream.Of(items...).Sort(eless).Skip(3).Count(), 1
	case 2:
		got, want = xstream.From(func(ch chan<- interface{}) {
			for _, x := range items {
				ch <- x
			}
		}).Buffer(2).AnyMach(func(x interface{}) bool { return x == 8 }), true
	case 3:
		n := 0
		for _, s := range xstream.Of(items...).Copy(map[string]int{"a": 4, "b": 4}) {
			n += s.Count()
		}
		got, want = n, 8
	default:
		got, want = xstream.Concat(xstream.Of(items...), xstream.Of(items...).Limit(2)).Count(), 6
	}
	if got != want {
		Failf("answer", "pipeline of kind %d answered %v instead of %v", kind%5, got, want)
	}
}

func init() {
	for _, names := range [][]string{append([]string{"C27"}, stageNames...), {"C28", "parallel"}, {"C30", "copy", "concat", "group"}} {
		Register(&Scenario{Prop: names[0], Name: "mass", Weight: 1, Gen: genMassOf(names[1:]...), Run: runMassive, Cfg: func(r *R, p *Plan, c *core.Config) { c.MaxSteps = 6000000; c.Stall = 0; c.TimerEarly = 0 }})
	}
	Register(worn(200, 100, &Scenario{Prop: "C27", Name: "pipeline", Weight: 3000, Gen: genPipe, Run: runPipe}))
	Register(&Scenario{Prop: "C28", Name: "wide", Weight: 20, Gen: genMassOf("parallel", "wide"), Run: runMassive, Cfg: func(r *R, p *Plan, c *core.Config) { c.MaxSteps = 6000000 }})
	Register(worn(200, 100, &Scenario{Prop: "C28", Name: "parallel", Weight: 12000, Gen: genPar, Run: runPar}))
	Register(&Scenario{Prop: "C29", Name: "short-circuit", Gen: genShort, Run: runShort, Cfg: func(r *R, p *Plan, c *core.Config) {
		for _, ops := range p.C {
			for _, op := range ops {
				if op.K == "src" && op.A == 1 {
					// an unending source lets everything else run to a standstill by sleeping now
					// and then, which an early timer would undo
					c.TimerEarly = 0
				}
				if p.P["left"] > 1000 || p.P["lead"] > 0 {
					c.MaxSteps = 5000000
				}
			}
		}
	}})
	Register(worn(200, 100, &Scenario{Prop: "C30", Name: "copy", Weight: 10000, Gen: genCopy, Run: runCopy}))
	Register(worn(200, 100, &Scenario{Prop: "C30", Name: "concat", Weight: 10000, Gen: genConcat, Run: runConcat}))
	Register(worn(200, 100, &Scenario{Prop: "C30", Name: "group", Weight: 10000, Gen: genGroup, Run: runGroup}))
	Register(worn(200, 100, &Scenario{Prop: "C31", Name: "panic", Gen: genBoom, Run: runBoom, Cfg: func(r *R, p *Plan, c *core.Config) { c.MaxSteps *= 1 + p.P["rounds"]/10 }}))
	Register(&Scenario{Prop: "C32", Name: "crowd", Weight: 120, Gen: genCrowd, Run: runCrowd, Cfg: func(r *R, p *Plan, c *core.Config) { c.MaxSteps = 500000 }})
	Register(&Scenario{Prop: "C32", Name: "mass", Weight: 1, Gen: genMass, Run: runCrowd, Cfg: func(r *R, p *Plan, c *core.Config) { c.MaxSteps = 3000000; c.Stall = 0 }})
}
