package main

import (
	"context"
	"errors"
	"fmt"
	"sync"
	"time"

	"github.com/chenquan/go-pkg/xbarrier"
	"github.com/chenquan/go-pkg/xonce"
	"verif.local/vsim/core"
	. "verif.local/vsim/fw"
	"verif.local/vsim/probe"
)

// ---------------------------------------------------------------- C09 write-once value

type onceStruct struct {
	a int
	s []int
}

// dynVal builds value number id of one of many dynamic types; code identifies what it looks like.
func dynVal(ty, id int) (v interface{}, code int) {
	switch ty {
	case 0:
		return id, id
	case 1:
		return fmt.Sprint(id), 1000 + id
	case 2:
		return []int{id}, 2000 + id
	case 3:
		return &onceStruct{a: id}, 3000 + id
	case 4:
		return onceStruct{a: id, s: []int{id}}, 4000 + id
	case 5:
		return errors.New(fmt.Sprint(id)), 5000 + id
	case 6:
		return float64(id), 6000 + id
	case 7:
		return map[int]int{id: id}, 7000 + id
	case 8:
		return (*onceStruct)(nil), 8000
	case 9:
		return false, 9000
	case 10:
		return 0, 9001
	case 11:
		return "", 9002
	default:
		return nil, 9999
	}
}

func dynCode(v interface{}) int {
	switch x := v.(type) {
	case nil:
		return 0
	case int:
		if x == 0 {
			return 9001
		}
		return x
	case string:
		if x == "" {
			return 9002
		}
		n := 0
		fmt.Sscan(x, &n)
		return 1000 + n
	case []int:
		return 2000 + x[0]
	case *onceStruct:
		if x == nil {
			return 8000
		}
		return 3000 + x.a
	case onceStruct:
		return 4000 + x.a
	case error:
		n := 0
		fmt.Sscan(x.Error(), &n)
		return 5000 + n
	case float64:
		return 6000 + int(x)
	case map[int]int:
		for k := range x {
			return 7000 + k
		}
	case bool:
		return 9000
	}
	return -1
}

func onceStep(st interface{}, e *Entry) []interface{} {
	s := st.(int)
	switch e.Op.K {
	case "write":
		if (e.R[0] == 1) != (s == 0) {
			return nil
		}
		if s == 0 {
			s = e.R[1]
		}
	case "read":
		want := s
		if s == 9999 { // a written nil reads as nil
			want = 0
		}
		if e.R[0] != want {
			return nil
		}
	}
	return []interface{}{s}
}

func genOnce(r *R) *Plan {
	p := NewPlan()
	types := r.Pick(1, 3, 13, 13)
	p.P["zero"] = r.B()
	id := 0
	n, kmax := r.In(2, 5), 5
	if r.P(1, 100) {
		n, kmax = r.In(1, 3), 19
	}
	for ; n > 0; n-- {
		var c []Op
		for k := r.In(1, kmax); k > 0; k-- {
			id++
			if r.P(1, 2) {
				c = append(c, Op{K: "write", A: r.N(types), B: r.Pick(id, id, 1)})
			} else {
				c = append(c, Op{K: "read"})
			}
		}
		p.C = append(p.C, c)
	}
	return p
}

func runOnce(p *Plan) {
	v := xonce.NewValue()
	fresh, set := xonce.NewValue(), xonce.NewValue()
	if p.On("zero") {
		v = new(xonce.Value)
		fresh = new(xonce.Value)
	}
	set.Write(777777)
	n := len(p.C)
	h := NewHist(n + 1)
	do := func(i int, op Op) {
		h.Do(i, op, func(e *Entry) {
			if op.K == "read" {
				e.R[0] = dynCode(v.Value())
				return
			}
			x, code := dynVal(op.A, op.B)
			e.R[1] = code
			e.R[0] = toFlag(v.Write(x))
		})
	}
	wearOnce(p, v)
	mobOnce(p)
	MustFinish("stuck", n, func(i int) {
		for _, op := range p.C[i] {
			do(i, op)
		}
	})
	do(n, Op{K: "read"})
	do(n, Op{K: "write", A: 1, B: 500})
	do(n, Op{K: "read"})
	if !Linearizable(Model{Init: 0, Step: onceStep}, h.All()) {
		Failf("write-once", "no order of the operations has exactly the first write succeed and all later reads return it: %s", h)
	}
	if x := set.Value(); x != 777777 {
		Failf("write-once", "another value was written once, with 777777, and is now read as %v", x)
	}
	if x := fresh.Value(); x != nil {
		Failf("write-once", "another value was never written and is now read as %v", x)
	}
	if !fresh.Write(3) || fresh.Value() != 3 {
		Failf("write-once", "the first write of another value failed or was lost")
	}
}

// what the writer prepared before a successful write is visible to a reader of the value
func runOnceVisible(p *Plan) {
	v := xonce.NewValue()
	n := len(p.C)
	MustFinish("stuck", n, func(i int) {
		for _, op := range p.C[i] {
			if op.K == "write" {
				c := &probe.Cell{}
				c.Set(op.B)
				v.Write(c)
				continue
			}
			if x := v.Value(); x != nil {
				if x.(*probe.Cell).Get() == 0 {
					Failf("visibility", "the value was read before its contents were written")
				}
			}
		}
	})
}

// ---------------------------------------------------------------- C10 write-once channel

func genOnceChan(r *R) *Plan {
	p := NewPlan()
	n := r.In(1, 5)
	if m := r.Many(0); m > 0 {
		n = r.In(5, m/4)
	}
	for ; n > 0; n-- {
		var c []Op
		for k := r.In(1, 3); k > 0; k-- {
			c = append(c, Op{K: "write", A: r.Pick(0, 1, 2, 12, 8, r.N(13)), B: r.Pick(len(p.C)*10+k, len(p.C)*10+k, 1), C: r.Small(4)})
		}
		p.C = append(p.C, c)
	}
	for n := r.In(0, 4); n > 0; n-- {
		p.C = append(p.C, []Op{{K: "readers", C: r.Small(6)}})
	}
	return p
}

func runOnceChan(p *Plan) {
	wearOnceChan(p)
	mobChan(p)
	fresh, c, full := xonce.NewChan(), xonce.NewChan(), xonce.NewChan()
	if !full.Write(777777) {
		Failf("write-once", "the only write of another channel failed")
	}
	n := len(p.C)
	won, wrote := 0, 0
	winner := -1
	var got []int
	left := Parallel(n, func(i int) {
		for _, op := range p.C[i] {
			yields(op.C)
			if op.K == "readers" {
				for k := 0; ; k++ {
					v, ok := <-c.Chan()
					if !ok {
						break
					}
					if v == nil {
						got = append(got, 9999)
					} else {
						got = append(got, dynCode(v))
					}
					if k > 3 {
						Failf("delivery", "the channel yields more than one value")
					}
				}
				continue
			}
			v, code := dynVal(op.A, op.B)
			wrote++
			if c.Write(v) {
				won++
				winner = code
			}
		}
	})
	for _, i := range left {
		if len(p.C[i]) > 0 && (p.C[i][0].K != "readers" || wrote > 0) {
			Failf("stuck", "client %d (%s) never finished; blocked: %s", i, p.C[i][0].K, BlockedText())
		}
	}
	if wrote == 0 {
		return
	}
	if won != 1 {
		Failf("write-once", "%d of %d writes succeeded", won, wrote)
	}
	for k := 0; k < 2; k++ {
		select {
		case v, ok := <-c.Chan():
			if ok && v == nil {
				got = append(got, 9999)
			} else if ok {
				got = append(got, dynCode(v))
			} else if k == 0 && len(got) != 1 {
				Failf("delivery", "channel closed after %d values", len(got))
			}
			if k == 1 && ok {
				Failf("delivery", "the channel yields more than one value")
			}
		default:
			Failf("delivery", "after a successful write the channel is neither readable nor closed")
		}
		if k == 0 && len(got) == 0 {
			Failf("delivery", "no value")
		}
	}
	if len(got) != 1 || got[0] != winner {
		Failf("delivery", "readers received %v, the winning write wrote %d", got, winner)
	}
	if c.Write(1) {
		Failf("write-once", "a later write succeeded")
	}
	select {
	case v, ok := <-fresh.Chan():
		Failf("delivery", "another channel, which nobody wrote, gave %v (%v)", v, ok)
	default:
	}
	if !fresh.Write(5) {
		Failf("write-once", "the first write of another channel failed")
	}
	if v := <-full.Chan(); v != 777777 {
		Failf("delivery", "another channel gave %v, 777777 was written", v)
	}
	if v := <-fresh.Chan(); v != 5 {
		Failf("delivery", "another channel gave %v, 5 was written", v)
	}
}

// ---------------------------------------------------------------- contexts used by several scenarios

type ctxPlan struct {
	ctx    context.Context
	cancel context.CancelFunc
	kind   int
	base   context.Context
}

type customCtx struct {
	context.Context
	done chan struct{}
	err  error
}

func (c *customCtx) Done() <-chan struct{} { return c.done }
func (c *customCtx) Err() error            { return c.err }

var errCustomCtx = errors.New("custom context ended")

// farCtx is a cancellable context with a deadline so far away that no timer is needed.
type farCtx struct {
	context.Context
	at time.Time
}

func (c *farCtx) Deadline() (time.Time, bool) { return c.at, true }

const lastCtxKind = 9

// cancellable says whether a context kind ends when its cancel function is called.
func cancellable(kind int) bool {
	return kind == 1 || kind == 2 || kind >= 6
}

// ctx kinds: 0 background, 1 cancel, 2 child of a cancelled parent later, 3 timeout (B ms),
// 4 cancelled already, 5 deadline in the past, 6 value child of a cancel context, 7 cancel with a
// far deadline, 8 a foreign implementation with its own error, 9 cancel with a cause.
func makeCtx(kind, ms int) *ctxPlan {
	c := &ctxPlan{kind: kind, cancel: func() {}}
	switch kind {
	case 1:
		c.ctx, c.cancel = context.WithCancel(context.Background())
	case 2:
		p, cancel := context.WithCancel(context.Background())
		c.ctx, _ = context.WithTimeout(p, 20*time.Second)
		c.cancel = cancel
	case 3:
		c.ctx, c.cancel = context.WithTimeout(context.Background(), time.Duration(ms)*time.Millisecond)
	case 4:
		c.ctx, c.cancel = context.WithCancel(context.Background())
		c.cancel()
	case 5:
		c.ctx, c.cancel = context.WithDeadline(context.Background(), time.Now().Add(-time.Second))
	case 6:
		p, cancel := context.WithCancel(context.Background())
		c.ctx, c.cancel = context.WithValue(p, "k", 1), cancel
	case 7:
		p, cancel := context.WithCancel(context.Background())
		c.ctx, c.cancel = &farCtx{p, time.Now().Add(1000 * time.Hour)}, cancel
	case 8:
		x := &customCtx{Context: context.Background(), done: make(chan struct{})}
		c.ctx, c.cancel = x, func() {
			core.Atomically(func() {
				if x.err == nil {
					x.err = errCustomCtx
					close(x.done)
				}
			})
		}
	case 9:
		p, cancel := context.WithCancelCause(context.Background())
		c.ctx, c.cancel = p, func() { cancel(errCustomCtx) }
	default:
		c.ctx = context.Background()
	}
	switch kind {
	case 3:
		core.Count("fault.context_deadline")
	case 4, 5:
		core.Count("fault.context_done_at_start")
	}
	inner, once := c.cancel, false
	c.cancel = func() {
		if !once && cancellable(kind) {
			once = true
			core.Count("fault.context_cancel")
		}
		inner()
	}
	return c
}

// naps are mostly short, now and then long (simulated time).
func napMs(r *R, max int) int {
	if r.P(1, 120) {
		return r.Pick(125000, 3700000, 90000000, 2600000000)
	}
	if r.P(1, 25) {
		return r.Pick(120, 1100, 6000, 31000, 65000)
	}
	return r.In(1, max)
}

func nap(op Op) {
	yields(op.A)
	if op.B > 0 {
		time.Sleep(time.Duration(op.B) * time.Millisecond)
	}
}

func genCancel(r *R) []Op {
	o := Op{K: "cancel", A: r.Small(25)}
	if r.P(1, 3) {
		o.B = napMs(r, 6)
	}
	return []Op{o}
}

// ---------------------------------------------------------------- C11 write barrier

func genBarrier(r *R) *Plan {
	p := NewPlan()
	p.P["cap"] = r.Pick(0, 0, 1, 1, 2, 5)
	p.P["ctx"] = r.Pick(0, 1, 1, 1, 1, 2, 3, 3, 4, 5, 6, 7, 8, 9)
	p.P["ms"] = r.In(1, 10)
	if r.P(1, 4) {
		p.P["nil"] = 1 + r.N(3)
	}
	if r.P(1, 3) {
		p.P["each"] = 1
	}
	nw := r.In(1, 3)
	p.P["writers"] = nw
	for i := 0; i < nw; i++ {
		var c []Op
		for k := r.In(1, r.Many(5)); k > 0; k-- {
			o := Op{K: "write", A: r.Small(4)}
			if r.P(1, 4) {
				o.B = napMs(r, 4)
			}
			c = append(c, o)
		}
		p.C = append(p.C, c)
	}
	var c []Op
	max := 12
	for _, x := range p.C {
		if len(x) > 12 {
			max = 3 * len(x)
		}
	}
	for k := r.Small(max); k > 0; k-- {
		o := Op{K: "read", A: r.Small(4)}
		if r.P(1, 4) {
			o.B = napMs(r, 4)
		}
		c = append(c, o)
	}
	p.C = append(p.C, c, genCancel(r))
	return p
}

func runWriteBarrier(p *Plan) {
	if len(p.C) < 3 {
		return
	}
	ch := make(chan interface{}, p.Get("cap", 0, 10))
	cx := makeCtx(p.Get("ctx", 0, lastCtxKind), p.Get("ms", 0, 100))
	ctx := cx.ctx
	// one barrier for all writers, or one for each; and another barrier on another channel
	w := xbarrier.NewWriteBarrier(ctx, ch)
	var ws []*xbarrier.WriteBarrier
	for i := 0; i < len(p.C); i++ {
		if p.On("each") {
			w = xbarrier.NewWriteBarrier(ctx, ch)
		}
		ws = append(ws, w)
	}
	wearWrites(p, w, ch)
	mobWrite(p)
	elsewhere := make(chan interface{}, 1)
	if p.On("each") && !xbarrier.NewWriteBarrier(context.Background(), elsewhere).Write(-7) {
		Failf("write-failed-live", "a write to another channel, which has room, reported false")
	}
	nilWrite := p.Get("nil", 0, 1000) - 1 // the write of this number writes nil
	num := func(v interface{}) int {
		if v == nil {
			return nilWrite
		}
		return v.(int)
	}
	nw := len(p.C) - 2
	cancels := ctx.Done() != nil
	okd := make([][]int, nw)
	bad := make([][]int, nw)
	var got []int
	returned := make([]bool, nw)
	n := len(p.C)
	drained := make(chan struct{})
	left := Parallel(n, func(i int) {
		for j, op := range p.C[i] {
			nap(op)
			switch op.K {
			case "write":
				if i >= nw {
					continue
				}
				id := i*idBase + j
				pre := ctx.Err() != nil
				var v interface{} = id
				if id == nilWrite {
					v = nil
				}
				if ws[i].Write(v) {
					if pre {
						Failf("write-after-done", "a write that started after the context was done reported true")
					}
					okd[i] = append(okd[i], id)
				} else {
					if ctx.Err() == nil {
						Failf("write-failed-live", "a write reported false while the context is live")
					}
					bad[i] = append(bad[i], id)
				}
			case "read":
				select {
				case v := <-ch:
					got = append(got, num(v))
				case <-drained:
					return
				}
			case "cancel":
				cx.cancel()
			}
		}
		if i < nw {
			returned[i] = true
		}
	})
	_ = left
	blocked := 0
	for i := 0; i < nw; i++ {
		if !returned[i] {
			blocked++
		}
	}
	if blocked > 0 && cancels {
		Failf("stuck", "%d writers still blocked although the context is done; blocked: %s", blocked, BlockedText())
	}
	// drain what is in the channel; writers waiting for room under a live context get it
	for {
		done := false
		select {
		case v := <-ch:
			got = append(got, num(v))
		default:
			done = true
		}
		core.WaitQuiet()
		if done {
			select {
			case v := <-ch:
				got = append(got, num(v))
				done = false
				core.WaitQuiet()
			default:
			}
		}
		if done {
			break
		}
	}
	close(drained)
	core.WaitQuiet()
	for i := 0; i < nw; i++ {
		if !returned[i] {
			Failf("stuck", "writer %d never got room although the channel was drained; blocked: %s", i, BlockedText())
		}
	}
	checkDelivery("write-barrier", okd, bad, got)
	if p.On("each") && (len(elsewhere) != 1 || <-elsewhere != -7) {
		Failf("write-barrier", "the only value written to another channel is not there")
	}
	NoLeak("leak")
}

// idBase: value number j of sender i is i*idBase+j.
const idBase = 10000

// checkDelivery: everything accepted is delivered once, nothing refused is, per-sender order holds.
func checkDelivery(class string, okd, refused [][]int, got []int) {
	bad := map[int]bool{}
	for _, r := range refused {
		for _, v := range r {
			bad[v] = true
		}
	}
	cnt := map[int]int{}
	last := map[int]int{}
	for _, v := range got {
		cnt[v]++
		if cnt[v] > 1 {
			Failf(class, "value %d delivered twice", v)
		}
		if bad[v] {
			Failf(class, "value %d was delivered although its write reported false", v)
		}
		if l, ok := last[v/idBase]; ok && l > v {
			Failf(class, "writer %d: value %d delivered after %d", v/idBase, v, l)
		}
		last[v/idBase] = v
	}
	tot := 0
	for _, o := range okd {
		for _, v := range o {
			tot++
			if cnt[v] == 0 {
				Failf(class, "value %d was never delivered although its write reported true", v)
			}
		}
	}
	if tot != len(got) {
		Failf(class, "%d values delivered, %d accepted", len(got), tot)
	}
}

// ---------------------------------------------------------------- C12 read barrier

func genReadBarrier(r *R) *Plan {
	p := NewPlan()
	p.P["cap"] = r.Pick(0, 0, 1, 1, 2, 5)
	p.P["ctx"] = r.Pick(0, 1, 1, 1, 1, 2, 3, 3, 4, 5, 6, 7, 8, 9)
	p.P["ms"] = r.In(1, 10)
	p.P["close"] = r.B()
	p.P["nils"] = r.N(3)
	if r.P(1, 3) {
		p.P["each"] = 1
	}
	np := r.In(1, 2)
	p.P["producers"] = np
	for i := 0; i < np; i++ {
		var c []Op
		for k := r.Small(r.Many(6)); k > 0; k-- {
			o := Op{K: "send", A: r.Small(4)}
			if r.P(1, 4) {
				o.B = napMs(r, 4)
			}
			c = append(c, o)
		}
		p.C = append(p.C, c)
	}
	max := 6
	for _, x := range p.C {
		if len(x) > 6 {
			max = len(x)
		}
	}
	for i := r.In(1, 3); i > 0; i-- {
		var c []Op
		for k := r.In(1, max); k > 0; k-- {
			o := Op{K: "read", A: r.Small(4)}
			if r.P(1, 4) {
				o.B = napMs(r, 4)
			}
			c = append(c, o)
		}
		p.C = append(p.C, c)
	}
	p.C = append(p.C, genCancel(r))
	return p
}

type rbVal struct{ id int }

func runReadBarrier(p *Plan) {
	np := p.Get("producers", 1, 2)
	if len(p.C) < np+1 {
		return
	}
	ch := make(chan interface{}, p.Get("cap", 0, 10))
	cx := makeCtx(p.Get("ctx", 0, lastCtxKind), p.Get("ms", 0, 100))
	ctx := cx.ctx
	// one barrier for all readers, or one for each; and another barrier on another channel
	rb := xbarrier.NewReadBarrier(ctx, ch)
	var rbs []*xbarrier.ReadBarrier
	for i := 0; i < len(p.C); i++ {
		if p.On("each") {
			rb = xbarrier.NewReadBarrier(ctx, ch)
		}
		rbs = append(rbs, rb)
	}
	wearReads(p, rb, ch)
	mobRead(p)
	elsewhere := make(chan interface{}, 2)
	elsewhere <- -7
	elsewhere <- -8
	if p.On("each") {
		if v, ok := xbarrier.NewReadBarrier(context.Background(), elsewhere).Read(); !ok || v != -7 {
			Failf("read-barrier", "a read of another channel, which holds -7, gave %v (%v)", v, ok)
		}
	}
	nils := p.Get("nils", 0, 2) == 1
	n := len(p.C)
	closed := false
	var sent []int
	nilSent, nilGot := 0, 0
	inflight := np
	var mu sync.Mutex
	var all []int
	reading := make([]bool, n)
	stop := make(chan struct{})
	record := func(got *[]int, v interface{}) {
		if v == nil {
			nilGot++
			if !nils {
				Failf("read-barrier", "a read that reported true returned nil, which was never sent")
			}
			return
		}
		id := v.(rbVal).id
		if got != nil {
			for _, o := range *got {
				if o/idBase == id/idBase && o > id {
					Failf("read-barrier", "one reader received %d after %d", id, o)
				}
			}
			*got = append(*got, id)
		}
		all = append(all, id)
	}
	Parallel(n, func(i int) {
		var mine []int
		if i < np {
			defer func() { mu.Lock(); mu.Unlock() }()
		}
		for j, op := range p.C[i] {
			nap(op)
			switch op.K {
			case "send":
				if i >= np {
					continue
				}
				var v interface{} = rbVal{i*idBase + j}
				isNil := nils && j%3 == 1
				if isNil {
					v = nil
				}
				select {
				case ch <- v:
					if isNil {
						nilSent++
					} else {
						sent = append(sent, i*idBase+j)
					}
				case <-stop:
					return
				}
			case "read":
				pre := ctx.Err() != nil
				preClosed := closed && len(ch) == 0
				reading[i] = true
				v, ok := rbs[i].Read()
				reading[i] = false
				if ok {
					if pre {
						Failf("read-after-done", "a read that started after the context was done reported true")
					}
					if preClosed {
						Failf("read-closed", "a read of a closed and empty channel reported true")
					}
					record(&mine, v)
				} else if ctx.Err() == nil && !(closed && len(ch) == 0) {
					Failf("read-failed-live", "a read reported false while the context is live and the channel is open or has values")
				}
			case "cancel":
				cx.cancel()
			}
		}
		if i < np {
			mu.Lock() // orders every send before the close
			inflight--
			mu.Unlock()
			if inflight == 0 && p.On("close") {
				closed = true
				close(ch)
			}
		}
	})
	for i := range reading {
		if reading[i] && (ctx.Err() != nil || closed) {
			Failf("stuck", "reader %d is still blocked although the context is done (%v) or the channel closed (%v); blocked: %s", i, ctx.Err() != nil, closed, BlockedText())
		}
		if reading[i] && len(ch) > 0 {
			Failf("stuck", "reader %d is blocked although the channel holds values", i)
		}
	}
	// what nobody read is still there
	close(stop)
	core.WaitQuiet()
	for {
		more := false
		select {
		case v, ok := <-ch:
			if ok {
				more = true
				record(nil, v)
			}
		default:
		}
		if !more {
			break
		}
	}
	if nilSent != nilGot {
		Failf("read-barrier", "%d nil values sent, %d received", nilSent, nilGot)
	}
	if !EqInts(SortedInts(sent), SortedInts(all)) {
		Failf("read-barrier", "sent %v, received in total %v", sent, all)
	}
	if p.On("each") && (len(elsewhere) != 1 || <-elsewhere != -8) {
		Failf("read-barrier", "the second value of another channel, of which one was read, is not there")
	}
	cx.cancel()
	if !closed {
		if ctx.Done() == nil {
			closed = true
			mu.Lock()
			close(ch)
			mu.Unlock()
		}
		core.WaitQuiet()
		for i := range reading {
			if reading[i] {
				Failf("stuck", "reader %d is still blocked after the context was cancelled; blocked: %s", i, BlockedText())
			}
		}
	}
}

func init() {
	Register(worn(60, 20, mobbed(150, 50, &Scenario{Prop: "C09", Name: "value", Weight: 3, Gen: genOnce, Run: runOnce})))
	Register(&Scenario{Prop: "C09", Name: "visible", Weight: 1, Gen: genOnce, Run: runOnceVisible})
	Register(worn(60, 30, mobbed(150, 60, &Scenario{Prop: "C10", Name: "chan", Gen: genOnceChan, Run: runOnceChan})))
	Register(worn(80, 60, mobbed(150, 60, &Scenario{Prop: "C11", Name: "write-barrier", Gen: genBarrier, Run: runWriteBarrier})))
	Register(worn(80, 60, mobbed(150, 60, &Scenario{Prop: "C12", Name: "read-barrier", Gen: genReadBarrier, Run: runReadBarrier})))
}
