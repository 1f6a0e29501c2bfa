package core

import (
	"fmt"
	"unsafe"
)

type item struct {
	v    interface{}
	sync *byte
}

type waiter struct {
	g   *G
	sel *selState
	idx int
	v   interface{}
	ch  *chanState
	gen int
	s1  *byte // released by the waiter before blocking
	s2  *byte // released by the partner when completing the operation
}

type selState struct {
	gen    int // identifies the current blocking operation
	done   bool
	idx    int
	v      interface{}
	ok     bool
	closed bool
	sync   *byte
}

type chanState struct {
	id        int
	key       unsafe.Pointer
	cap       int
	buf       []item
	slots     []byte // race addresses: k-th receive happens before k+cap-th send
	nsend     int
	nrecv     int
	closed    bool
	closeSync byte
	raceAddr  byte
	recvq     []*waiter
	sendq     []*waiter
}

type chanSlot struct {
	key unsafe.Pointer
	st  *chanState
}

func lookup(p unsafe.Pointer, capacity int) *chanState {
	if w == nil {
		return nil
	}
	if w.chans == nil {
		w.chans = make([]chanSlot, 64)
	}
	mask := len(w.chans) - 1
	h := int((uintptr(p)*0x9E3779B97F4A7C15)>>20) & mask
	for w.chans[h].key != nil {
		if w.chans[h].key == p {
			return w.chans[h].st
		}
		h = (h + 1) & mask
	}
	st := &chanState{id: w.nextChan, key: p, cap: capacity}
	if capacity > 0 && capacity < 1<<16 {
		st.slots = make([]byte, capacity)
	} else {
		st.slots = make([]byte, 1)
	}
	w.nextChan++
	w.chans[h] = chanSlot{p, st}
	w.nchans++
	if w.nchans*2 > len(w.chans) {
		old := w.chans
		w.chans = make([]chanSlot, len(old)*2)
		mask = len(w.chans) - 1
		for i := range old {
			if old[i].key != nil {
				h := int((uintptr(old[i].key)*0x9E3779B97F4A7C15)>>20) & mask
				for w.chans[h].key != nil {
					h = (h + 1) & mask
				}
				w.chans[h] = old[i]
			}
		}
	}
	return st
}

// keySlot is a pointer that has been a key of a map; it stays reachable until the end of the run, so
// that its address means nothing else meanwhile.
type keySlot struct {
	key unsafe.Pointer
	id  int
}

// KeyID numbers pointers in the order in which they are seen here.
func KeyID(p unsafe.Pointer) int {
	if w == nil || p == nil {
		return 0
	}
	if w.keys == nil {
		w.keys = make([]keySlot, 64)
	}
	mask := len(w.keys) - 1
	h := int((uintptr(p)*0x9E3779B97F4A7C15)>>20) & mask
	for w.keys[h].key != nil {
		if w.keys[h].key == p {
			return w.keys[h].id
		}
		h = (h + 1) & mask
	}
	w.nkeys++
	n := w.nkeys
	w.keys[h] = keySlot{p, n}
	if n*2 > len(w.keys) {
		old := w.keys
		w.keys = make([]keySlot, len(old)*2)
		mask = len(w.keys) - 1
		for i := range old {
			if old[i].key != nil {
				h := int((uintptr(old[i].key)*0x9E3779B97F4A7C15)>>20) & mask
				for w.keys[h].key != nil {
					h = (h + 1) & mask
				}
				w.keys[h] = old[i]
			}
		}
	}
	return n
}

// RuntimeError mimics the runtime's plain errors.
type RuntimeError string

func (e RuntimeError) RuntimeError() {}
func (e RuntimeError) Error() string { return string(e) }

func popWaiter(q *[]*waiter) *waiter {
	for {
		n := len(*q)
		if n == 0 {
			return nil
		}
		x := (*q)[0]
		for i := 0; i+1 < n; i++ {
			(*q)[i] = (*q)[i+1]
		}
		(*q)[n-1] = nil
		*q = (*q)[:n-1]
		if x.sel.gen == x.gen && !x.sel.done {
			return x
		}
	}
}

func hasWaiter(q *[]*waiter) bool {
	for _, x := range *q {
		if x.sel.gen == x.gen && !x.sel.done {
			return true
		}
	}
	return false
}

func (c *chanState) slot(n int) unsafe.Pointer {
	return unsafe.Pointer(&c.slots[n%len(c.slots)])
}

func (c *chanState) canSend() bool {
	return c.closed || len(c.buf) < c.cap || hasWaiter(&c.recvq)
}

func (c *chanState) canRecv() bool {
	return len(c.buf) > 0 || c.closed || hasWaiter(&c.sendq)
}

func newSync() *byte { return &new([8]byte)[0] }

// doSend performs a send that is known to be possible.
func (c *chanState) doSend(v interface{}) {
	RaceRead(unsafe.Pointer(&c.raceAddr))
	if c.closed {
		panic(RuntimeError("send on closed channel"))
	}
	if r := popWaiter(&c.recvq); r != nil {
		r.sel.done = true
		r.sel.idx = r.idx
		r.sel.v = v
		r.sel.ok = true
		s := newSync()
		if c.cap == 0 {
			RaceAcquire(unsafe.Pointer(r.s1))
		} else {
			RaceAcquire(c.slot(c.nsend))
		}
		RaceRelease(unsafe.Pointer(s))
		r.sel.sync = s
		r.ch = c
		c.nsend++
		c.nrecv++
		ready(r.g)
		return
	}
	RaceAcquire(c.slot(c.nsend))
	s := newSync()
	RaceRelease(unsafe.Pointer(s))
	c.nsend++
	c.buf = append(c.buf, item{v, s})
}

// doRecv performs a receive that is known to be possible.
func (c *chanState) doRecv() (interface{}, bool) {
	if len(c.buf) > 0 {
		it := c.buf[0]
		n := len(c.buf)
		for i := 0; i+1 < n; i++ {
			c.buf[i] = c.buf[i+1]
		}
		c.buf[n-1] = item{}
		c.buf = c.buf[:n-1]
		RaceAcquire(unsafe.Pointer(it.sync))
		RaceReleaseMerge(c.slot(c.nrecv))
		c.nrecv++
		if s := popWaiter(&c.sendq); s != nil {
			s.sel.done = true
			s.sel.idx = s.idx
			c.buf = append(c.buf, item{s.v, s.s1})
			c.nsend++
			x := newSync()
			RaceRelease(unsafe.Pointer(x))
			s.sel.sync = x
			ready(s.g)
		}
		return it.v, true
	}
	if s := popWaiter(&c.sendq); s != nil {
		s.sel.done = true
		s.sel.idx = s.idx
		RaceAcquire(unsafe.Pointer(s.s1))
		x := newSync()
		RaceRelease(unsafe.Pointer(x))
		s.sel.sync = x
		c.nsend++
		c.nrecv++
		ready(s.g)
		return s.v, true
	}
	RaceAcquire(unsafe.Pointer(&c.closeSync))
	return nil, false
}

func opName(op string, c *chanState) string {
	return fmt.Sprintf("%s ch%d", op, c.id)
}

// ChanSend sends v.
func ChanSend(p unsafe.Pointer, capacity int, v interface{}) {
	yieldKind(yOp)
	if p == nil {
		block("send on nil channel")
		return
	}
	c := lookup(p, capacity)
	if c == nil {
		panic("simulator: channel send outside a run")
	}
	if w.cfg.RecordTrace {
		w.event(opName("send", c))
	}
	if c.canSend() {
		c.doSend(v)
		return
	}
	if w.dying {
		Exit()
	}
	RaceRead(unsafe.Pointer(&c.raceAddr))
	g := w.cur
	g.sel = selState{gen: g.sel.gen + 1}
	s1 := newSync()
	RaceRelease(unsafe.Pointer(s1))
	c.sendq = append(c.sendq, &waiter{g: g, sel: &g.sel, gen: g.sel.gen, v: v, ch: c, s1: s1})
	block("chan send")
	if g.sel.closed {
		RaceAcquire(unsafe.Pointer(&c.closeSync))
		panic(RuntimeError("send on closed channel"))
	}
	RaceAcquire(unsafe.Pointer(g.sel.sync))
}

// ChanRecv receives.
func ChanRecv(p unsafe.Pointer, capacity int) (interface{}, bool) {
	yieldKind(yOp)
	if p == nil {
		block("receive from nil channel")
		return nil, false
	}
	c := lookup(p, capacity)
	if c == nil {
		panic("simulator: channel receive outside a run")
	}
	if w.cfg.RecordTrace {
		w.event(opName("recv", c))
	}
	if c.canRecv() {
		return c.doRecv()
	}
	if w.dying {
		Exit()
	}
	g := w.cur
	g.sel = selState{gen: g.sel.gen + 1}
	s1 := newSync()
	RaceRelease(unsafe.Pointer(s1))
	if c.cap > 0 {
		RaceReleaseMerge(c.slot(c.nrecv))
	}
	c.recvq = append(c.recvq, &waiter{g: g, sel: &g.sel, gen: g.sel.gen, ch: c, s1: s1})
	block("chan receive")
	v := g.sel.v
	ok := g.sel.ok
	g.sel.v = nil
	if g.sel.closed {
		RaceAcquire(unsafe.Pointer(&c.closeSync))
		return nil, false
	}
	RaceAcquire(unsafe.Pointer(g.sel.sync))
	return v, ok
}

// ChanTrySend sends without blocking or yielding (timers).
func ChanTrySend(p unsafe.Pointer, capacity int, v interface{}) bool {
	c := lookup(p, capacity)
	if c == nil || c.closed || !c.canSend() {
		return false
	}
	c.doSend(v)
	return true
}

// ChanDrain discards buffered values (timer stop/reset).
func ChanDrain(p unsafe.Pointer, capacity int) {
	c := lookup(p, capacity)
	if c != nil {
		for i := range c.buf {
			c.buf[i] = item{}
		}
		c.buf = c.buf[:0]
	}
}

// ChanClose closes the channel.
func ChanClose(p unsafe.Pointer, capacity int) {
	yieldKind(yOp)
	if p == nil {
		panic(RuntimeError("close of nil channel"))
	}
	c := lookup(p, capacity)
	if c == nil {
		// package initialiser outside a run; executed again inside every run
		return
	}
	if w.cfg.RecordTrace {
		w.event(opName("close", c))
	}
	if c.closed {
		panic(RuntimeError("close of closed channel"))
	}
	RaceWrite(unsafe.Pointer(&c.raceAddr))
	RaceRelease(unsafe.Pointer(&c.closeSync))
	c.closed = true
	for {
		r := popWaiter(&c.recvq)
		if r == nil {
			break
		}
		r.sel.done = true
		r.sel.idx = r.idx
		r.sel.closed = true
		ready(r.g)
	}
	for {
		s := popWaiter(&c.sendq)
		if s == nil {
			break
		}
		s.sel.done = true
		s.sel.idx = s.idx
		s.sel.closed = true
		ready(s.g)
	}
}

// ChanLen is len(ch).
func ChanLen(p unsafe.Pointer, capacity int) int {
	yieldKind(yOp)
	if p == nil {
		return 0
	}
	c := lookup(p, capacity)
	if c == nil {
		return 0
	}
	return len(c.buf)
}

// SelCase is one case of a select.
type SelCase struct {
	P    unsafe.Pointer
	Cap  int
	Send bool
	V    interface{}
	OK   bool
}

// Select performs a select; -1 means the default case.
func Select(hasDefault bool, cases []*SelCase) int {
	yieldKind(yOp)
	if w == nil {
		panic("simulator: select outside a run")
	}
	var st [8]*chanState
	sts := st[:0]
	nready := 0
	var rd [8]int
	rds := rd[:0]
	for i, cs := range cases {
		if cs.P == nil {
			sts = append(sts, nil)
			continue
		}
		c := lookup(cs.P, cs.Cap)
		sts = append(sts, c)
		if (cs.Send && c.canSend()) || (!cs.Send && c.canRecv()) {
			rds = append(rds, i)
			nready++
		}
	}
	if w.cfg.RecordTrace {
		w.event(fmt.Sprintf("select ready=%v default=%v", rds, hasDefault))
	}
	if nready > 0 {
		i := rds[0]
		if nready > 1 && !w.dying {
			Count("select_ties")
			i = rds[w.decide(kSelect, nready, w.randn(nready))]
		}
		if cases[i].Send {
			sts[i].doSend(cases[i].V)
		} else {
			cases[i].V, cases[i].OK = sts[i].doRecv()
		}
		return i
	}
	if hasDefault {
		return -1
	}
	if w.dying {
		Exit()
	}
	g := w.cur
	g.sel = selState{gen: g.sel.gen + 1}
	s1 := newSync()
	RaceRelease(unsafe.Pointer(s1))
	for i, cs := range cases {
		c := sts[i]
		if c == nil {
			continue
		}
		wt := &waiter{g: g, sel: &g.sel, gen: g.sel.gen, idx: i, v: cs.V, ch: c, s1: s1}
		if cs.Send {
			RaceRead(unsafe.Pointer(&c.raceAddr))
			c.sendq = append(c.sendq, wt)
		} else {
			if c.cap > 0 {
				RaceReleaseMerge(c.slot(c.nrecv))
			}
			c.recvq = append(c.recvq, wt)
		}
	}
	block("select")
	i := g.sel.idx
	c := sts[i]
	gen := g.sel.gen
	_ = gen
	// stale waiters on the other channels are skipped by their generation; drop them so that
	// queues of long-lived channels do not grow
	for k, cs := range cases {
		if sts[k] == nil {
			continue
		}
		if cs.Send {
			dropWaiters(&sts[k].sendq, g)
		} else {
			dropWaiters(&sts[k].recvq, g)
		}
	}
	if g.sel.closed {
		RaceAcquire(unsafe.Pointer(&c.closeSync))
		if cases[i].Send {
			panic(RuntimeError("send on closed channel"))
		}
		cases[i].V, cases[i].OK = nil, false
		return i
	}
	RaceAcquire(unsafe.Pointer(g.sel.sync))
	if !cases[i].Send {
		cases[i].V, cases[i].OK = g.sel.v, g.sel.ok
		g.sel.v = nil
	}
	return i
}

func dropWaiters(q *[]*waiter, g *G) {
	n := len(*q)
	j := 0
	for i := 0; i < n; i++ {
		if (*q)[i].g != g {
			(*q)[j] = (*q)[i]
			j++
		}
	}
	for i := j; i < n; i++ {
		(*q)[i] = nil
	}
	*q = (*q)[:j]
}

// BlockForever is select{}.
func BlockForever() {
	yieldKind(yOp)
	block("select with no cases")
	panic("unreachable")
}

// ChanID names a channel deterministically.
func ChanID(p unsafe.Pointer, capacity int) int {
	c := lookup(p, capacity)
	if c == nil {
		return -1
	}
	return c.id
}
