// Package vs is what rewritten go statements, channel operations, selects and map ranges call.
// It is compiled with race instrumentation; the simulator core is not.
package vs

import (
	"unsafe"

	"verif.local/vsim/core"
)

// Go starts a simulated goroutine.
func Go(site string, f func()) { core.Go(site, f) }

// BlockForever is select{}.
func BlockForever() { core.BlockForever() }

// S is the sending side of a channel.
type S[T any] struct {
	p unsafe.Pointer
	c int
}

// R is the receiving side of a channel.
type R[T any] struct {
	p unsafe.Pointer
	c int
}

// Sc wraps a channel for sending.
func Sc[T any](ch chan<- T) S[T] { return S[T]{*(*unsafe.Pointer)(unsafe.Pointer(&ch)), cap(ch)} }

// Rc wraps a channel for receiving.
func Rc[T any](ch <-chan T) R[T] { return R[T]{*(*unsafe.Pointer)(unsafe.Pointer(&ch)), cap(ch)} }

type box[T any] struct{ v T }

func unbox[T any](v interface{}) (z T) {
	if v == nil {
		return z
	}
	return v.(*box[T]).v
}

// Send is ch <- v.
func (s S[T]) Send(v T) { core.ChanSend(s.p, s.c, &box[T]{v}) }

// Recv is <-ch.
func (r R[T]) Recv() T {
	v, _ := core.ChanRecv(r.p, r.c)
	return unbox[T](v)
}

// Recv2 is v, ok := <-ch.
func (r R[T]) Recv2() (T, bool) {
	v, ok := core.ChanRecv(r.p, r.c)
	return unbox[T](v), ok
}

// Len is len(ch).
func (r R[T]) Len() int { return core.ChanLen(r.p, r.c) }

// LenS is len(ch) of a send-only channel.
func (s S[T]) Len() int { return core.ChanLen(s.p, s.c) }

// Close is close(ch).
func (s S[T]) Close() { core.ChanClose(s.p, s.c) }

// TrySend sends without yielding or blocking; for timers.
func (s S[T]) TrySend(v T) bool { return core.ChanTrySend(s.p, s.c, &box[T]{v}) }

// Case is a select case.
type Case interface{ c() *core.SelCase }

// RCase is a receive case.
type RCase[T any] struct{ sc core.SelCase }

func (r *RCase[T]) c() *core.SelCase { return &r.sc }

// V is the received value.
func (r *RCase[T]) V() T { return unbox[T](r.sc.V) }

// V2 is the received value and whether the channel was open.
func (r *RCase[T]) V2() (T, bool) { return unbox[T](r.sc.V), r.sc.OK }

// SCase is a send case.
type SCase[T any] struct{ sc core.SelCase }

func (s *SCase[T]) c() *core.SelCase { return &s.sc }

// With sets the value to send.
func (s *SCase[T]) With(v T) *SCase[T] {
	s.sc.V = &box[T]{v}
	return s
}

// SelRecv declares a receive case.
func SelRecv[T any](ch <-chan T) *RCase[T] {
	return &RCase[T]{core.SelCase{P: *(*unsafe.Pointer)(unsafe.Pointer(&ch)), Cap: cap(ch)}}
}

// SelSend declares a send case.
func SelSend[T any](ch chan<- T) *SCase[T] {
	return &SCase[T]{core.SelCase{P: *(*unsafe.Pointer)(unsafe.Pointer(&ch)), Cap: cap(ch), Send: true}}
}

// Select performs the select and returns the chosen case, or -1 for default.
func Select(hasDefault bool, cases ...Case) int {
	cs := make([]*core.SelCase, len(cases))
	for i := range cases {
		cs[i] = cases[i].c()
	}
	return core.Select(hasDefault, cs)
}

// Rc2 wraps a channel and declares a variable of its element type.
func Rc2[T any](ch <-chan T) (R[T], T) {
	var z T
	return Rc(ch), z
}

// Zero resets a package variable.
func Zero[T any](p *T) {
	var z T
	*p = z
}
