package main

import (
	"bufio"
	"context"
	"errors"
	"fmt"
	"io"
	"strings"
	"time"

	"github.com/chenquan/go-pkg/xbarrier"
	"github.com/chenquan/go-pkg/xbinary"
	"github.com/chenquan/go-pkg/xbytes"
	"github.com/chenquan/go-pkg/xio"
	"github.com/chenquan/go-pkg/xmapreduce"
	"github.com/chenquan/go-pkg/xonce"
	"github.com/chenquan/go-pkg/xring"
	"github.com/chenquan/go-pkg/xstream"
	"github.com/chenquan/go-pkg/xsync"
	"github.com/chenquan/go-pkg/xtask"
	"github.com/chenquan/go-pkg/xworker"
	"verif.local/vsim/core"
	. "verif.local/vsim/fw"
)

// Wear: in few runs the object, or the package, has been in use for long before the clients start.
// Whatever is counted, filled up or worn out meanwhile is then near its limit, and the clients run
// over it in every possible interleaving. Most of the numbers are a few below a round one.

const maxWear = 70010

// deepEvery of the worn runs is worn as far as a counter of 16 bits.
const deepEvery = 200

// worn makes one run in every of a scenario's start with a worn object; cost bounds the steps of one use.
func worn(every, cost int, s *Scenario) *Scenario {
	gen, cfg := s.Gen, s.Cfg
	s.Gen = func(r *R) *Plan {
		p := gen(r)
		if r.P(1, every) {
			n := r.Pick(20, 32, 64, 64, 100, 100, 128, 128, 200, 256, 256)
			if r.P(1, 3) {
				n = r.Pick(500, 512, 1000, 1000, 1024, 1024)
			}
			if r.P(1, 20) {
				n = r.Pick(2000, 2048, 4096)
			}
			if cost > 100 && n > 1024 {
				n = 1024
			}
			if r.P(1, deepEvery) {
				n = r.Pick(10000, 10000, 16384, 20000, 32768, 50000, 65536, 65536, 70000)
				if cost > 40 && n > 20000 && r.P(2, 3) {
					n = 20000
				}
			}
			p.P["wear"] = n - r.N(8)
			p.P["wearHow"] = r.N(64)
		}
		return p
	}
	s.Cfg = func(r *R, p *Plan, c *core.Config) {
		if cfg != nil {
			cfg(r, p, c)
		}
		c.MaxSteps += p.P["wear"] * cost
		if p.P["wear"] > 5000 { // too many for the framework to be generous with the rest
			c.MaxSteps += p.P["wear"] * (4*cost + 100)
		}
	}
	return s
}

func wear(p *Plan, use func(how, i int)) {
	n := p.Get("wear", 0, maxWear)
	how := p.Get("wearHow", 0, 63)
	for i := 0; i < n; i++ {
		use(how, i)
	}
}

type wearKey int

// wearMap leaves the map as empty as it was.
func wearMap(p *Plan, class string, m mapAPI) {
	sh, sharded := m.(*shardedMap)
	key := func(i int) interface{} { return wearKey(i) }
	if sharded {
		key = func(i int) interface{} { return fmt.Sprint("fill w", i) }
	}
	store := func(k, v interface{}) {
		if sharded {
			sh.m.Store(k.(string), v)
		} else {
			m.Store(k, v)
		}
	}
	load := func(k interface{}) (interface{}, bool) {
		if sharded {
			return sh.m.Load(k.(string))
		}
		return m.Load(k)
	}
	del := func(k interface{}) {
		if sharded {
			sh.m.Delete(k.(string))
		} else {
			m.Delete(k)
		}
	}
	some := []interface{}{}
	wear(p, func(how, i int) {
		k := key(i)
		if how&1 == 1 { // a few keys again and again
			k = key(i % 3)
		}
		switch how / 2 % 8 {
		case 0, 1:
			store(k, i)
			if v, ok := load(k); !ok || v != i {
				Failf(class, "store number %d was lost: %v, %v", i, v, ok)
			}
			if how/16%2 == 1 && i%5 == 0 && !(sharded && i > 2048) {
				m.Range(func(k, v interface{}) bool { return true })
			}
			del(k)
		case 2: // misses
			if i == 0 {
				store(key(-1), 1)
			}
			if v, ok := load(k); ok {
				Failf(class, "key %v, which was never stored, is loaded as %v", k, v)
			}
		case 3: // hits
			if i == 0 {
				store(key(-1), 1)
			}
			if v, ok := load(key(-1)); !ok || v != 1 {
				Failf(class, "load number %d gave %v, %v", i, v, ok)
			}
		case 4: // stored now, deleted later
			store(k, i)
			some = append(some, k)
			if len(some) == 8 {
				for _, k := range some {
					del(k)
				}
				some = some[:0]
			}
		case 5:
			if sharded && i > 2048 { // every shard is cleared every time
				return
			}
			if i%4 == 0 {
				store(k, i)
				m.Range(func(k, v interface{}) bool { return i%8 == 0 })
			}
			m.Clear()
		case 6:
			if sharded {
				sh.m.ComputeIfAbsent(k.(string), func(x string) interface{} { return i })
				sh.m.ComputeIfPresent(k.(string), func(x string, v interface{}) interface{} { return v.(int) + 1 })
			} else {
				m.ComputeIfAbsent(k, func(x interface{}) interface{} { return i })
				m.ComputeIfPresent(k, func(x, v interface{}) interface{} { return v.(int) + 1 })
			}
			if v, ok := load(k); !ok || v != i+1 {
				Failf(class, "computation number %d was lost: %v, %v", i, v, ok)
			}
			del(k)
		case 7: // computations that panic
			Catch(func() {
				if sharded {
					sh.m.ComputeIfAbsent(k.(string), func(x string) interface{} { panic("wear") })
				} else {
					m.ComputeIfAbsent(k, func(x interface{}) interface{} { panic("wear") })
				}
			})
			if _, ok := load(k); ok {
				Failf(class, "a computation that panicked stored something")
			}
			if i%3 == 0 {
				store(k, i)
				del(k)
			}
		}
	})
	if p.Get("wear", 0, maxWear) == 0 {
		return
	}
	for _, k := range some {
		del(k)
	}
	del(key(-1))
	if p.Get("wearHow", 0, 63)/32 == 1 {
		n := 0
		m.Range(func(k, v interface{}) bool { n++; return true })
		if n != 0 {
			Failf(class, "%d keys are left, all of which have been deleted", n)
		}
	}
}

func wearSpin(p *Plan, l *xsync.Spinlock) {
	wear(p, func(how, i int) {
		if how%3 == 0 || how%3 == 1 && i%2 == 0 {
			l.Lock()
		} else if !l.TryLock() {
			Failf("try-lock", "try-lock number %d of a free lock failed", i)
		}
		if how&4 != 0 && l.TryLock() {
			Failf("mutual-exclusion", "try-lock of a held lock succeeded")
		}
		l.Unlock()
	})
}

func wearMgr(p *Plan, m *xsync.ResourceManager) {
	wear(p, func(how, i int) {
		key := fmt.Sprint("worn/", i)
		if how&1 == 1 {
			key = "worn"
		}
		if how&2 != 0 && i%2 == 0 {
			r, err := m.Get(key, func() (io.Closer, error) { return nil, errClosing })
			if r != nil || err == nil {
				Failf("get-result", "get number %d, whose creation failed, returned %v, %v", i, r, err)
			}
			return
		}
		o := &fillRes{id: 1}
		for k := 0; k < 1+how/4%3; k++ {
			r, err := m.Get(key, func() (io.Closer, error) { return o, nil })
			if rr, ok := r.(*fillRes); !ok || rr != o || err != nil {
				Failf("get-result", "get number %d returned %v, %v", i, r, err)
			}
		}
		if !m.Remove(key) || m.Remove(key) {
			Failf("resource-sharing", "removal number %d did not remove what was there, or removed it twice", i)
		}
	})
}

func wearOnce(p *Plan, v *xonce.Value) {
	wear(p, func(how, i int) {
		if how&1 == 1 {
			if x := v.Value(); x != nil {
				Failf("write-once", "read number %d of a value that was never written gave %v", i, x)
			}
		}
		if how&1 == 0 || how&2 != 0 {
			o := xonce.NewValue()
			if !o.Write(i) || o.Write(-i) || o.Value() != i {
				Failf("write-once", "value number %d does not hold its only write", i)
			}
		}
	})
}

func wearOnceChan(p *Plan) {
	wear(p, func(how, i int) {
		c := xonce.NewChan()
		if !c.Write(i) || how&1 == 1 && c.Write(-i) {
			Failf("write-once", "channel number %d did not take exactly the first write", i)
		}
		if x, ok := <-c.Chan(); !ok || x != i {
			Failf("delivery", "channel number %d yields %v, %v", i, x, ok)
		}
	})
}

// wearWrites writes through w to somebody who reads everything.
func wearWrites(p *Plan, w *xbarrier.WriteBarrier, ch chan interface{}) {
	if p.Get("wear", 0, maxWear) == 0 {
		return
	}
	stop, stopped := make(chan struct{}), make(chan struct{})
	var got []interface{}
	go func() {
		defer close(stopped)
		for {
			select {
			case v := <-ch:
				got = append(got, v)
			case <-stop:
				for {
					select {
					case v := <-ch:
						got = append(got, v)
						continue
					default:
					}
					return
				}
			}
		}
	}()
	var sent []interface{}
	wear(p, func(how, i int) {
		if w.Write(-1000 - i) {
			sent = append(sent, -1000-i)
		}
	})
	close(stop)
	<-stopped
	if fmt.Sprint(got) != fmt.Sprint(sent) {
		Failf("lost", "%d writes succeeded, %d values were received, or not in that order", len(sent), len(got))
	}
}

// wearReads reads through b what somebody sends.
func wearReads(p *Plan, b *xbarrier.ReadBarrier, ch chan interface{}) {
	if p.Get("wear", 0, maxWear) == 0 {
		return
	}
	stop, stopped := make(chan struct{}), make(chan struct{})
	n := 0
	go func() {
		defer close(stopped)
		for i := 0; ; i++ {
			select {
			case ch <- -1000 - i:
			case <-stop:
				return
			}
		}
	}()
	wear(p, func(how, i int) {
		v, ok := b.Read()
		if ok && v != -1000-n {
			Failf("read-barrier", "read number %d gave %v instead of %d", n, v, -1000-n)
		}
		if ok {
			n++
		}
	})
	close(stop)
	<-stopped
	for {
		select {
		case <-ch:
			continue
		default:
		}
		return
	}
}

var errWorn = errors.New("worn")

func wearDo(p *Plan) {
	if p.On("early") {
		return // an hour may be over at once
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	wear(p, func(how, i int) {
		runs, cleanups := 0, 0
		kind := how % 4 // nil, error, panic, mixed
		if kind == 3 {
			kind = i % 3
		}
		if kind == 2 && judging("C13") {
			kind = 1
		}
		fn := func() error {
			runs++
			switch kind {
			case 1:
				return errWorn
			case 2:
				panic(errWorn)
			}
			return nil
		}
		var err error
		pv, panicked := Catch(func() {
			switch {
			case judging("C15"):
				err = xtask.DoWithTimeout(time.Hour, fn, func() { cleanups++ })
			case how&4 != 0:
				err = xtask.DoWithoutDefer(ctx, fn)
				cleanups++
			default:
				err = xtask.Do(ctx, fn, func() { cleanups++ })
			}
		})
		if runs != 1 {
			failAs("C13 C15", "outcome", "call number %d has ended and its function ran %d times", i, runs)
		}
		if cleanups != 1 && !(kind == 2 && how&4 != 0) {
			failAs("C14 C15", "cleanup", "the clean-up of call number %d ran %d times", i, cleanups)
		}
		if panicked != (kind == 2) || !panicked && (err != nil) != (kind == 1) {
			failAs(map[bool]string{true: "C14", false: "C13 C15"}[kind == 2], "outcome", "call number %d returned %v, panicked: %v (%v), which its function did not", i, err, panicked, pv)
		}
	})
}

func wearWorker(p *Plan, w *xworker.Worker, size int) {
	background := context.Background()
	done := 0
	wear(p, func(how, i int) {
		ended := make(chan struct{})
		w.Run(background, func() {
			if how&1 == 1 && i%3 == 0 {
				core.Yield()
			}
			done++
		}, func() { close(ended) })
		if how&2 == 0 || size == 1 || i%size == size-1 {
			<-ended
		}
	})
	core.WaitQuiet()
	if n := p.Get("wear", 0, maxWear); done != n {
		failAs("C17 C18", "lost", "of %d functions only %d ran", n, done)
	}
}

func wearMR(p *Plan) {
	n := p.Get("wear", 0, maxWear) / 4
	for i := 0; i < n; i++ {
		ctx, cancel := context.WithCancel(context.Background())
		sum := 0
		for v := range xmapreduce.Map(ctx, func(source chan<- interface{}) {
			source <- i
			source <- 1
		}, func(item interface{}, writer xbarrier.Writer) {
			writer.Write(item)
		}, xmapreduce.WithWorkerSize(1+i%3)) {
			sum += v.(int)
		}
		cancel()
		if sum != i+1 {
			Failf("lost", "small map number %d delivered values that add up to %d instead of %d", i, sum, i+1)
		}
	}
}

func wearBytes(p *Plan) {
	var held [][]byte
	wear(p, func(how, i int) {
		n := []int{0, 1, 7, 64, 100, 1000}[(i+how)%6]
		switch {
		case how&1 == 1:
			n = how
		case how&4 != 0: // no size twice
			n = i % 5000
		}
		b := xbytes.Malloc(n, n)
		if len(b) != n || cap(b) != n {
			Failf("size", "allocation number %d, of %d bytes, has length %d and capacity %d", i, n, len(b), cap(b))
		}
		for k := range b {
			b[k] = 0xee
		}
		if how&2 != 0 {
			held = append(held, b)
			if len(held) < 5 {
				return
			}
			b, held = held[0], held[1:]
		}
		xbytes.Free(b)
	})
}

func wearCodec(p *Plan) {
	wear(p, func(how, i int) {
		w := &simWriter{quota: -1}
		op := Op{K: []string{"bool", "u16", "u32", "bytes"}[(i+how)%4], A: i % 50, B: i}
		if how&4 != 0 {
			op.K = []string{"bool", "u16", "u32", "bytes"}[how%4]
		}
		if err := writeValue(w, op); err != nil {
			Failf("codec", "value number %d: writing %v failed: %v", i, op, err)
		}
		r := &simReader{data: w.got, err: io.EOF}
		if how&8 != 0 && i%2 == 0 && len(w.got) > 0 { // broken off
			r.data = w.got[:len(w.got)-1]
			if _, _, err, _, text := readValue(r, op); err == nil {
				Failf("accepted", "value number %d, which is incomplete, was read as %s", i, text)
			}
			return
		}
		if same, _, err, _, text := readValue(r, op); err != nil || !same {
			Failf("codec", "value number %d: wrote %v, read %s: %v", i, op, text, err)
		}
	})
	if p.Get("wear", 0, maxWear) > 0 {
		if err := xbinary.WriteBytes(&simWriter{quota: -1}, make([]byte, 65536)); err == nil {
			Failf("too-long", "a byte string of 65536 bytes was accepted")
		}
	}
}

// wearRing leaves the ring with the last values of many; it returns them as the model has them.
func wearRing(p *Plan, r *xring.Ring, size int, value func(n int) interface{}) string {
	last := []string{}
	add := func(v interface{}) {
		r.Add(v)
		last = append(last, fmt.Sprint(v))
		if len(last) > size {
			last = last[1:]
		}
	}
	wear(p, func(how, i int) {
		add(value(100000 + i))
		if how&1 == 1 && i%size == 0 {
			if l, want := fmt.Sprint(r.Take()), fmt.Sprint(last); l != want {
				Failf("ring", "after %d values a ring of %d holds %s instead of %s", i+1, size, l, want)
			}
		}
	})
	return strings.Join(last, " ")
}

func wearStream(p *Plan, class string) {
	n := p.Get("wear", 0, maxWear) / 8
	how := p.Get("wearHow", 0, 63)
	for i := 0; i < n; i++ {
		s := xstream.Of(i, 1, i, 2)
		if how&1 == 1 {
			s = s.Map(func(x interface{}) interface{} { return x }, xstream.WithWorkSize(1+how%3))
		}
		if how&2 != 0 {
			s = s.Filter(func(x interface{}) bool { return true })
		}
		if c := s.Count(); c != 4 {
			Failf(class, "small stream number %d has %d elements instead of 4", i, c)
		}
	}
}

// wearBufio uses the pools with few sizes or with very many, several at a time.
func wearBufio(p *Plan, reading bool) {
	var rs []*bufio.Reader
	var ws []*bufio.Writer
	wear(p, func(how, i int) {
		size := []int{16, 100, 4096, 5000}[i%4]
		if how&1 == 1 {
			size = 16 + i%5000
		}
		text := fmt.Sprint("text of number ", i)
		if reading {
			r := xio.GetBufferReaderSize(strings.NewReader(text), size)
			if r.Size() < size {
				Failf("too-small", "reader number %d has %d bytes instead of %d", i, r.Size(), size)
			}
			if l, err := r.ReadString('\n'); l != text || err != io.EOF {
				Failf("content", "reader number %d reads %q, %v instead of %q", i, l, err, text)
			}
			rs = append(rs, r)
			if how&2 == 0 || len(rs) > 5 {
				r, rs = rs[0], rs[1:]
				xio.PutBufferReader(r)
			}
			return
		}
		out := &strings.Builder{}
		w := xio.GetBufferWriterSize(out, size)
		if w.Size() < size {
			Failf("too-small", "writer number %d has %d bytes instead of %d", i, w.Size(), size)
		}
		_, err := w.WriteString(text)
		if err == nil {
			err = w.Flush()
		}
		if err != nil || out.String() != text {
			Failf("content", "writer number %d wrote %q, %v instead of %q", i, out.String(), err, text)
		}
		ws = append(ws, w)
		if how&2 == 0 || len(ws) > 5 {
			w, ws = ws[0], ws[1:]
			if how&4 != 0 {
				_, _ = w.WriteString("left over")
			}
			xio.PutBufferWriter(w)
		}
	})
}
