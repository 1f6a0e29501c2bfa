package main

import (
	"context"
	"errors"
	"io"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/chenquan/go-pkg/xbarrier"
	"github.com/chenquan/go-pkg/xbytes"
	"github.com/chenquan/go-pkg/xio"
	"github.com/chenquan/go-pkg/xmapreduce"
	"github.com/chenquan/go-pkg/xonce"
	"github.com/chenquan/go-pkg/xring"
	"github.com/chenquan/go-pkg/xsync"
	"github.com/chenquan/go-pkg/xtask"
	"github.com/chenquan/go-pkg/xworker"
	"verif.local/vsim/core"
	. "verif.local/vsim/fw"
)

// Mobs: in few runs many clients do one and the same thing to one fresh object at the same time,
// before the scenario proper. Whatever is said of two clients holds of three hundred.

func mobbed(every, cost int, s *Scenario) *Scenario {
	gen, cfg := s.Gen, s.Cfg
	s.Gen = func(r *R) *Plan {
		p := gen(r)
		if r.P(1, every) {
			p.P["mob"] = r.Pick(20, 40, 70, 70, 130, 130, 260, 300)
			p.P["mobHow"] = r.N(64)
		}
		return p
	}
	s.Cfg = func(r *R, p *Plan, c *core.Config) {
		if cfg != nil {
			cfg(r, p, c)
		}
		c.MaxSteps += p.P["mob"] * cost
	}
	return s
}

func mobOf(p *Plan) (n, how int) { return p.Get("mob", 0, 1000), p.Get("mobHow", 0, 63) }

func mobMap(p *Plan, class string, m mapAPI) {
	n, how := mobOf(p)
	if n == 0 {
		return
	}
	del := func() { m.Delete(0) }
	present := how&1 == 1
	if present {
		m.Store(0, 0)
	}
	if how&2 != 0 {
		m.Range(func(k, v interface{}) bool { return true })
	}
	actual := make([]int, n)
	won := 0
	MustFinish("stuck", n, func(i int) {
		if present {
			v, ok := m.ComputeIfPresent(0, func(k, v interface{}) interface{} { core.Yield(); return v.(int) + 1 })
			if !ok {
				Failf(class, "compute-if-present of a present key says it is absent")
			}
			actual[i] = v.(int)
			return
		}
		v, loaded := m.ComputeIfAbsent(0, func(k interface{}) interface{} { core.Yield(); return i })
		actual[i] = v.(int)
		if !loaded {
			won++
		}
	})
	v, ok := m.Load(0)
	if !ok {
		Failf(class, "the key on which %d clients computed at the same time is gone", n)
	}
	seen := make([]bool, n+2)
	for i, a := range actual {
		switch {
		case !present && a != v:
			Failf(class, "of %d clients that computed an absent key, number %d was given %d, and %v is stored", n, i, a, v)
		case present && (a < 1 || a > n || seen[a]):
			Failf(class, "of %d clients that incremented a key, number %d was given %d, as another was, or which cannot be", n, i, a)
		case present:
			seen[a] = true
		}
	}
	if present && v != n || !present && won != 1 {
		Failf(class, "%d clients incremented (%v) or computed one key, which is %v now; %d stored their own", n, present, v, won)
	}
	del()
}

func mobMgr(p *Plan, closing bool) {
	n, how := mobOf(p)
	if n == 0 {
		return
	}
	m := xsync.NewResourceManager()
	created := 0
	var rs []*fillRes
	MustFinish("stuck", n, func(i int) {
		key := "one"
		if how&1 == 1 {
			key = string(rune('a' + i%7))
		}
		var mine *fillRes
		r, err := m.Get(key, func() (io.Closer, error) {
			created++
			yields(how % 5)
			mine = &fillRes{id: 1}
			rs = append(rs, mine)
			return mine, nil
		})
		if rr, ok := r.(*fillRes); err != nil || !ok || mine != nil && rr != mine {
			Failf("get-result", "get by number %d of %d gave %v, %v", i, n, r, err)
		}
	})
	want := 1
	if how&1 == 1 {
		want = 7
	}
	if created != want {
		Failf("resource-sharing", "%d clients that got %d keys made %d creations", n, want, created)
	}
	if err := m.Close(); err != nil {
		Failf("close-error-invented", "no resource's close failed, but close reported %q", err)
	}
	for _, r := range rs {
		if r.closed != 1 && closing {
			Failf("not-closed", "a resource got by %d clients was closed %d times", n, r.closed)
		}
	}
}

func mobOnce(p *Plan) {
	n, how := mobOf(p)
	if n == 0 {
		return
	}
	v := xonce.NewValue()
	won, winner := 0, -1
	MustFinish("stuck", n, func(i int) {
		if how&1 == 1 && i%3 == 0 {
			if x := v.Value(); x != nil && won > 0 && x != winner {
				Failf("write-once", "read %v although %d was written", x, winner)
			}
		}
		if v.Write(i) {
			won++
			winner = i
		}
	})
	if won != 1 || v.Value() != winner {
		Failf("write-once", "%d of %d writes succeeded; the value is %v, the last to succeed wrote %d", won, n, v.Value(), winner)
	}
}

func mobWrite(p *Plan) {
	n, how := mobOf(p)
	if n == 0 {
		return
	}
	ctx, cancel := context.WithCancel(context.Background())
	ch := make(chan interface{}, how%5)
	w := xbarrier.NewWriteBarrier(ctx, ch)
	taken := make([]int, n)
	ok := make([]bool, n)
	returned := 0
	for i := 0; i < n; i++ {
		i := i
		core.Go("mob", func() { ok[i] = w.Write(i); returned++ })
	}
	k := how * n / 64
	for i := 0; i < k; i++ {
		taken[(<-ch).(int)]++
	}
	core.WaitQuiet()
	if want := k + how%5; returned != want && !(want > n && returned == n) {
		Failf("write-failed-live", "%d writers, room for %d: %d writes returned", n, want, returned)
	}
	cancel()
	core.WaitQuiet()
	if returned != n {
		Failf("stuck", "of %d writes only %d returned although the context is done; blocked: %s", n, returned, BlockedText())
	}
	for len(ch) > 0 {
		taken[(<-ch).(int)]++
	}
	for i := range ok {
		if taken[i] != toFlag(ok[i]) {
			Failf("lost", "write %d of %d reported %v, but %d such values came out", i, n, ok[i], taken[i])
		}
	}
}

func mobRead(p *Plan) {
	n, how := mobOf(p)
	if n == 0 {
		return
	}
	ctx, cancel := context.WithCancel(context.Background())
	ch := make(chan interface{}, how%5)
	r := xbarrier.NewReadBarrier(ctx, ch)
	taken := make([]int, n)
	returned, good := 0, 0
	for i := 0; i < n; i++ {
		core.Go("mob", func() {
			if v, ok := r.Read(); ok {
				good++
				taken[v.(int)]++
			}
			returned++
		})
	}
	k := how * n / 64
	for i := 0; i < k; i++ {
		ch <- i
	}
	core.WaitQuiet()
	if returned != k || good != k {
		Failf("read-barrier", "%d values were sent to %d readers: %d reads returned, %d with a value", k, n, returned, good)
	}
	if how&1 == 1 {
		close(ch)
	} else {
		cancel()
	}
	core.WaitQuiet()
	if returned != n || good != k {
		Failf("stuck", "of %d reads only %d returned (%d with a value) although the context is done or the channel closed; blocked: %s", n, returned, good, BlockedText())
	}
	for i := 0; i < k; i++ {
		if taken[i] != 1 {
			Failf("lost", "value %d was read %d times", i, taken[i])
		}
	}
	cancel()
}

func mobWorker(p *Plan) {
	n, how := mobOf(p)
	if n == 0 {
		return
	}
	size := n
	if how&1 == 1 {
		size = 1 + how*n/64
	}
	w := xworker.NewWorker(size)
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	gate := make(chan struct{})
	active, cbs, runs := 0, 0, 0
	for i := 0; i < n; i++ {
		core.Go("mob", func() {
			w.Run(ctx, func() {
				active++
				runs++
				if active > size {
					failAs("C17", "too-many", "%d functions execute in a pool of size %d", active, size)
				}
				<-gate
				active--
			}, func() { cbs++ })
		})
	}
	core.WaitIdle()
	want := size
	if n < size {
		want = n
	}
	if active != want {
		failAs("C17", "slot-lost", "%d functions are submitted to a pool of size %d, and only %d execute", n, size, active)
	}
	close(gate)
	core.WaitIdle() // nothing has to wait for time to pass
	if runs != n {
		failAs("C17", "slot-lost", "%d of %d functions have ended and the others do not start", runs, n)
	}
	core.WaitQuiet()
	if runs != n || cbs != n {
		failAs("C18", "lost", "of %d submissions %d functions ran and %d callbacks", n, runs, cbs)
	}
}

func mobMR(p *Plan) {
	n, how := mobOf(p)
	if n == 0 {
		return
	}
	workers := n
	if how&1 == 1 {
		workers = 1 + how*n/64
	}
	gate := make(chan struct{})
	active := 0
	sum, want := 0, 0
	out := xmapreduce.Map(context.Background(), func(source chan<- interface{}) {
		for i := 0; i < n; i++ {
			want += i
			source <- i
		}
	}, func(item interface{}, writer xbarrier.Writer) {
		active++
		if active > workers {
			Failf("too-many", "%d map functions run at once, %d are allowed", active, workers)
		}
		<-gate
		active--
		if !writer.Write(item) {
			Failf("write-refused", "a write reports false although nothing was cancelled")
		}
	}, xmapreduce.WithWorkerSize(workers))
	core.WaitQuiet()
	close(gate)
	left := Parallel(1, func(int) {
		for v := range out {
			sum += v.(int)
		}
	})
	if len(left) > 0 {
		Failf("stuck", "the output of %d items with %d workers is never closed; blocked: %s", n, workers, BlockedText())
	}
	if sum != want {
		Failf("lost", "of %d items with %d workers the outputs add up to %d instead of %d", n, workers, sum, want)
	}
}

// crowdBytes holds so many buffers of one or two sizes that they need some hundred kilobytes.
func crowdBytes(size, how int) {
	n := 100000 / size
	if n > 5000 {
		n = 5000
	}
	type at struct {
		lo, hi uintptr
		i      int
	}
	var bufs [][]byte
	var spans []at
	for i := 0; i < n; i++ {
		want := size
		if how&4 != 0 {
			want += i % 3
		}
		b := xbytes.MallocSize(want)
		if len(b) != want || cap(b) != want {
			Failf("size", "requested %d bytes, got length %d and capacity %d", want, len(b), cap(b))
		}
		fill(b, i)
		bufs = append(bufs, b)
		lo, hi := span(b)
		spans = append(spans, at{lo, hi, i})
	}
	sort.Slice(spans, func(i, j int) bool { return spans[i].lo < spans[j].lo })
	for k := range spans[:n-1] {
		if spans[k+1].lo < spans[k].hi {
			Failf("shared-buffer", "of %d buffers of %d bytes or a little more, numbers %d and %d share memory", n, size, spans[k].i, spans[k+1].i)
		}
	}
	for i, b := range bufs {
		if !intact(b, i) {
			Failf("changed-buffer", "the contents of an owned buffer changed")
		}
		if how&8 == 0 || i%2 == 0 {
			xbytes.Free(b)
		}
	}
}

func mobBytes(p *Plan) {
	n, how := mobOf(p)
	if n == 0 {
		return
	}
	size := []int{1, 8, 64, 100}[how%4]
	crowdBytes(size, how)
	var mu sync.Mutex // what one owner did comes before what the next does
	for round := 0; round < 2; round++ {
		bufs := make([][]byte, n)
		MustFinish("stuck", n, func(i int) {
			b := xbytes.MallocSize(size)
			if len(b) != size || cap(b) != size {
				Failf("size", "requested %d bytes, got length %d and capacity %d", size, len(b), cap(b))
			}
			for k := range b {
				b[k] = byte(i)
			}
			core.Yield()
			b[0] = byte(i >> 8)
			mu.Lock()
			bufs[i] = b
			mu.Unlock()
		})
		for i, b := range bufs {
			lo, hi := span(b)
			for j := range bufs[:i] {
				if l, h := span(bufs[j]); lo < h && l < hi {
					Failf("shared-buffer", "of %d buffers of %d bytes numbers %d and %d share memory", n, size, j, i)
				}
			}
		}
		MustFinish("stuck", n, func(i int) {
			mu.Lock()
			b := bufs[i]
			mu.Unlock()
			for k := range b {
				if want := byte(i); k > 0 && b[k] != want || k == 0 && b[k] != byte(i>>8) {
					Failf("changed-buffer", "the contents of an owned buffer changed")
				}
			}
			xbytes.Free(b)
		})
	}
}

func mobBufio(p *Plan, reading bool) {
	n, how := mobOf(p)
	if n == 0 {
		return
	}
	size := []int{4096, 16, 100, 5000}[how%4]
	got := make([]string, n)
	text := func(i int) string { return strings.Repeat(string(rune('a'+i%26)), 5+i%7) }
	MustFinish("stuck", n, func(i int) {
		if reading {
			r := xio.GetBufferReaderSize(strings.NewReader(text(i)), size)
			b, _ := r.Peek(3)
			core.Yield()
			if string(b) != text(i)[:3] {
				Failf("content", "reader %d of %d has %q in its buffer instead of %q", i, n, b, text(i)[:3])
			}
			l, _ := r.ReadString('\n')
			got[i] = l
			xio.PutBufferReader(r)
			return
		}
		out := &strings.Builder{}
		w := xio.GetBufferWriterSize(out, size)
		_, _ = w.WriteString(text(i))
		core.Yield()
		_ = w.Flush()
		got[i] = out.String()
		xio.PutBufferWriter(w)
	})
	for i, g := range got {
		if g != text(i) {
			Failf("content", "user %d of %d read or wrote %q instead of %q", i, n, g, text(i))
		}
	}
}

func mobCodec(p *Plan) {
	n, how := mobOf(p)
	if n == 0 {
		return
	}
	kinds := []string{"bool", "u16", "u32", "bytes"}
	MustFinish("stuck", n, func(i int) {
		op := Op{K: kinds[(i+how)%4], A: i, B: i}
		if how&4 != 0 {
			op.K = kinds[how%4]
		}
		w := &simWriter{quota: -1}
		if err := writeValue(w, op); err != nil {
			Failf("codec", "writing %v failed: %v", op, err)
		}
		r := &simReader{data: w.got, frag: []int{1}, err: io.EOF}
		same, _, err, raw, text := readValue(r, op)
		core.Yield()
		if err != nil || !same || raw != nil && string(raw) != string(content(op)) {
			Failf("codec", "wrote %v, read %s: %v", op, text, err)
		}
	})
}

func mobRing(p *Plan) {
	n, how := mobOf(p)
	if n == 0 {
		return
	}
	size := []int{1, 7, 100, 400}[how%4]
	r := xring.NewRing(size)
	MustFinish("stuck", n, func(i int) {
		if how&4 != 0 && i%2 == 0 {
			l := r.Take()
			for _, x := range l {
				if j := x.(int); j < 0 || j >= n || j%2 == 0 {
					Failf("ring", "a ring holds %v, which nobody added", x)
				}
			}
			return
		}
		r.Add(i)
	})
	adds := n
	if how&4 != 0 {
		adds = n / 2
	}
	l := r.Take()
	if want := adds; len(l) != want && !(want > size && len(l) == size) {
		Failf("ring", "a ring of %d holds %d values after %d additions", size, len(l), adds)
	}
	seen := make([]bool, n)
	for _, x := range l {
		j := x.(int)
		if seen[j] {
			Failf("ring", "a ring holds %d twice", j)
		}
		seen[j] = true
	}
}

func mobRetry(p *Plan) {
	n, how := mobOf(p)
	if n == 0 {
		return
	}
	MustFinish("stuck", n, func(i int) {
		attempts := 0
		err := xtask.DoWithRetry(func() error {
			attempts++
			core.Yield()
			if how&1 == 1 {
				time.Sleep(time.Millisecond)
			}
			if attempts <= i%5 {
				return errors.New(strings.Repeat("x", attempts))
			}
			return nil
		})
		want := i%5 + 1
		if want > 4 {
			want = 4
		}
		if attempts != want || (err == nil) != (i%5 < 4) {
			Failf("retry", "the function succeeds at attempt %d; retry made %d attempts and returned %v", i%5+1, attempts, err)
		}
	})
}

func mobChan(p *Plan) {
	n, _ := mobOf(p)
	if n == 0 {
		return
	}
	c := xonce.NewChan()
	won, winner, got := 0, -1, 0
	MustFinish("stuck", n, func(i int) {
		if i%2 == 0 {
			if c.Write(i) {
				won++
				winner = i
			}
			return
		}
		for v := range c.Chan() {
			got++
			if v.(int)%2 != 0 {
				Failf("delivery", "the channel yields %v", v)
			}
			core.Yield()
		}
	})
	if won != 1 || got != 1 {
		Failf("delivery", "of %d writers %d succeeded (last %d), and the value was received %d times", n/2, won, winner, got)
	}
}
