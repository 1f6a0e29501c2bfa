package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"math"
	"reflect"
	"runtime"
	"strings"
	"sync"
	"time"

	"github.com/chenquan/go-pkg/xbarrier"
	"github.com/chenquan/go-pkg/xmapreduce"
	"github.com/chenquan/go-pkg/xtask"
	"github.com/chenquan/go-pkg/xworker"
	"verif.local/vsim/core"
	. "verif.local/vsim/fw"
)

const ms = int64(time.Millisecond)

// ---------------------------------------------------------------- C13, C14: Do

const (
	outNil = iota
	outErr
	outPanic
	outNever // returns only when released at the end
	outCtxErr
	outExit // ends its goroutine with runtime.Goexit
)

// Clients alternate "ctx" operations (A, B: when the canceller strikes; C: kind) and "do"
// operations (A, B: how long the function takes; C: outcome + 10*api + 100*kind of error or panic).
func genDo(panics bool) func(r *R) *Plan {
	return func(r *R) *Plan { return crowdOf(r, genDoPlan(r, panics)) }
}

func genDoPlan(r *R, panics bool) *Plan {
	p := NewPlan()
	for n := r.Pick(1, 1, 2, 3); n > 0; n-- {
		var c []Op
		for k := r.In(1, 3); k > 0; k-- {
			x := Op{K: "ctx", A: r.Small(30), C: r.Pick(0, 1, 1, 1, 1, 2, 3, 3, 4, 5, 6, 7, 8, 9)}
			if r.P(1, 4) {
				x.B = napMs(r, 5)
			}
			d := Op{K: "do", A: r.Small(20), C: r.Pick(outNil, outNil, outErr, outErr, outPanic, outPanic, outPanic, outNever, outNever, outCtxErr, outExit) + 10*r.Pick(0, 0, 0, 1, 2) + 100*r.N(10)}
			if !panics && d.C%10 == outPanic {
				d.C += outErr - outPanic
			}
			if r.P(1, 3) {
				d.B = napMs(r, 5)
			}
			c = append(c, x, d)
		}
		p.C = append(p.C, c)
	}
	return p
}

// crowdOf adds, to few runs, many functions that never end while their calls have long returned.
func crowdOf(r *R, p *Plan) *Plan {
	if r.P(1, 80) {
		p.P["crowd"] = r.Pick(20, 70, 110, 150, 260, 300, 520, 1030)
		p.P["crowdSoon"] = r.N(2)
	}
	return p
}

func crowdCfg(r *R, p *Plan, c *core.Config) {
	if p.P["crowd"] > 0 {
		c.MaxSteps = 5000000
		c.Jump = 0 // the time that passes is looked at
	}
}

// crowd starts them; they end when release is closed.
func crowd(p *Plan, release chan struct{}, timeouts bool) {
	n := p.Get("crowd", 0, 3000)
	if n == 0 {
		return
	}
	core.Count("fault.callback_never_ends")
	ctx, cancel := context.WithCancel(context.Background())
	started, returned := 0, 0
	stuck := func() error { started++; <-release; return nil }
	for i := 0; i < n; i++ {
		i := i
		core.Go("crowd", func() {
			var err error
			switch {
			case timeouts:
				err = xtask.DoWithTimeout(time.Duration(i+1)*time.Millisecond, stuck, nil)
			case i%2 == 0:
				err = xtask.Do(ctx, stuck, nil)
			default:
				err = xtask.DoWithoutDefer(ctx, stuck)
			}
			if err == nil {
				failAs("C13 C15", "outcome", "call %d of %d returned nil although its function has not ended", i, n)
			}
			returned++
		})
	}
	if !timeouts && p.On("crowdSoon") { // the contexts end soon, or when all have long started
		core.WaitIdle()
	} else if !timeouts {
		core.WaitQuiet()
		if started != n {
			failAs("C13 C14", "stuck", "of %d functions whose contexts are live only %d were started", n, started)
		}
	}
	cancel()
	if since := core.Now(); !timeouts {
		core.WaitQuiet()
		if late := time.Duration(core.Now() - since); returned == n && late > 2*time.Second {
			failAs("C13", "late", "the last of %d calls returned %v after their context was done", n, late)
		}
	}
	core.WaitQuiet()
	for i := 0; timeouts && i < 2000 && returned < n; i++ {
		core.Sleep(10 * ms)
	}
	if returned != n {
		Failf("stuck", "of %d calls whose context is done or time has run out only %d returned; blocked: %s", n, returned, BlockedText())
	}
}

func runDo(p *Plan) {
	n := len(p.C)
	release := make(chan struct{})
	wearDo(p)
	crowd(p, release, false)
	var calls []*doCall
	left := Parallel(n, func(i int) {
		cop := Op{C: 0}
		for j, op := range p.C[i] {
			if op.K == "ctx" {
				cop = op
				continue
			}
			c := &doCall{id: i*100 + j, op: op, cop: cop, release: release}
			calls = append(calls, c)
			c.do()
		}
	})
	if len(left) > 0 {
		// only a call whose context is not done and whose function has not ended may still wait
		for _, c := range calls {
			if !c.returned && c.exited && c.cx.ctx.Err() == nil {
				continue // the function has neither returned nor panicked
			}
			if !c.returned && (c.cx.ctx.Err() != nil || c.ended) {
				Failf("stuck", "call %d has not returned although the context is done (%v) or the function ended (%v); blocked: %s", c.id, c.cx.ctx.Err() != nil, c.ended, BlockedText())
			}
		}
	}
	close(release)
	for _, c := range calls {
		if !c.returned && c.exited {
			c.cx.cancel()
		}
	}
	core.WaitQuiet()
	for _, c := range calls {
		if !c.returned {
			Failf("stuck", "call %d has not returned although its function ended; blocked: %s", c.id, BlockedText())
		}
		if c.runs > 1 {
			failAs("C13", "run-twice", "the function of call %d ran %d times", c.id, c.runs)
		}
		if c.runs > 0 && c.pre {
			failAs("C13", "ran-after-done", "the function of call %d ran although the context was done at the call", c.id)
		}
		if c.hasCleanup && c.cleanups != 1 {
			failAs("C14 C15", "cleanup", "the clean-up of call %d ran %d times", c.id, c.cleanups)
		}
	}
	if judging("C14") {
		NoLeak("leak")
	}
}

type doCall struct {
	id         int
	op, cop    Op
	cx         *ctxPlan
	release    chan struct{}
	runs       int
	ended      bool
	panicked   bool
	exited     bool
	err        error
	returned   bool
	pre        bool
	cleanups   int
	hasCleanup bool
}

// text is what a panic of the function must show.
func (c *doCall) text() string {
	switch c.op.C / 100 {
	case 2, 6: // integer, runtime error
		return fmt.Sprint(100000 + c.id)
	case 3: // nil
		return ""
	}
	return fmt.Sprintf("boom-%d", c.id)
}

type boomVal struct {
	What string
	At   []int
}

type boomErr struct{ what *string }

func (e *boomErr) Error() string { return *e.what }

// boom panics with the text in one of several forms.
func (c *doCall) boom() {
	t := c.text()
	switch c.op.C / 100 {
	case 1:
		panic(errors.New(t))
	case 2:
		panic(100000 + c.id)
	case 3: // recovered as nil, see fw.Main
		panic(nil)
	case 4: // cannot be compared
		panic(boomVal{What: t, At: []int{c.id}})
	case 5:
		panic(&boomVal{What: t})
	case 6:
		a := make([]int, 3)
		a[100000+c.id]++
	case 7:
		panic(&boomErr{&t})
	case 8: // a panic on the way of another one
		defer func() { panic(t) }()
		panic("overtaken")
	case 9:
		func() {
			defer func() { panic(fmt.Errorf("again: %v", recover())) }()
			panic(t)
		}()
	}
	panic(t)
}

// failure is the error of a failing function.
func (c *doCall) failure() error {
	switch c.op.C / 100 {
	case 1:
		return sliceErr{"a", fmt.Sprint(c.id)}
	case 2:
		return (*boomErr)(nil) // not a nil error
	case 3:
		return fmt.Errorf("wrapped: %w", context.DeadlineExceeded)
	case 4:
		return io.EOF
	case 5:
		return errors.New("")
	}
	return errors.New(c.text())
}

func (c *doCall) fn() error {
	c.runs++
	nap(c.op)
	switch c.op.C % 10 {
	case outErr:
		c.err = c.failure()
	case outPanic:
		c.panicked = true
		core.Count("fault.callback_panic")
		c.ended = true
		c.boom()
	case outExit:
		if cancellable(c.cop.C) { // else nothing could ever end the call
			core.Count("fault.callback_goexit")
			c.ended = true
			c.exited = true
			runtime.Goexit()
		}
	case outNever:
		if c.cx.ctx.Done() != nil {
			core.Count("fault.callback_never_ends")
			<-c.release
		}
	case outCtxErr:
		c.err = context.Canceled
		if c.op.C/100%2 == 1 {
			c.err = context.DeadlineExceeded
		}
	}
	c.ended = true
	return c.err
}

func (c *doCall) cleanup() {
	c.cleanups++
	core.Yield()
}

func (c *doCall) do() {
	c.cx = makeCtx(c.cop.C, 1+c.cop.B)
	ctx := c.cx.ctx
	if cancellable(c.cop.C) {
		core.Go("canceller", func() { nap(c.cop); c.cx.cancel() })
	}
	c.pre = ctx.Err() != nil
	var err error
	pv, panicked := Catch(func() {
		switch c.op.C / 10 % 10 {
		case 1:
			err = xtask.DoWithoutDefer(ctx, c.fn)
		case 2:
			err = xtask.Do(ctx, c.fn, nil)
		default:
			c.hasCleanup = true
			err = xtask.Do(ctx, c.fn, c.cleanup)
		}
	})
	c.returned = true
	done := ctx.Err() != nil
	c.check(pv, panicked, err, done, ctx.Err())
}

func (c *doCall) check(pv interface{}, panicked bool, err error, done bool, ctxErr error) {
	if c.hasCleanup && c.cleanups != 1 {
		failAs("C14 C15", "cleanup", "the clean-up of call %d had run %d times when the call returned", c.id, c.cleanups)
	}
	if c.pre && c.runs > 0 {
		failAs("C13", "ran-after-done", "the function of call %d ran although the context was done at the call", c.id)
	}
	switch {
	case c.exited: // neither an error nor a panic is promised
	case panicked:
		if !c.panicked {
			failAs("C13 C15", "outcome", "call %d panicked with %v although its function did not", c.id, pv)
		}
		if !strings.Contains(fmt.Sprint(pv), c.text()) {
			failAs("C14", "outcome", "call %d re-raised %v, which does not show the function's panic %s", c.id, pv, c.text())
		}
	case done && sameErr(err, ctxErr):
	case c.panicked && !done:
		failAs("C14", "outcome", "the function of call %d panicked while the call was waiting, but the call returned %v", c.id, err)
	case !c.ended:
		failAs("C13 C15", "outcome", "call %d returned %v although its function has not ended and the context is live or has another error (%v)", c.id, err, ctxErr)
	case !sameErr(err, c.err) || c.panicked:
		failAs("C13 C15", "outcome", "call %d returned %v, its function %v (panicked: %v), context error %v", c.id, err, c.err, c.panicked, ctxErr)
	}
}

// ---------------------------------------------------------------- C15: timeouts

func genTimeout(r *R) *Plan {
	p := NewPlan()
	p.P["early"] = r.Pick(0, 0, 0, 1)
	// timeouts are whole milliseconds or, in some runs, not even whole microseconds
	p.P["frac"] = r.Pick(0, 0, 1, 400, 999, 500000, 900001, 999999)
	crowdOf(r, p)
	for n := r.Pick(1, 1, 2, 4); n > 0; n-- {
		var c []Op
		for k := r.In(1, 3); k > 0; k-- {
			d := Op{K: "do", A: r.Pick(0, 1, 2, 3, 5, 8, 10, 1000, 61000, -1), B: r.Pick(0, 0, 1, 2, 3, 5, 8, 11, 2000, 65000), C: r.Pick(outNil, outErr, outPanic, outNever, outCtxErr) + 100*r.N(10)}
			if r.P(1, 20) {
				// an hour, a day, ten years; -2: the longest duration there is
				d.A = r.Pick(-2, 3600000, 86400000, 315360000000)
			}
			if r.P(1, 30) {
				d.B = r.Pick(300000, 3700000, 90000000)
			}
			if d.A == -2 && d.C%10 == outNever {
				d.C += outErr - outNever
			}
			c = append(c, d)
		}
		p.C = append(p.C, c)
	}
	return p
}

func runTimeout(p *Plan) {
	n := len(p.C)
	release := make(chan struct{})
	exact := !p.On("early")
	wearDo(p)
	crowd(p, release, true)
	var calls []*doCall
	left := Parallel(n, func(i int) {
		for j, op := range p.C[i] {
			d := int64(op.A) * ms
			if op.A >= 0 {
				d += int64(p.Get("frac", 0, 999999))
			}
			if op.A == -2 {
				d = math.MaxInt64
				if !exact {
					d = 31536000000 * 10 * ms // a timer may strike early: the clock must not reach its end
				}
			}
			fop := op
			fop.A = op.A % 4
			if fop.A < 0 {
				fop.A = 0
			}
			c := &doCall{id: i*100 + j, op: fop, release: release, hasCleanup: true}
			c.cx = &ctxPlan{}
			c.cx.ctx, _ = context.WithCancel(context.Background()) // only its Done channel is looked at
			calls = append(calls, c)
			var err error
			start := core.Now()
			pv, panicked := Catch(func() { err = xtask.DoWithTimeout(time.Duration(d), c.fn, c.cleanup) })
			elapsed := core.Now() - start
			c.returned = true
			if n == 1 && allEnded(calls) && core.PendingTimers() > 0 {
				Failf("timer-leak", "call %d has returned but its timer is still pending", c.id)
			}
			own := c.ended && sameErr(err, c.err)
			if err == context.DeadlineExceeded && elapsed < d && !own {
				Failf("too-early", "call %d returned the deadline error after %v of %v", c.id, time.Duration(elapsed), time.Duration(d))
			}
			lim := d
			if lim < 0 {
				lim = 0
			}
			if exact && elapsed > lim {
				Failf("too-late", "call %d returned after %v, timeout %v", c.id, time.Duration(elapsed), time.Duration(d))
			}
			took := int64(op.B) * ms
			if exact && took < d && op.C%10 != outNever && err == context.DeadlineExceeded && !own {
				Failf("outcome", "call %d: the function takes %v, but the call reports the %v deadline", c.id, time.Duration(took), time.Duration(d))
			}
			c.check(pv, panicked, err, err == context.DeadlineExceeded, context.DeadlineExceeded)
		}
	})
	if len(left) > 0 {
		Failf("stuck", "clients %v never got their call back; blocked: %s", left, BlockedText())
	}
	close(release)
	core.WaitQuiet()
	for _, c := range calls {
		if c.runs > 1 {
			failAs("C13", "run-twice", "the function of call %d ran %d times", c.id, c.runs)
		}
		if c.cleanups != 1 {
			failAs("C14 C15", "cleanup", "the clean-up of call %d ran %d times", c.id, c.cleanups)
		}
	}
	if judging("C14") {
		NoLeak("leak")
	}
}

// ---------------------------------------------------------------- C16: retry

func genRetry(r *R) *Plan {
	p := NewPlan()
	for n := r.In(1, 3); n > 0; n-- {
		var c []Op
		for k := r.In(1, 3); k > 0; k-- {
			t := r.Pick(-1, 0, 1, 2, 3, 4, 6, 12)
			if r.P(1, 20) {
				t = r.Pick(40, 70, 150, 1100)
			}
			b := r.Pick(0, 1, 2, 3, 4, 5, 7, 100)
			if r.P(1, 20) {
				b = r.Pick(t+1, t+2, 1000)
			}
			if r.P(1, 40) {
				t = -2 - r.N(6) // as many attempts as it takes
			}
			c = append(c, Op{K: "retry", A: t, B: b, C: r.N(8)})
		}
		p.C = append(p.C, c)
	}
	return p
}

type sliceErr []string

func (e sliceErr) Error() string { return strings.Join(e, "-") }

type ptrErr struct{ n int }

func (e *ptrErr) Error() string { return "pointer" }

type funcErr func()

func (e funcErr) Error() string { return "function" }

// sameErr compares errors, by text where values cannot be compared.
func sameErr(a, b error) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	if !reflect.TypeOf(a).Comparable() {
		return reflect.TypeOf(a) == reflect.TypeOf(b) && a.Error() == b.Error()
	}
	return a == b
}

func runRetry(p *Plan) {
	mobRetry(p)
	MustFinish("stuck", len(p.C), func(i int) {
		for j, op := range p.C[i] {
			var opts []xtask.RetryOption
			n := op.A
			if n == -1 { // default
				n = 3
			} else {
				if n < -1 && n > -8 {
					n = []int{math.MaxInt64, math.MaxInt64 - 1, math.MaxUint32, math.MaxInt32, 1 << 16, 1 << 32}[-2-n]
				}
				opts = append(opts, xtask.WithRetry(n))
			}
			attempts, running := 0, 0
			var errs []error
			ok := false
			err := xtask.DoWithRetry(func() error {
				if ok {
					Failf("retry", "another attempt after a success")
				}
				if running != 0 {
					Failf("retry", "two attempts at the same time")
				}
				running++
				attempts++
				core.Yield()
				if op.C == 1 {
					time.Sleep(time.Millisecond)
				}
				running--
				if attempts > op.B {
					ok = true
					return nil
				}
				e := fmt.Errorf("error-%d-%d-attempt-%d", i, j, attempts)
				switch op.C {
				case 2: // always the same text
					e = fmt.Errorf("same-error-%d", i)
				case 3: // errors that mean something elsewhere
					e = []error{io.EOF, context.Canceled, context.DeadlineExceeded, io.ErrUnexpectedEOF, errCustomCtx}[attempts%5]
				case 4: // the same error value, in runs
					e = []error{io.EOF, errCustomCtx, errCustomCtx}[attempts%3]
				case 5: // errors that cannot be compared, wrap others or have odd texts
					switch attempts % 4 {
					case 0:
						e = sliceErr{"a", fmt.Sprint(attempts)}
					case 1:
						e = fmt.Errorf("%w %%d %d", context.Canceled, attempts)
					case 2:
						e = errors.New("")
					case 3:
						e = errors.New(" é ")
					}
				case 6: // pointers, nil ones too: what they point to is nobody's business
					switch attempts % 3 {
					case 0:
						e = (*ptrErr)(nil)
					case 1:
						e = &ptrErr{}
					case 2:
						e = funcErr(nil)
					}
				}
				errs = append(errs, e)
				core.Count("fault.callback_error")
				return e
			}, opts...)
			if running != 0 {
				Failf("retry", "returned while an attempt is running")
			}
			if attempts-1 > n {
				Failf("retry", "%d attempts with a retry count of %d", attempts, n)
			}
			if op.B <= n { // attempt op.B+1 succeeds
				if err != nil || attempts != op.B+1 {
					Failf("retry", "attempt %d succeeds, with a retry count of %d; %d attempts made, result %v", op.B+1, n, attempts, err)
				}
				continue
			}
			if attempts-1 != n {
				Failf("retry", "%d attempts made with a retry count of %d and no success", attempts, n)
			}
			if err == nil {
				Failf("retry", "every attempt failed, but the result is nil")
			}
			if len(errs) == 1 && !sameErr(err, errs[0]) {
				Failf("retry", "the only attempt failed with %v, the result is %v", errs[0], err)
			}
			lines := strings.Split(err.Error(), "\n")
			k := 0
			for _, l := range lines {
				if k < len(errs) && l == errs[k].Error() {
					k++
				}
			}
			if k != len(errs) {
				Failf("retry", "attempt errors %v are not all listed, in order and one per line, in %q", errs, err.Error())
			}
		}
	})
}

// ---------------------------------------------------------------- C17, C18: worker pool

type submission struct {
	id              int
	cx              *ctxPlan
	done            <-chan struct{}
	op              Op
	pre             bool
	runs, cbs       int
	executing       bool
	started         bool
	ended           bool
	cbEnded         bool
	submitting      bool
	submitted       bool
	liveAfterwards  bool
	doneAtSubmitEnd bool
}

// ops: "run" A: yields, B: sleep ms (6: gate), C: ctx kind; "cancel" A,B: delay, C: which submission
func genWorker(r *R) *Plan {
	p := NewPlan()
	p.P["size"] = r.Pick(1, 1, 2, 2, 3, 4, 7)
	kmax, all := 4, false // all: every function waits for the gate
	if m := r.Many(0); m > 0 {
		if kmax = m / 3; kmax > 150 {
			kmax = 150
		}
		p.P["size"] = r.Pick(1, 4, 9, 16, 40, 130, 257, 300)
		if all = r.P(1, 2); all {
			kmax = p.P["size"]/2 + 20
		}
	}
	if r.P(1, 4) {
		p.P["beside"] = r.Pick(p.P["size"], p.P["size"], 1, 3)
	}
	for n := r.In(1, 4); n > 0; n-- {
		var c []Op
		for k := r.In(1, kmax); k > 0; k-- {
			o := Op{K: "run", A: r.Small(8), C: r.Pick(0, 0, 1, 1, 1, 2, 3, 4, 6, 7, 8, 9)}
			if r.P(1, 2) {
				o.B = r.Pick(1, 2, 3, 6, 6, 40, 7000)
			}
			if all {
				o.B = 6
			}
			if r.P(1, 5) {
				o.C += 100 // panics if it is still there when its context is done and its callback has run
			}
			c = append(c, o)
		}
		p.C = append(p.C, c)
	}
	for n := r.Small(3); n > 0; n-- {
		var c []Op
		for k := r.In(1, 3); k > 0; k-- {
			o := Op{K: "cancel", A: r.Small(30), C: r.N(8)}
			if r.P(1, 4) {
				o.B = napMs(r, 3)
			}
			c = append(c, o)
		}
		p.C = append(p.C, c)
	}
	return p
}

func isDone(c <-chan struct{}) bool {
	select {
	case <-c:
		return true
	default:
		return false
	}
}

func runWorker(p *Plan) {
	size := p.Get("size", 1, 400)
	w := xworker.NewWorker(size)
	mobWorker(p)
	wearWorker(p, w, size)
	gate := make(chan struct{})
	var subs []*submission
	n := len(p.C)
	liveExec := func() int {
		k := 0
		core.Atomically(func() {
			for _, s := range subs {
				// Err may block while a cancellation is under way (it waits for Done to be
				// closed); a look at Done never does, and no slot is given up before Done.
				if s.executing && !isDone(s.done) {
					k++
				}
			}
		})
		return k
	}
	occupied := func() int {
		k := 0
		for _, s := range subs {
			if s.started && !s.cbEnded {
				k++
			}
		}
		return k
	}
	// every context exists before the clients start
	var ctxs []*ctxPlan
	at := make([][]*ctxPlan, n)
	for i, c := range p.C {
		for _, op := range c {
			var cx *ctxPlan
			if op.K == "run" {
				cx = makeCtx(op.C%100, 2)
				cx.ctx.Done()
				ctxs = append(ctxs, cx)
			}
			at[i] = append(at[i], cx)
		}
	}
	background := makeCtx(0, 0)
	// another pool, of the same size or of another, whose functions all wait until the end
	beside, besideRuns, besideCbs := p.Get("beside", 0, 400), 0, 0
	besideGate := make(chan struct{})
	if beside > 0 {
		v := xworker.NewWorker(beside)
		for i := 0; i < beside; i++ {
			v.Run(background.ctx, func() {
				besideRuns++
				<-besideGate
			}, func() { besideCbs++ })
		}
	}
	submit := func(op Op, cx *ctxPlan) *submission {
		s := &submission{id: len(subs), op: op, cx: cx, done: cx.ctx.Done()}
		subs = append(subs, s)
		s.pre = s.cx.ctx.Err() != nil
		s.submitting = true
		ctx := s.cx.ctx
		w.Run(ctx, func() {
			s.runs++
			if s.runs > 1 {
				failAs("C18", "run-twice", "the function of submission %d runs again", s.id)
			}
			s.executing = true
			if s.cbs == 0 {
				s.started = true
			}
			if k := liveExec(); k > size {
				failAs("C17", "over-size", "%d functions with live contexts execute in a pool of size %d", k, size)
			}
			if k := occupied(); k > size {
				failAs("C18", "slot-reuse", "a function starts while %d submissions hold slots of a pool of size %d: a slot was given away before its completion callback ran", k-1, size)
			}
			for k := 0; k <= op.A; k++ {
				core.Yield()
			}
			if op.B == 6 {
				<-gate
			} else if op.B > 0 {
				time.Sleep(time.Duration(op.B) * time.Millisecond)
			}
			s.executing = false
			s.ended = true
			if op.C >= 100 && s.cbEnded {
				core.Count("fault.late_panic")
				panic("late")
			}
		}, func() {
			s.cbs++
			if s.cbs > 1 {
				failAs("C18", "callback-twice", "the completion callback of submission %d runs again", s.id)
			}
			if ctx.Err() == nil && !s.ended {
				failAs("C18", "callback-early", "the completion callback of submission %d runs before its function ended although the context is live", s.id)
			}
			core.Yield()
			core.Yield()
			s.cbEnded = true
		})
		s.submitting = false
		s.submitted = true
		return s
	}
	checkBlocked := func() {
		e := liveExec()
		for _, s := range subs {
			if s.submitting && e < size {
				failAs("C17", "slot-lost", "submission %d waits although only %d functions execute in a pool of size %d; blocked: %s", s.id, e, size, BlockedText())
			}
		}
	}
	Parallel(n, func(i int) {
		for j, op := range p.C[i] {
			switch op.K {
			case "run":
				submit(op, at[i][j])
			case "cancel":
				nap(op)
				if op.C < len(ctxs) {
					ctxs[op.C].cancel()
				}
			}
		}
	})
	checkBlocked()
	for i := 0; i < len(subs); i += 2 {
		if subs[i].op.C%100 != 0 {
			subs[i].cx.cancel()
			core.WaitQuiet()
			checkBlocked()
		}
	}
	close(gate)
	core.WaitQuiet()
	for _, s := range subs {
		if s.submitting {
			failAs("C17", "slot-lost", "submission %d still waits although every function has ended; blocked: %s", s.id, BlockedText())
		}
		if s.cbs != 1 {
			failAs("C18", "callback-count", "the completion callback of submission %d ran %d times", s.id, s.cbs)
		}
		if s.pre && s.runs > 0 {
			failAs("C18", "ran-after-done", "the function of submission %d ran although its context was done before the submission", s.id)
		}
		if s.cx.ctx.Err() == nil && s.runs != 1 {
			failAs("C18", "not-run", "the function of submission %d ran %d times although its context is live", s.id, s.runs)
		}
	}
	// the full size is available again
	gate = make(chan struct{})
	core.Go("refill", func() {
		for i := 0; i < size+1; i++ {
			submit(Op{K: "run", B: 6}, background)
		}
	})
	core.WaitQuiet()
	if e := liveExec(); e != size {
		failAs("C17", "slot-lost", "afterwards only %d functions can execute in a pool of size %d", e, size)
	}
	close(gate)
	core.WaitQuiet()
	if e := liveExec(); e != 0 {
		failAs("C17", "stuck", "%d functions still execute", e)
	}
	if beside == 0 {
		return
	}
	if besideRuns != beside {
		failAs("C17", "slot-lost", "in another pool of size %d only %d functions execute", beside, besideRuns)
	}
	if besideCbs > 0 {
		failAs("C18", "callback-early", "in another pool %d completion callbacks ran although no function has ended", besideCbs)
	}
	close(besideGate)
	core.WaitQuiet()
	if besideCbs != beside {
		failAs("C18", "callback-count", "in another pool of %d completion callbacks %d ran", beside, besideCbs)
	}
}

// ---------------------------------------------------------------- C19, C20: mapreduce

// C[0]: generator naps per item; C[1..n]: per item the naps before each write (one op per write);
// last: consumer naps.
func genMR(cancel bool) func(r *R) *Plan {
	return func(r *R) *Plan {
		p := NewPlan()
		p.P["workers"] = r.Pick(0, 1, 1, 2, 2, 3, 4)
		items := r.Small(8)
		if p.P["workers"] == 0 && r.P(1, 3) {
			items = r.In(17, 24)
		}
		if r.P(1, 30) {
			p.P["workers"] = r.Pick(5, 9, 16, 17, 20)
			items = r.In(0, 60)
		}
		if m := r.Many(0); m > 0 {
			items = r.In(0, m)
			if r.P(1, 3) {
				p.P["workers"] = r.Pick(64, 65, 130, 300)
			}
		}
		if r.P(1, 60) || cancel && r.P(1, 25) {
			p.P["more"] = r.Pick(300, 1100, 1100, 5000)
			if r.P(1, 10) && !r.Race {
				p.P["more"] = r.Pick(9000, 20000, 70000)
			}
		}
		p.P["nest"] = r.Pick(0, 0, 0, 0, 1, 2, 3) // further maps inside the functions
		p.P["nilitem"] = r.Pick(0, 0, 0, 1)
		p.P["values"] = r.N(4)            // kinds of values that are written
		p.P["split"] = r.Pick(0, 0, 0, 1) // a map function writes from goroutines of its own
		p.P["stream"] = r.B()
		p.P["ctx"] = r.Pick(0, 1, 7, 8)
		p.P["ms"] = r.In(1, 6)
		if cancel {
			p.P["ctx"] = r.Pick(1, 1, 1, 1, 2, 3, 3, 4, 5, 6, 7, 8, 9)
			p.P["stop"] = r.Pick(0, 0, 1, r.In(2, 8)) // consumer stops reading after stop-1 values
			p.P["bywhom"] = r.Pick(0, 0, 0, 1, 2, 3)
			p.P["at"] = r.N(10)
		}
		rop := func(max int) Op {
			o := Op{K: "nap", A: r.Small(max)}
			if r.P(1, 6) {
				o.B = napMs(r, 4)
			}
			return o
		}
		var g, c []Op
		for i := 0; i < items; i++ {
			g = append(g, rop(4))
		}
		p.C = append(p.C, g)
		for i := 0; i < 4; i++ {
			c = append(c, rop(5))
		}
		p.C = append(p.C, c)
		if cancel {
			p.C = append(p.C, genCancel(r))
		} else {
			p.C = append(p.C, nil)
		}
		for i := 0; i < items; i++ {
			var w []Op
			max := 3
			if items < 10 {
				max = r.Many(3)
			}
			for k := r.Small(max); k > 0; k-- {
				w = append(w, rop(5))
			}
			p.C = append(p.C, w)
		}
		return p
	}
}

// miniMap is a small parallel map beside or inside another one.
func miniMap(n, workers int) {
	sum := 0
	for v := range xmapreduce.Map(context.Background(), func(source chan<- interface{}) {
		for i := 1; i <= n; i++ {
			source <- i
		}
	}, func(item interface{}, writer xbarrier.Writer) {
		core.Yield()
		writer.Write(item)
		writer.Write(item.(int) * 100)
	}, xmapreduce.WithWorkerSize(workers)) {
		sum += v.(int)
	}
	if sum != n*(n+1)/2*101 {
		Failf("lost", "a small map beside the first one delivered values that add up to %d instead of %d", sum, n*(n+1)/2*101)
	}
}

func runMR(p *Plan, cancelling bool) {
	if len(p.C) < 3 {
		return
	}
	wearMR(p)
	mobMR(p)
	gen, cons := p.C[0], p.C[1]
	gen = append(gen[:len(gen):len(gen)], make([]Op, p.Get("more", 0, 100000))...) // further items, offered without a pause
	workers := p.Get("workers", 0, 400)
	size := workers
	var opts []xmapreduce.Option
	if workers == 0 {
		size = 16
	} else {
		opts = append(opts, xmapreduce.WithWorkerSize(workers))
	}
	cx := makeCtx(p.Get("ctx", 0, lastCtxKind), p.Get("ms", 1, 100))
	ctx := cx.ctx
	bywhom, at := p.Get("bywhom", 0, 3), p.Get("at", 0, 100)
	strike := func(who, n int) {
		if cancelling && bywhom == who && n == at {
			cx.cancel()
		}
	}
	nItems := len(gen)
	starts := make([]int, nItems)
	ended := make([]bool, nItems)
	late := make([]bool, nItems) // the item was offered after the context was done
	okw := make([][]int, nItems)
	lateTrue := -1
	running, mapped, written := 0, 0, 0
	genDone := false
	var got []int
	var out <-chan interface{}
	values, split, nilItem := p.Get("values", 0, 3), p.On("split"), p.On("nilitem")
	value := func(id int) interface{} {
		switch values * id % 7 {
		case 1:
			return fmt.Sprint(id)
		case 2:
			return [1]int{id}
		case 3:
			return nil
		case 4:
			return []interface{}{id}
		}
		return id
	}
	ident := func(v interface{}) int {
		switch x := v.(type) {
		case int:
			return x
		case string:
			n := 0
			for _, c := range []byte(x) {
				n = n*10 + int(c-'0')
			}
			return n
		case [1]int:
			return x[0]
		case []interface{}:
			return x[0].(int)
		}
		return -1
	}
	nest := p.Get("nest", 0, 3)
	generate := func(source chan<- interface{}) {
		if nest == 1 {
			miniMap(3, 2)
		}
		for i, op := range gen {
			nap(op)
			strike(1, i)
			late[i] = ctx.Err() != nil
			if i == 0 && nilItem {
				source <- nil
			} else {
				source <- i
			}
		}
		genDone = true
	}
	mapf := func(item interface{}, writer xbarrier.Writer) {
		i := 0
		if item != nil || !nilItem {
			i = item.(int)
		}
		starts[i]++
		running++
		mapped++
		if starts[i] > 1 {
			Failf("mapped-twice", "item %d is mapped again", i)
		}
		if late[i] {
			Failf("map-after-done", "item %d, taken after the context was done, is mapped", i)
		}
		if running > size && ctx.Err() == nil {
			Failf("over-size", "%d map functions run with %d workers", running, size)
		}
		strike(2, mapped)
		if nest == 2 && i < 3 {
			miniMap(2, 1+i)
		}
		if 3+i < len(p.C) {
			write := func(k int, op Op) {
				nap(op)
				pre := ctx.Err() != nil
				ok := writer.Write(value(i*idBase + k))
				if ok {
					if pre {
						lateTrue = i*idBase + k
					}
					okw[i] = append(okw[i], i*idBase+k)
				} else if ctx.Err() == nil {
					Failf("write-failed", "a write reported false although the context is live")
				}
				written++
			}
			if split {
				writes := p.C[3+i]
				var wg sync.WaitGroup
				for k := range writes {
					k := k
					wg.Add(1)
					go func() {
						defer wg.Done()
						write(k, writes[k])
					}()
				}
				wg.Wait()
			} else {
				for k, op := range p.C[3+i] {
					write(k, op)
				}
			}
		}
		core.Yield()
		running--
		ended[i] = true
	}
	closed := false
	stop := p.Get("stop", 0, 1000)
	read := func(limit int) {
		for k := 0; limit < 0 || k < limit; k++ {
			if len(cons) > 0 {
				nap(cons[k%len(cons)])
			}
			strike(3, k)
			v, ok := <-out
			if !ok {
				closed = true
				return
			}
			got = append(got, ident(v))
		}
	}
	if p.On("stream") {
		out = xmapreduce.MapStream(ctx, generate, mapf, opts...).Chan()
	} else {
		out = xmapreduce.Map(ctx, generate, mapf, opts...)
	}
	if nest == 3 {
		core.Go("other", func() { miniMap(4, size) })
	}
	if cancelling {
		core.Go("canceller", func() {
			if bywhom != 0 {
				return
			}
			for _, op := range p.C[2] {
				nap(op)
			}
			cx.cancel()
		})
	}
	core.Go("consumer", func() {
		if stop > 0 {
			read(stop - 1)
		} else {
			read(-1)
		}
	})
	core.WaitQuiet()
	if cancelling {
		if ctx.Err() == nil {
			cx.cancel()
			core.WaitQuiet()
		}
		if !genDone {
			Failf("generator-stuck", "the generator is blocked forever after the context was done; blocked: %s", BlockedText())
		}
		for i := range starts {
			if starts[i] > 0 && !ended[i] {
				Failf("worker-stuck", "the map function of item %d is blocked forever after the context was done; blocked: %s", i, BlockedText())
			}
		}
		for !closed {
			select {
			case v, ok := <-out:
				if !ok {
					closed = true
				} else {
					got = append(got, ident(v))
				}
			default:
				Failf("not-closed", "the output is not closed although the context is done and generator and map functions have returned; blocked: %s", BlockedText())
			}
		}
		if lateTrue >= 0 {
			Failf("write-after-done", "the write of %d started after the context was done and reported true", lateTrue)
		}
	} else {
		if !closed {
			Failf("stuck", "the output was never closed; blocked: %s", BlockedText())
		}
		for i := range starts {
			if starts[i] != 1 {
				Failf("mapped-count", "item %d was mapped %d times", i, starts[i])
			}
		}
	}
	cnt := map[int]int{}
	nils := 0 // delivered nil values, counted as a whole
	for _, v := range got {
		if v == -1 {
			nils++
			continue
		}
		cnt[v]++
		if cnt[v] > 1 {
			Failf("delivered-twice", "%d appears twice in the output", v)
		}
	}
	total := 0
	for i := range okw {
		for _, v := range okw[i] {
			total++
			if value(v) == nil {
				nils--
				continue
			}
			if cnt[v] == 0 && !cancelling {
				Failf("lost", "the write of %d reported success but the value is not in the output", v)
			}
			if cnt[v] > 0 {
				cnt[v] = -1
			}
		}
	}
	if nils > 0 {
		Failf("invented", "%d more nil values are in the output than were written with success", nils)
	}
	if nils < 0 && !cancelling {
		Failf("lost", "%d nil values were written with success, but are not in the output", -nils)
	}
	for v, c := range cnt {
		if c > 0 {
			Failf("invented", "%d is in the output although its write did not report success", v)
		}
	}
	if !cancelling && size == 1 && !split {
		var want []int
		for _, w := range okw {
			for _, v := range w {
				want = append(want, ident(value(v)))
			}
		}
		for k := range got {
			if len(got) != len(want) || got[k] != want[k] {
				Failf("order", "one worker, but the output is %v instead of %v", got, want)
			}
		}
	}
	if !cancelling {
		cx.cancel()
		core.WaitQuiet()
	}
	NoLeak("leak")
}

func noEarly(r *R, p *Plan, c *core.Config) {
	if p.On("early") {
		c.TimerEarly = 30
	} else {
		c.TimerEarly, c.Jump = 0, 0
	}
	for _, ops := range p.C {
		for _, o := range ops {
			if o.A > 70000 {
				c.NoDaemonTimers = true
			}
		}
	}
}

func moreSteps(r *R, p *Plan, c *core.Config) { c.MaxSteps += 200 * p.P["more"] }

func init() {
	Register(worn(100, 100, &Scenario{Prop: "C13", Name: "do", Gen: genDo(false), Run: judge("C13", runDo), Cfg: crowdCfg}))
	Register(worn(100, 100, &Scenario{Prop: "C14", Name: "do", Gen: genDo(true), Run: judge("C14", runDo), Cfg: crowdCfg}))
	Register(worn(100, 100, &Scenario{Prop: "C15", Name: "timeout", Gen: genTimeout, Run: judge("C15", runTimeout), Cfg: func(r *R, p *Plan, c *core.Config) { noEarly(r, p, c); crowdCfg(r, p, c) }}))
	Register(mobbed(150, 200, &Scenario{Prop: "C16", Name: "retry", Gen: genRetry, Run: runRetry}))
	Register(worn(100, 100, mobbed(150, 100, &Scenario{Prop: "C17", Name: "pool", Gen: genWorker, Run: judge("C17", runWorker)})))
	Register(worn(100, 100, mobbed(150, 100, &Scenario{Prop: "C18", Name: "pool", Gen: genWorker, Run: judge("C18", runWorker)})))
	Register(worn(100, 100, mobbed(150, 150, &Scenario{Prop: "C19", Name: "map", Gen: genMR(false), Run: func(p *Plan) { runMR(p, false) }, Cfg: moreSteps})))
	Register(worn(100, 100, mobbed(150, 150, &Scenario{Prop: "C20", Name: "cancel", Gen: genMR(true), Run: func(p *Plan) { runMR(p, true) }, Cfg: moreSteps})))
}

func allEnded(calls []*doCall) bool {
	for _, c := range calls {
		if c.runs > 0 && !c.ended {
			return false
		}
	}
	return true
}

// Scenarios shared by several properties report only what concerns the property being decided.
var judged string

func judge(prop string, run func(p *Plan)) func(p *Plan) {
	return func(p *Plan) {
		judged = prop
		run(p)
	}
}

func judging(props string) bool { return strings.Contains(props, judged) }

func failAs(props, class, format string, a ...interface{}) {
	if judging(props) {
		Failf(class, format, a...)
	}
}
