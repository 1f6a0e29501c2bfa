package main

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"math"
	"strings"
	"unsafe"

	"github.com/chenquan/go-pkg/xbinary"
	"github.com/chenquan/go-pkg/xbytes"
	"github.com/chenquan/go-pkg/xio"
	"github.com/chenquan/go-pkg/xring"
	"verif.local/vsim/core"
	. "verif.local/vsim/fw"
)

// ---------------------------------------------------------------- C21 byte pool

type liveBuf struct {
	lo, hi uintptr
	live   bool
	b      []byte // keeps the memory from being reused by the garbage collector
}

// ops: "alloc" A: size, B: capacity; "free" A: which of the own buffers, B: how it was resliced;
// "foreign": free a slice that was not allocated by the pool; "check".
func genBytes(r *R) *Plan {
	p := NewPlan()
	hot := []int{r.N(40), r.N(40), r.Pick(0, 1, 2, 4, 64, 1024, 4096)}
	if r.P(1, 10) {
		// big sizes, close to one another
		b := r.Pick(100, 999, 4096, 8192, 32768, 55300, 57300, 65535, 65536, 99999, 131072, 1000000, 1114112, 1<<20, 1<<21)
		for i := range hot {
			hot[i] = b + r.Pick(-1, 0, 1, r.N(20))
		}
	}
	if r.P(1, 25) {
		// sizes that agree in their low bits
		b := r.Pick(0, 1, 7, 64, 100, 255)
		for i := range hot {
			hot[i] = b + i*r.Pick(256, 1024, 4096, 65536, 1<<17)
		}
	}
	size := func() int {
		if r.P(3, 4) {
			return hot[r.N(3)]
		}
		return r.Small(70)
	}
	for n := r.In(1, 4); n > 0; n-- {
		var c []Op
		kmax := 10
		if hot[0] <= 70 {
			kmax = r.Many(10)
		}
		for k := r.In(2, kmax); k > 0; k-- {
			switch r.N(9) {
			case 0, 1, 2, 3:
				s := size()
				o := Op{K: "alloc", A: s, B: r.Pick(0, s, s, hot[0], hot[1], size(), r.Pick(-1, -7, math.MinInt64))}
				c = append(c, o)
			case 4, 5, 6:
				c = append(c, Op{K: "free", A: r.N(4), B: r.Pick(0, 0, 0, 1, 2, 3, 4)})
			case 7:
				c = append(c, Op{K: "foreign", A: size()})
			case 8:
				c = append(c, Op{K: "allocSize", A: size()})
			}
		}
		p.C = append(p.C, c)
	}
	return p
}

func span(b []byte) (uintptr, uintptr) {
	if cap(b) == 0 {
		return 0, 0
	}
	p := uintptr(unsafe.Pointer(&b[:1][0]))
	return p, p + uintptr(cap(b))
}

func fill(b []byte, tag int) {
	b = b[:cap(b)]
	for i := 0; i < len(b); i += stride(i, len(b)) {
		b[i] = byte(tag*31 + i)
	}
}

// stride looks at every byte of small buffers, at both ends and samples of big ones.
func stride(i, n int) int {
	if n > 2000 && i >= 200 && i < n-1200 {
		return 997
	}
	return 1
}

func intact(b []byte, tag int) bool {
	b = b[:cap(b)]
	for i := 0; i < len(b); i += stride(i, len(b)) {
		if b[i] != byte(tag*31+i) {
			return false
		}
	}
	return true
}

func runBytes(p *Plan) {
	type own struct {
		b   []byte
		tag int
		l   *liveBuf
	}
	var live []*liveBuf
	tags := 0
	claim := func(b []byte) *liveBuf {
		lo, hi := span(b)
		for _, l := range live {
			if l.live && lo < l.hi && l.lo < hi {
				Failf("shared-buffer", "a buffer that is still owned is handed out again")
			}
		}
		l := &liveBuf{lo, hi, true, b}
		live = append(live, l)
		return l
	}
	wearBytes(p)
	mobBytes(p)
	MustFinish("stuck", len(p.C), func(i int) {
		var mine []own
		check := func() {
			for _, o := range mine {
				if !intact(o.b, o.tag) {
					Failf("changed-buffer", "the contents of an owned buffer changed")
				}
			}
		}
		for _, op := range p.C[i] {
			if op.A < 0 || op.B < 0 && op.K != "alloc" {
				continue
			}
			switch op.K {
			case "alloc", "allocSize":
				want := op.A
				var b []byte
				if op.K == "alloc" {
					b = xbytes.Malloc(op.A, op.B)
					if op.B > want {
						want = op.B
					}
				} else {
					b = xbytes.MallocSize(op.A)
				}
				if len(b) != op.A || cap(b) != want {
					Failf("size", "requested length %d and capacity %d, got length %d and capacity %d", op.A, want, len(b), cap(b))
				}
				l := claim(b)
				tags++
				fill(b, tags)
				mine = append(mine, own{b, tags, l})
			case "free", "foreign":
				var o own
				if op.K == "foreign" {
					o.b = make([]byte, op.A)
				} else {
					if len(mine) == 0 {
						continue
					}
					k := op.A % len(mine)
					o = mine[k]
					var rest []own
					for j := range mine {
						if j != k {
							rest = append(rest, mine[j])
						}
					}
					mine = rest
					if !intact(o.b, o.tag) {
						Failf("changed-buffer", "the contents of an owned buffer changed")
					}
					o.l.live = false
				}
				b := o.b
				switch op.B {
				case 1:
					b = b[:0]
				case 2:
					b = b[:cap(b)]
				case 3:
					b = b[:len(b)/2]
				case 4: // a tail of the buffer is freed, the head is given up
					b = b[len(b)/2:]
				}
				xbytes.Free(b)
			}
			core.Yield()
			check()
		}
	})
}

// ---------------------------------------------------------------- C22, C23 binary codec

// value ops: K bool/u16/u32/bytes, A: value or length, B: seed of the content
func genValues(r *R, max int) []Op {
	var c []Op
	for k := r.In(1, r.Many(max)); k > 0; k-- {
		switch r.N(6) {
		case 0:
			c = append(c, Op{K: "bool", A: r.B()})
		case 1:
			c = append(c, Op{K: "u16", A: r.Pick(0, 1, 255, 256, 0x1234, 0xff00, 0xffff, r.N(1<<16))})
		case 2, 3:
			c = append(c, Op{K: "u32", A: r.Pick(0, 1, 255, 256, 65535, 65536, 0x12345678, 0xff000000, 0xffffffff, r.N(1<<32))})
		default:
			n := r.Pick(0, 1, 2, 4, r.Small(20), r.Small(300))
			if r.P(1, 60) {
				n = r.Pick(255, 256, 257, 65534, 65535, r.N(65536))
			}
			c = append(c, Op{K: "bytes", A: n, B: r.N(1000)})
		}
	}
	return c
}

func content(op Op) []byte {
	n := op.A
	if n < 0 {
		n = 0
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(op.B + i*7)
	}
	return b
}

func encode(ops []Op) []byte {
	var out []byte
	for _, op := range ops {
		switch op.K {
		case "bool":
			out = append(out, byte(op.A&1))
		case "u16":
			out = append(out, byte(op.A>>8), byte(op.A))
		case "u32":
			out = append(out, byte(op.A>>24), byte(op.A>>16), byte(op.A>>8), byte(op.A))
		case "bytes":
			c := content(op)
			out = append(out, byte(len(c)>>8), byte(len(c)))
			for _, b := range c {
				out = append(out, b)
			}
		}
	}
	return out
}

var errDisk = errors.New("injected read or write failure")

// simWriter accepts bytes slowly and fails when its quota is used up, or once at one call.
type simWriter struct {
	got      []byte
	quota    int // -1: unlimited
	calls    int
	err      error
	fails    int
	failCall int // this call (from 1) fails ...
	failHow  int // ... after taking 0: nothing, 1: half, 2: everything
}

func (w *simWriter) Write(p []byte) (int, error) {
	w.calls++
	n, end := 0, len(p)
	if w.calls == w.failCall {
		end = len(p) * w.failHow / 2
	}
	for n < end {
		if w.quota >= 0 && len(w.got) >= w.quota {
			w.fails++
			core.Count("fault.write_error")
			return n, w.err
		}
		if n == 0 || n == len(p)/2 {
			core.Yield() // other users of the pools run while the bytes are still in the codec's buffer
		}
		w.got = append(w.got, p[n])
		n++
	}
	if w.calls == w.failCall {
		core.Yield()
		w.fails++
		core.Count("fault.write_error_once")
		return n, w.err
	}
	return n, nil
}

// tempErr is an error of the kind that networks call temporary.
type tempErr struct{}

func (tempErr) Error() string   { return "injected temporary failure" }
func (tempErr) Temporary() bool { return true }
func (tempErr) Timeout() bool   { return true }

// simReader delivers data in fragments and ends with err: together with the last bytes if joined.
type simReader struct {
	data    []byte
	pos     int
	frag    []int
	k       int
	err     error
	joined  bool
	zeros   int
	closed  bool
	failAt  int // the read at this position fails once with failErr, if not nil
	failErr error
	failed  bool
}

func (r *simReader) Read(p []byte) (int, error) {
	core.Yield()
	if r.closed {
		Failf("used-after-put", "a reader that was given back reads its source again")
	}
	if r.failErr != nil && !r.failed && r.pos >= r.failAt {
		r.failed = true
		core.Count("fault.read_error_once")
		return 0, r.failErr
	}
	if r.pos >= len(r.data) {
		if r.err != io.EOF {
			core.Count("fault.read_error")
		}
		return 0, r.err
	}
	n := len(p)
	if len(r.frag) > 0 {
		f := r.frag[r.k%len(r.frag)]
		r.k++
		if f < 0 {
			f = 0
		}
		if f == 0 && r.zeros < 20 && len(p) > 0 {
			r.zeros++
			core.Count("fault.zero_length_read")
			return 0, nil
		}
		if f == 0 {
			f = 1
		}
		// Long streams come in proportionally longer pieces, or a run would spend
		// all its steps on one byte string.
		if k := (len(r.data) - r.pos) / 256; k > 1 {
			f *= k
		}
		if f < n {
			n = f
			core.Count("fault.short_read")
		}
	}
	if n > len(r.data)-r.pos {
		n = len(r.data) - r.pos
	}
	if r.failErr != nil && !r.failed && r.pos+n > r.failAt {
		n = r.failAt - r.pos
	}
	for i := 0; i < n; i++ {
		p[i] = r.data[r.pos+i]
	}
	r.pos += n
	if r.joined && r.pos == len(r.data) {
		core.Count("fault.data_with_error")
		return n, r.err
	}
	return n, nil
}

// Streams come as all sorts of types, with more methods than a codec needs, which it may use or not.
type byteReader struct {
	*simReader
	canUnread bool
}

func (r *byteReader) Read(p []byte) (int, error) {
	r.canUnread = false
	return r.simReader.Read(p)
}

func (r *byteReader) ReadByte() (byte, error) {
	var b [1]byte
	for {
		n, err := r.simReader.Read(b[:])
		if n == 1 {
			r.canUnread = true
			return b[0], nil // an error that came with it comes again
		}
		if err != nil {
			r.canUnread = false
			return 1, err
		}
	}
}

func (r *byteReader) UnreadByte() error {
	if !r.canUnread {
		return bufio.ErrInvalidUnreadByte
	}
	r.canUnread = false
	r.pos--
	return nil
}

func (r *byteReader) WriteTo(w io.Writer) (int64, error) {
	return io.Copy(w, struct{ io.Reader }{r.simReader})
}

type byteWriter struct{ *simWriter }

func (w byteWriter) WriteByte(c byte) error            { _, err := w.Write([]byte{c}); return err }
func (w byteWriter) WriteString(s string) (int, error) { return w.Write([]byte(s)) }
func (w byteWriter) ReadFrom(r io.Reader) (int64, error) {
	return io.Copy(struct{ io.Writer }{w.simWriter}, r)
}

// stream is a reader of some type and the number of bytes taken from it so far.
type stream struct {
	r     io.Reader
	taken func() int
	reuse func() // uses whatever memory the stream has for something else
}

const nStreams = 7

func shapeReader(kind int, s *simReader) stream {
	data := s.data
	none := func() {}
	switch kind {
	case 1:
		return stream{&byteReader{simReader: s}, func() int { return s.pos }, none}
	case 2:
		b := bufio.NewReaderSize(s, 16)
		return stream{b, func() int { return s.pos - b.Buffered() }, func() {
			b.Reset(strings.NewReader(strings.Repeat("#", 16)))
			_, _ = b.Peek(16)
		}}
	case 3:
		b := bytes.NewBuffer(append([]byte(nil), data...))
		return stream{b, func() int { return len(data) - b.Len() }, func() {
			b.Reset()
			b.WriteString(strings.Repeat("#", len(data)))
		}}
	case 4:
		d := append([]byte(nil), data...)
		b := bytes.NewReader(d)
		return stream{b, func() int { return len(data) - b.Len() }, func() {
			for i := range d {
				d[i] = '#'
			}
		}}
	case 5:
		b := strings.NewReader(string(data))
		return stream{b, func() int { return len(data) - b.Len() }, none}
	case 6:
		b := bufio.NewReader(s)
		return stream{b, func() int { return s.pos - b.Buffered() }, func() {
			b.Reset(strings.NewReader(strings.Repeat("#", 4096)))
			_, _ = b.Peek(4096)
		}}
	}
	return stream{s, func() int { return s.pos }, none}
}

const nSinks = 5

// shapeWriter returns a writer of some type and a function that brings everything to s.
func shapeWriter(kind int, s *simWriter) (io.Writer, func()) {
	switch kind {
	case 1:
		return byteWriter{s}, func() {}
	case 2:
		b := bufio.NewWriterSize(s, 16)
		return b, func() { _ = b.Flush() }
	case 3:
		b := &bytes.Buffer{}
		return b, func() { s.got = b.Bytes() }
	case 4:
		b := &strings.Builder{}
		return b, func() { s.got = []byte(b.String()) }
	}
	return s, func() {}
}

func genCodec(r *R) *Plan {
	p := NewPlan()
	for n := r.In(1, 3); n > 0; n-- {
		i := len(p.C)
		p.C = append(p.C, genValues(r, 6))
		var f []int
		switch r.N(5) {
		case 0:
		case 1:
			f = []int{1}
		case 2:
			f = []int{0, 1, 2}
		default:
			for k := r.In(1, 8); k > 0; k-- {
				f = append(f, r.Pick(0, 1, 1, 2, 3, 5, 100, 70000))
			}
		}
		p.V[fmt.Sprint("frag", i)] = f
		p.P[fmt.Sprint("joined", i)] = r.B()
		// C23
		p.P[fmt.Sprint("cut", i)] = r.N(1000)
		p.P[fmt.Sprint("err", i)] = r.N(6)
		p.P[fmt.Sprint("quota", i)] = r.N(1000)
		p.P[fmt.Sprint("call", i)] = r.N(9)
		p.P[fmt.Sprint("how", i)] = r.N(3)
		if r.P(1, 2) {
			p.P[fmt.Sprint("stream", i)] = r.N(nStreams)
			p.P[fmt.Sprint("sink", i)] = r.N(nSinks)
		}
	}
	p.P["mode"] = r.Pick(0, 0, 1, 1, 3, 2)
	p.P["over"] = r.Pick(65536, 65536, 65537, 65536+r.N(10), 65536+r.N(70000), 131072, 65536*2+3)
	return p
}

func writeValue(w io.Writer, op Op) error {
	switch op.K {
	case "bool":
		return xbinary.WriteBool(w, op.A&1 == 1)
	case "u16":
		return xbinary.WriteUint16(w, uint16(op.A))
	case "u32":
		return xbinary.WriteUint32(w, uint32(op.A))
	}
	return xbinary.WriteBytes(w, content(op))
}

// readValue returns whether the value equals op's and whether it is the zero value.
func readValue(r io.Reader, op Op) (same, zero bool, err error, raw []byte, text string) {
	switch op.K {
	case "bool":
		v, e := xbinary.ReadBool(r)
		return v == (op.A&1 == 1), !v, e, nil, fmt.Sprint(v)
	case "u16":
		v, e := xbinary.ReadUint16(r)
		return v == uint16(op.A), v == 0, e, nil, fmt.Sprint(v)
	case "u32":
		v, e := xbinary.ReadUint32(r)
		return v == uint32(op.A), v == 0, e, nil, fmt.Sprint(v)
	}
	v, e := xbinary.ReadBytes(r)
	return bytes.Equal(v, content(op)), v == nil, e, v, fmt.Sprintf("%d bytes", len(v))
}

func runCodec(p *Plan) {
	wearCodec(p)
	mobCodec(p)
	MustFinish("stuck", len(p.C), func(i int) {
		ops := p.C[i]
		w := &simWriter{quota: -1}
		sink, flush := shapeWriter(p.Get(fmt.Sprint("sink", i), 0, nSinks-1), w)
		for _, op := range ops {
			if err := writeValue(sink, op); err != nil {
				Failf("codec", "writing %v failed: %v", op, err)
			}
		}
		flush()
		if want := encode(ops); !bytes.Equal(w.got, want) {
			Failf("encoding", "values %v are encoded as % x, want % x", ops, cut(w.got), cut(want))
		}
		r := &simReader{data: w.got, frag: p.V[fmt.Sprint("frag", i)], err: io.EOF, joined: p.On(fmt.Sprint("joined", i))}
		src := shapeReader(p.Get(fmt.Sprint("stream", i), 0, nStreams-1), r)
		type kept struct {
			b  []byte
			op Op
		}
		var keep []kept
		at := 0
		for k := 0; k <= len(ops); k++ {
			if k == len(ops) {
				src.reuse()
				for _, x := range keep {
					if x.b != nil && !bytes.Equal(x.b, content(x.op)) {
						Failf("interference", "a byte string that was read earlier changed when the %T it was read from was used again", src.r)
					}
				}
				break
			}
			op := ops[k]
			at += len(encode([]Op{op}))
			same, _, err, raw, text := readValue(src.r, op)
			if err != nil {
				Failf("codec", "value %d (%v) of a complete stream: %v", k, op, err)
			}
			if !same {
				Failf("codec", "value %d: wrote %v, read %s", k, op, text)
			}
			if src.taken() != at {
				Failf("codec", "value %d ends at byte %d but the stream was read up to byte %d", k, at, src.taken())
			}
			if raw != nil {
				keep = append(keep, kept{raw, op})
			}
			core.Yield()
			for j, x := range keep {
				if x.b != nil && !bytes.Equal(x.b, content(x.op)) {
					Failf("interference", "a byte string that was read earlier changed")
				}
				if j%2 == 1 && x.b != nil && len(keep) > 2 {
					xbytes.Free(x.b) // the caller is done with it
					keep[j].b = nil
				}
			}
		}
	})
}

func cut(b []byte) []byte {
	if len(b) > 40 {
		return b[:40]
	}
	return b
}

func runFaulty(p *Plan) {
	wearCodec(p)
	mode := p.Get("mode", 0, 3)
	errs := []error{io.EOF, errDisk, io.ErrUnexpectedEOF, tempErr{}, fmt.Errorf("wrapped: %w", io.EOF), io.ErrShortBuffer}
	MustFinish("stuck", len(p.C), func(i int) {
		ops := p.C[i]
		data := encode(ops)
		kind := p.Get(fmt.Sprint("stream", i), 0, nStreams-1)
		n := p.Get(fmt.Sprint("cut", i), 0, 1000) * len(data) / 1000
		// dirty the pools
		for k := -3; k < len(ops); k++ {
			b := xbytes.MallocSize([]int{1, 2, 4}[(k+3)%3])
			if k >= 0 && ops[k].K == "bytes" {
				b = xbytes.MallocSize(len(content(ops[k])))
			}
			for j := range b {
				b[j] = 1
			}
			xbytes.Free(b)
		}
		switch mode {
		case 0: // the stream breaks off
			core.Count("fault.truncated_stream")
			rerr := errs[p.Get(fmt.Sprint("err", i), 0, 5)]
			r := &simReader{data: data[:n], frag: p.V[fmt.Sprint("frag", i)], err: rerr, joined: p.On(fmt.Sprint("joined", i))}
			src := shapeReader(kind, r).r
			if kind >= 3 && kind <= 5 {
				rerr = io.EOF // these know no other
			}
			at := 0
			for k, op := range ops {
				at += len(encode([]Op{op}))
				same, zero, err, _, text := readValue(src, op)
				if at <= n { // complete
					if err == nil && !same {
						Failf("bad-value", "value %d: wrote %v, read %s", k, op, text)
					}
					if err != nil && !(rerr != io.EOF && at == n) {
						Failf("codec", "value %d is complete, but reading it failed: %v", k, err)
					}
					if err != nil {
						return
					}
					continue
				}
				if err == nil {
					Failf("accepted", "value %d (%v) is cut off after byte %d of %d by %v, but read as %s without an error", k, op, n, at, rerr, text)
				}
				if !zero {
					Failf("bad-value", "value %d (%v) is cut off; the read returns %v together with %s", k, op, err, text)
				}
				return
			}
		case 1: // the writer fails
			q := p.Get(fmt.Sprint("quota", i), 0, 1000) * len(data) / 1000
			w := &simWriter{quota: q, err: errDisk}
			if e := p.Get(fmt.Sprint("err", i), 0, 5); e > 0 && q%3 == 0 {
				w.err = errs[e]
			} else if q%3 == 1 {
				w.err = io.ErrShortWrite
			}
			if c := p.Get(fmt.Sprint("call", i), 0, 8); c > 0 {
				w.quota, w.failCall, w.failHow = -1, c, p.Get(fmt.Sprint("how", i), 0, 2)
			}
			sink := io.Writer(w)
			if k := p.Get(fmt.Sprint("sink", i), 0, nSinks-1); k <= 2 {
				sink, _ = shapeWriter(k, w)
			}
			for k, op := range ops {
				before := w.fails
				err := writeValue(sink, op)
				if w.fails > before && err == nil {
					Failf("write-error-lost", "writing value %d (%v) failed, but the codec reports success", k, op)
				}
				if w.fails == before && err != nil {
					Failf("codec", "writing value %d failed without cause: %v", k, err)
				}
				if err != nil {
					return
				}
			}
		case 3: // one read fails, later ones succeed
			rerr := errs[p.Get(fmt.Sprint("err", i), 0, 5)]
			r := &simReader{data: data, frag: p.V[fmt.Sprint("frag", i)], err: io.EOF, failAt: n, failErr: rerr}
			src := io.Reader(r)
			if kind == 1 {
				src = shapeReader(1, r).r
			}
			for k, op := range ops {
				start, was := r.pos, r.failed
				same, zero, err, _, text := readValue(src, op)
				end := start + len(encode([]Op{op}))
				switch {
				case r.failed && !was && n < end: // failed inside this value
					if err == nil {
						Failf("accepted", "reading value %d (%v) failed with %v after byte %d, but it read as %s without an error", k, op, rerr, n, text)
					}
					if !zero {
						Failf("bad-value", "reading value %d failed; the read returns %v together with %s", k, err, text)
					}
				case err == nil && !same:
					Failf("bad-value", "value %d: wrote %v, read %s", k, op, text)
				case err != nil && !(r.failed && !was):
					Failf("codec", "value %d is complete, but reading it failed: %v", k, err)
				}
				if err != nil {
					return
				}
			}
		case 2: // a byte string that is too long
			over := p.Get("over", 65536, 300000)
			w := &simWriter{quota: -1}
			err := xbinary.WriteBytes(w, make([]byte, over))
			if err == nil {
				Failf("too-long", "a byte string of %d bytes was accepted", over)
			}
			if len(w.got) != 0 {
				Failf("too-long", "a byte string of %d bytes was refused (%v) after writing % x", over, err, cut(w.got))
			}
		}
	})
}

// ---------------------------------------------------------------- C24, C25 pooled buffers

// ops: "get" A: size (-1: default), B: length of the source, C: 1: source is itself a bufio.Reader,
// 4: a pooled one, 2, 3, 5: kinds of failures and fragments, 6, 7: the same source again, with more;
// "use" A: how, B: how much; "put"
func genBufio(r *R) *Plan {
	p := NewPlan()
	base, step := r.Pick(16, 17, 100, 1000, 4096), r.Pick(256, 1024, 4096, 65536, 1<<17)
	alike := r.P(1, 15) // sizes agree in their low bits
	for n := r.In(1, 4); n > 0; n-- {
		var c []Op
		for k := r.In(1, 5); k > 0; k-- {
			c = append(c, Op{K: "get", A: r.Pick(-1, -1, 0, 1, 16, 17, 100, 4096, 4097, 5000, 9000), B: r.Pick(0, 1, r.Small(60), r.Small(600)), C: r.N(8)})
			g := len(c) - 1
			if r.P(1, 20) {
				c[g].A = r.Pick(4095, 8192, 65536, 65537, 1<<18)
			}
			if alike {
				c[g].A = base + step*r.N(3)
			}
			big := r.P(1, 15)
			if big {
				c[g].B = r.Pick(4095, 4096, 4097, 9000, 20000)
			}
			for j := r.Small(6); j > 0; j-- {
				c = append(c, Op{K: "use", A: r.Pick(0, 1, 2, 3, 4, 5, 6, 7, 8, 9), B: r.Pick(0, 1, 2, 5, 16, 40, 300)})
				if big && r.P(1, 3) {
					c[len(c)-1].B = r.Pick(1000, 4095, 4096, 5000, 10000)
				}
			}
			if r.P(4, 5) {
				c = append(c, Op{K: "put"})
			}
		}
		p.C = append(p.C, c)
	}
	return p
}

func pattern(n, tag int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(tag*37 + i)
		if i%9 == 8 {
			b[i] = '\n'
		}
	}
	return b
}

type users struct{ p []unsafe.Pointer }

func (u *users) add(p unsafe.Pointer) bool {
	for i := range u.p {
		if u.p[i] == p {
			return false
		}
	}
	u.p = append(u.p, p)
	return true
}

func (u *users) del(p unsafe.Pointer) {
	for i := range u.p {
		if u.p[i] == p {
			u.p[i] = nil
		}
	}
}

func runBufReader(p *Plan) {
	wearBufio(p, true)
	mobBufio(p, true)
	var cur users
	tags := 0
	MustFinish("stuck", len(p.C), func(i int) {
		var br, inner *bufio.Reader // inner: a pooled reader between br and the source
		var src *simReader
		var want, rest []byte
		var end error
		dead := false
		finish := func() {
			if br == nil {
				return
			}
			cur.del(unsafe.Pointer(br))
			p := br
			br = nil
			if inner == nil {
				src.closed = true
			}
			xio.PutBufferReader(p)
			if inner != nil {
				core.Yield()
				src.closed = true
				cur.del(unsafe.Pointer(inner))
				p, inner = inner, nil
				xio.PutBufferReader(p)
			}
		}
		for _, op := range p.C[i] {
			switch op.K {
			case "get":
				finish()
				tags++
				want = pattern(op.B, tags)
				rest = want
				dead = false
				end = io.EOF
				if op.C == 2 {
					end = errDisk
				}
				if op.C >= 6 && src != nil {
					// the source goes on after its end, with what the last user has not taken out of it;
					// what the last user had in its buffer is gone
					core.Count("fault.source_again")
					for _, x := range want {
						src.data = append(src.data, x)
					}
					src.closed, src.joined, src.zeros = false, op.C == 7, 0
					if src.failErr != nil && src.failed {
						src.failErr = nil
					}
				} else {
					src = &simReader{data: want, joined: op.C == 3, frag: [][]int{nil, {1}, {3, 0, 7}, nil, {50}, {2}}[op.C%6]}
					if op.C == 5 {
						src.failAt, src.failErr = op.B/2, errDisk
					}
				}
				src.err = end
				want = src.data[src.pos:]
				if src.failErr != nil {
					want, end = src.data[src.pos:src.failAt], src.failErr
				}
				rest = want
				var r io.Reader = src
				var own *bufio.Reader
				if op.C == 1 {
					own = bufio.NewReaderSize(src, 5000)
					r = own
				}
				if op.C == 4 {
					inner = xio.GetBufferReaderSize(src, 20)
					if !cur.add(unsafe.Pointer(inner)) {
						Failf("not-exclusive", "a reader that is in use was handed out again")
					}
					r = inner
				}
				size := op.A
				if op.A < 0 {
					br = xio.GetBufferReader(r)
					size = 4096
				} else {
					br = xio.GetBufferReaderSize(r, size)
				}
				if br == own {
					Failf("not-exclusive", "the caller's own buffered reader was returned as a pooled one")
				}
				if br.Size() < size {
					Failf("too-small", "requested a buffer of %d bytes, got %d", size, br.Size())
				}
				if !cur.add(unsafe.Pointer(br)) {
					Failf("not-exclusive", "a reader that is in use was handed out again")
				}
				if br.Buffered() != 0 {
					Failf("left-over", "a fresh reader has %d bytes buffered", br.Buffered())
				}
			case "put":
				finish()
			case "use":
				if br == nil || dead {
					continue
				}
				core.Yield()
				var got []byte
				var err error
				n := op.B
				if n < 0 {
					n = 0
				}
				switch op.A {
				case 0:
					b := make([]byte, n)
					var k int
					k, err = br.Read(b)
					got = b[:k]
				case 1:
					var b byte
					b, err = br.ReadByte()
					if err == nil {
						got = []byte{b}
					}
				case 2:
					got, err = br.ReadBytes('\n')
				case 3:
					b := make([]byte, n)
					var k int
					k, err = io.ReadFull(br, b)
					got = b[:k]
					if err == io.ErrUnexpectedEOF {
						err = io.EOF
					}
				case 4:
					if n > 16 {
						n = 16
					}
					var b []byte
					b, err = br.Peek(n)
					if !bytes.HasPrefix(rest, b) {
						Failf("wrong-bytes", "peek shows % x, the source continues with % x", cut(b), cut(rest))
					}
					if err != nil && src.failed {
						dead = true // the error is delivered, and the source goes on
					}
					err = nil
				case 5:
					got, err = io.ReadAll(br)
					if err == nil {
						err = io.EOF
					}
				case 6:
					var b bytes.Buffer
					_, err = br.WriteTo(&b)
					got = b.Bytes()
					if err == nil {
						err = io.EOF
					}
				case 7:
					var k int
					k, err = br.Discard(n)
					if k > len(rest) {
						Failf("wrong-bytes", "skipped %d bytes of %d", k, len(rest))
					}
					got = rest[:k]
				case 8:
					var t string
					t, err = br.ReadString('\n')
					got = []byte(t)
				case 9:
					var b byte
					if b, err = br.ReadByte(); err == nil {
						if len(rest) == 0 || b != rest[0] {
							Failf("wrong-bytes", "read %x, the source continues with % x", b, cut(rest))
						}
						err = br.UnreadByte()
					}
				}
				if len(got) > len(rest) || !bytes.Equal(got, rest[:len(got)]) {
					Failf("wrong-bytes", "read % x, the source continues with % x", cut(got), cut(rest))
				}
				rest = rest[len(got):]
				if err != nil && err != io.ErrNoProgress {
					if err != end {
						Failf("wrong-error", "reader ended with %v, its source with %v", err, end)
					}
					if len(rest) > 0 {
						Failf("wrong-bytes", "reader ended with %v before % x", err, cut(rest))
					}
					dead = true
				}
			}
		}
		if br != nil && !dead {
			got, err := io.ReadAll(br)
			if err == io.ErrNoProgress {
				return
			}
			if !bytes.Equal(got, rest) {
				Failf("wrong-bytes", "read % x, the source continues with % x", cut(got), cut(rest))
			}
			if err == nil {
				err = io.EOF
			}
			if err != end {
				Failf("wrong-error", "reader ended with %v, its source with %v", err, end)
			}
		}
	})
}

func runBufWriter(p *Plan) {
	wearBufio(p, false)
	mobBufio(p, false)
	var cur users
	tags := 0
	MustFinish("stuck", len(p.C), func(i int) {
		var bw *bufio.Writer
		var dst *simWriter
		var inner *bufio.Writer // a pooled writer between the pooled one and the destination
		var mid *bufio.Writer   // the user's own writer between the pooled one and the destination
		var want []byte
		flushed := false
		failed := false
		finish := func() {
			if bw == nil {
				return
			}
			cur.del(unsafe.Pointer(bw))
			w := bw
			bw = nil
			before := len(dst.got)
			xio.PutBufferWriter(w)
			if len(dst.got) != before && !flushed {
				// flushing on put is fine as long as it is this user's data
				if !bytes.HasPrefix(want, dst.got) {
					Failf("wrong-bytes", "giving the writer back wrote foreign bytes")
				}
			}
			if inner != nil {
				core.Yield()
				cur.del(unsafe.Pointer(inner))
				w, inner = inner, nil
				xio.PutBufferWriter(w)
			}
		}
		for _, op := range p.C[i] {
			switch op.K {
			case "get":
				finish()
				tags++
				want = nil
				failed = false
				if op.C >= 6 && dst != nil {
					// the same destination again, which has recovered if it had failed
					core.Count("fault.destination_again")
					for _, x := range dst.got {
						want = append(want, x)
					}
					dst.quota, dst.fails = -1, 0
				} else {
					dst = &simWriter{quota: -1, err: errDisk}
				}
				if op.C == 2 {
					dst.quota = op.B / 2
				}
				var w io.Writer = dst
				var own *bufio.Writer
				if op.C == 1 {
					own = bufio.NewWriterSize(dst, 5000)
					w = own
				}
				if op.C == 4 {
					inner = xio.GetBufferWriterSize(dst, 20)
					if !cur.add(unsafe.Pointer(inner)) {
						Failf("not-exclusive", "a writer that is in use was handed out again")
					}
					w = inner
				}
				size := op.A
				if op.A < 0 {
					bw = xio.GetBufferWriter(w)
					size = 4096
				} else {
					bw = xio.GetBufferWriterSize(w, size)
				}
				if bw == own {
					Failf("not-exclusive", "the caller's own buffered writer was returned as a pooled one")
				}
				if bw.Size() < size {
					Failf("too-small", "requested a buffer of %d bytes, got %d", size, bw.Size())
				}
				if !cur.add(unsafe.Pointer(bw)) {
					Failf("not-exclusive", "a writer that is in use was handed out again")
				}
				if bw.Buffered() != 0 {
					Failf("left-over", "a fresh writer has %d bytes buffered", bw.Buffered())
				}
				mid = own
				if inner != nil {
					mid = inner
				}
			case "put":
				finish()
			case "use":
				if bw == nil {
					continue
				}
				core.Yield()
				n := op.B
				if n < 0 {
					n = 0
				}
				data := pattern(n, tags+op.A)
				var err error
				flushed = false
				switch op.A {
				case 0, 1:
					_, err = bw.Write(data)
				case 2:
					_, err = bw.WriteString(string(data))
				case 3:
					data = []byte{byte(n)}
					err = bw.WriteByte(byte(n))
				case 6, 7:
					_, err = bw.ReadFrom(&simReader{data: data, err: io.EOF, joined: op.A == 7, frag: [][]int{nil, {3, 50}}[n%2]})
				default:
					data = nil
					err = bw.Flush()
					flushed = true
				}
				for _, b := range data {
					want = append(want, b)
				}
				if err != nil {
					failed = true
					if dst.fails == 0 {
						Failf("wrong-error", "the writer fails with %v although its destination never failed", err)
					}
				}
				if flushed && err == nil {
					if mid != nil {
						err = mid.Flush()
					}
					if err == nil && !bytes.Equal(dst.got, want) {
						Failf("wrong-bytes", "after a flush the destination has % x, written were % x", cut(dst.got), cut(want))
					}
				}
				if !failed && !bytes.HasPrefix(want, dst.got) {
					Failf("wrong-bytes", "the destination has % x, written were % x", cut(dst.got), cut(want))
				}
			}
		}
		if bw != nil {
			err := bw.Flush()
			if err != nil && dst.fails == 0 {
				Failf("wrong-error", "the writer fails with %v although its destination never failed", err)
			}
		}
	})
}

// ---------------------------------------------------------------- C26 ring

type ringState struct {
	n    int
	list string
}

func genRing(r *R) *Plan {
	p := NewPlan()
	p.P["n"] = r.Pick(1, 1, 2, 2, 3, 4, 5, 8)
	p.P["vals"] = r.N(4)
	v := 0
	var pre []Op
	max := 12
	if r.P(1, 10) {
		p.P["n"] = r.Pick(1, 2, 7, 16, 31, 64, 100)
		max = 250
	}
	if r.P(1, 200) {
		p.P["n"] = r.Pick(128, 256, 257, 1000, 1024)
		max = 3000
	}
	for k := r.Small(max); k > 0; k-- {
		v++
		pre = append(pre, Op{K: "add", A: v})
		if r.P(1, 15) {
			pre = append(pre, Op{K: "take"})
		}
	}
	p.C = append(p.C, pre)
	for n := r.In(1, 4); n > 0; n-- {
		var c []Op
		for k := r.In(1, 6); k > 0; k-- {
			v++
			c = append(c, Op{K: r.PickS("add", "take"), A: v})
		}
		p.C = append(p.C, c)
	}
	return p
}

func runRing(p *Plan) {
	if len(p.C) == 0 {
		return
	}
	size := p.Get("n", 1, 2000)
	vals := p.Get("vals", 0, 3)
	value := func(n int) interface{} {
		if vals == 2 { // few different ones
			return n / 2 % 3
		}
		if vals == 3 {
			switch n % 4 {
			case 0: // some that cannot be compared, and may be equal all the same
				return []int{n / 8}
			case 1:
				return map[int]bool{n / 8: true}
			case 2:
				return struct{ v []string }{[]string{fmt.Sprint(n)}}
			}
		}
		if vals == 1 {
			switch n % 4 {
			case 0:
				return nil
			case 1:
				return fmt.Sprint("s", n)
			case 2:
				return [1]int{n}
			}
		}
		return n
	}
	r := xring.NewRing(size)
	n := len(p.C)
	// other rings: nobody touches the first after this, and the second stays empty
	others := [2]*xring.Ring{xring.NewRing(size), xring.NewRing(size)}
	kept := size
	if kept > 5 {
		kept = 5
	}
	for i := 0; i < kept; i++ {
		others[0].Add(-100 - i)
	}
	h := NewHist(n + 1)
	apply := func(e *Entry) {
		if e.Op.K == "add" {
			r.Add(value(e.Op.A))
			return
		}
		l := r.Take()
		e.Note = fmt.Sprint(l)
		core.Yield()
		if fmt.Sprint(l) != e.Note {
			Failf("shared-slice", "the slice returned by take changed from %s to %v", e.Note, l)
		}
		for k := range l {
			l[k] = -1 // the caller's own
		}
		l = append(l, -2)
	}
	do := func(i int, op Op) { h.Do(i, op, apply) }
	step := func(st interface{}, e *Entry) []interface{} {
		s := st.(string)
		if e.Op.K == "add" {
			l := strings.Fields(s)
			l = append(l, fmt.Sprint(value(e.Op.A)))
			if len(l) > size {
				l = l[len(l)-size:]
			}
			return []interface{}{strings.Join(l, " ")}
		}
		if e.Note != "["+s+"]" {
			return nil
		}
		return []interface{}{s}
	}
	mobRing(p)
	var state interface{} = wearRing(p, r, size, value)
	for _, op := range p.C[0] {
		e := &Entry{Op: op}
		apply(e)
		next := step(state, e)
		if len(next) == 0 {
			Failf("ring", "size %d: take returned %s instead of [%s]", size, e.Note, state)
		}
		state = next[0]
	}
	MustFinish("stuck", n-1, func(i int) {
		for _, op := range p.C[i+1] {
			do(i+1, op)
		}
	})
	do(n, Op{K: "take"})
	do(n, Op{K: "take"})
	if len(h.All()) <= 62 && !Linearizable(Model{Init: state, Step: step}, h.All()) {
		Failf("ring", "size %d with [%s]: no sequential order explains the history: %s", size, state, h)
	}
	w := "["
	for i := 0; i < kept; i++ {
		w += fmt.Sprint(-100-i, " ")
	}
	if g := fmt.Sprint(others[0].Take()); g != strings.TrimSpace(w)+"]" {
		Failf("ring", "another ring of size %d, which nobody used meanwhile, holds %s instead of %s]", size, g, strings.TrimSpace(w))
	}
	if g := fmt.Sprint(others[1].Take()); g != "[]" {
		Failf("ring", "another ring of size %d, which nobody used, holds %s", size, g)
	}
}

// P: n, "over": additions beyond n; two adders and a taker at once.
func genBigRing(r *R) *Plan {
	p := NewPlan()
	p.P["n"] = r.Pick(4096, 16384, 16385, 32769, 65536, 65537, 70000)
	p.P["over"] = r.Pick(0, 1, 300)
	return p
}

func runBigRing(p *Plan) {
	n, over := p.Get("n", 1, 100000), p.Get("over", 0, 1000)
	r := xring.NewRing(n)
	for i := 0; i < n-over/2; i++ {
		r.Add(i)
	}
	look := func(l []interface{}, total, exact int) {
		if len(l) > n || exact >= 0 && len(l) != exact {
			Failf("ring", "size %d: %d elements taken, %d were due", n, len(l), exact)
		}
		// numbers of the first adder and (negative) of the second, each ascending and without a gap
		next := [2]int{-1, -1}
		for _, x := range l {
			i, k := x.(int), 0
			if i < 0 {
				i, k = -i, 1
			}
			if next[k] >= 0 && next[k] != i {
				Failf("ring", "size %d: element %d taken where %d was due", n, i, next[k])
			}
			next[k] = i + 1
		}
	}
	if n > over/2 {
		l := r.Take()
		look(l, 0, n-over/2)
		if l[0].(int) != 0 {
			Failf("ring", "size %d: the oldest of %d is %d", n, n-over/2, l[0])
		}
	}
	MustFinish("stuck", 3, func(c int) {
		switch c {
		case 0:
			for i := 0; i < over; i++ {
				r.Add(n - over/2 + i)
			}
		case 1:
			for i := 0; i < over; i++ {
				r.Add(-1 - i)
			}
		default:
			look(r.Take(), 0, -1)
		}
	})
	due := n - over/2 + 2*over
	if due > n {
		due = n
	}
	l := r.Take()
	look(l, 0, due)
	if over > 0 {
		last := l[len(l)-1].(int)
		if last != n-over/2+over-1 && last != -over {
			Failf("ring", "size %d: the newest element is %d", n, last)
		}
	}
}

func init() {
	Register(&Scenario{Prop: "C26", Name: "big", Weight: 1, Gen: genBigRing, Run: runBigRing, Cfg: func(r *R, p *Plan, c *core.Config) { c.MaxSteps = 3000000 }})
	Register(worn(150, 30, mobbed(150, 200, &Scenario{Prop: "C21", Name: "pool", Gen: genBytes, Run: runBytes})))
	Register(worn(150, 50, mobbed(150, 100, &Scenario{Prop: "C22", Name: "round-trip", Gen: genCodec, Run: runCodec})))
	Register(worn(150, 50, &Scenario{Prop: "C23", Name: "faults", Gen: genCodec, Run: runFaulty}))
	Register(worn(150, 40, mobbed(150, 100, &Scenario{Prop: "C24", Name: "reader", Gen: genBufio, Run: runBufReader})))
	Register(worn(150, 40, mobbed(150, 100, &Scenario{Prop: "C25", Name: "writer", Gen: genBufio, Run: runBufWriter})))
	Register(worn(60, 200, mobbed(150, 300, &Scenario{Prop: "C26", Name: "ring", Weight: 1500, Gen: genRing, Run: runRing})))
}
