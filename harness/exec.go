package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"io/fs"

	flate "github.com/chronos-tachyon/flate"
	"pgregory.net/rapid"

	"flateverif/ref"
)

// ---- options ----

// WOpts are compressor options; zero values mean "not given".
type WOpts struct {
	F    int   // 0 not given, 1 raw, 2 zlib, 3 gzip
	St   int   // strategy 0..3
	CL   int   // compression level -1..9; 99 not given
	ML   int   // 0 not given, 1..9
	WB   int   // 0 not given, 8..15
	Dict []Seg `json:",omitempty"`
}

func (o WOpts) dict() []byte {
	if len(o.Dict) == 0 {
		return nil
	}
	d := expand(o.Dict)
	if len(d) == 0 {
		return nil
	}
	return d
}

func (o WOpts) format() ref.Format {
	if o.F == 0 {
		return ref.Zlib
	}
	return ref.Format(o.F)
}

func (o WOpts) level() int {
	if o.CL == 99 || o.CL == -1 {
		return 6
	}
	return o.CL
}

func (o WOpts) wbits() int {
	if o.WB == 0 {
		return 15
	}
	return o.WB
}

func (o WOpts) options(tr ...flate.Tracer) []flate.Option {
	var out []flate.Option
	if o.F != 0 {
		out = append(out, flate.WithFormat(flate.Format(o.F)))
	}
	if o.St != 0 {
		out = append(out, flate.WithStrategy(flate.Strategy(o.St)))
	}
	if o.CL != 99 {
		out = append(out, flate.WithCompressLevel(flate.CompressLevel(o.CL)))
	}
	if o.ML != 0 {
		out = append(out, flate.WithMemoryLevel(flate.MemoryLevel(o.ML)))
	}
	if o.WB != 0 {
		out = append(out, flate.WithWindowBits(flate.WindowBits(o.WB)))
	}
	if d := o.dict(); d != nil {
		out = append(out, flate.WithDictionary(d))
	}
	if len(tr) != 0 {
		out = append(out, flate.WithTracers(tr...))
	}
	return out
}

func genML(t *rapid.T) int {
	return pick(t, "ml", 1, 1, 1, 1, 2, 2, 3, 3, 4, 4, 5, 5, 6, 6, 7, 7, 8, 8, 9, 0)
}

func genWB(t *rapid.T) int {
	return pick(t, "wb", 0, 0, 0, 8, 8, 9, 9, 10, 11, 12, 13, 14, 15)
}

func genWOpts(t *rapid.T) WOpts {
	o := WOpts{
		F:  pick(t, "format", 0, 1, 1, 1, 2, 2, 3, 3),
		St: pick(t, "strategy", 0, 0, 0, 0, 1, 2, 3),
		CL: pick(t, "level", 99, -1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 6, 6),
		ML: genML(t),
		WB: genWB(t),
	}
	if pct(t, 25, "hasdict") {
		o.Dict = genDict(t)
	}
	return o
}

// ROpts are decompressor options.
type ROpts struct {
	F    int // 0 auto, 1 raw, 2 zlib, 3 gzip
	ML   int
	WB   int
	Dict []Seg `json:",omitempty"`
}

func (o ROpts) dict() []byte { return WOpts{Dict: o.Dict}.dict() }

func (o ROpts) window() int {
	if o.WB == 0 {
		return 32768
	}
	return 1 << uint(o.WB)
}

func (o ROpts) refOptions() ref.Options {
	d := o.dict()
	return ref.Options{Format: ref.Format(o.F), Dict: d, HasDict: d != nil, Window: o.window()}
}

func (o ROpts) options(tr ...flate.Tracer) []flate.Option {
	return WOpts{F: o.F, CL: 99, ML: o.ML, WB: o.WB, Dict: o.Dict}.options(tr...)
}

// ---- operation histories of a compressor ----

// Op is one compressor operation: "w" writes the next N bytes of the data,
// "f" flushes with type T (0 block, 1 partial, 2 sync, 3 full, 4 finish).
type Op struct {
	Op string
	N  int `json:",omitempty"`
	T  int `json:",omitempty"`
}

var flushTypes = []flate.FlushType{flate.BlockFlush, flate.PartialFlush, flate.SyncFlush, flate.FullFlush, flate.FinishFlush}

const (
	fBlock = iota
	fPartial
	fSync
	fFull
	fFinish
)

// genOps draws a history over data of n bytes.  Unless rest is false, the
// caller writes what remains at the end.
func genOps(t *rapid.T, n int, finish bool) []Op {
	var ops []Op
	k := pick(t, "nops", 0, 0, 0, 1, 2, 3, 5, 8, 14)
	top := 3
	if finish {
		top = 4
	}
	for i := 0; i < k; i++ {
		if pct(t, 55, "isw") {
			m := 0
			switch uni(t, 0, 4, "wclass") {
			case 0:
				m = uni(t, 0, 3, "wn")
			case 1:
				m = uni(t, 0, 300, "wn")
			case 2:
				m = uni(t, 0, 5000, "wn")
			case 3:
				m = uni(t, 0, n, "wn")
			case 4:
				m = 1<<uni(t, 6, 16, "wk") + uni(t, -2, 2, "wn")
			}
			ops = append(ops, Op{Op: "w", N: m})
		} else {
			ops = append(ops, Op{Op: "f", T: uni(t, 0, top, "ft")})
		}
	}
	return ops
}

// ---- destinations ----

// Dst records what a compressor does to its destination, and can be made to
// fail.
type Dst struct {
	Buf     []byte
	Calls   int // calls of any kind
	Writes  int
	Flushes int
	Syncs   int
	Log     []byte // 'w', 'f', 's'

	// FailWrite >= 0: the write that would exceed this many bytes accepts
	// up to it and fails with Err.
	FailWrite int
	FailCall  int // -1, or the index of the call (of any kind) that fails
	FailFlush int // -1, or the index of the Flush call that fails
	FailSync  int // -1, or the index of the Sync call that fails
	Once      bool
	Take      int // the failing call accepts this many per mille of its data
	Failed    int // how many times it failed
	After     int // calls after the first failure
	Err       error
	SyncErr   error // returned by every Sync
	kind      int
}

func newDst() *Dst { return &Dst{FailWrite: -1, FailCall: -1, FailFlush: -1, FailSync: -1} }

func (d *Dst) tick() (fail bool) {
	if d.Failed > 0 {
		d.After++
	}
	d.Calls++
	return d.FailCall == d.Calls-1
}

func (d *Dst) armed() bool { return !d.Once || d.Failed == 0 }

func (d *Dst) Write(p []byte) (int, error) {
	d.Writes++
	d.Log = append(d.Log, 'w')
	if d.tick() && d.armed() {
		d.Failed++
		n := len(p) * d.Take / 1000
		d.Buf = append(d.Buf, p[:n]...)
		return n, d.Err
	}
	if d.FailWrite >= 0 && len(d.Buf)+len(p) > d.FailWrite && d.armed() {
		n := max(0, d.FailWrite-len(d.Buf))
		d.Buf = append(d.Buf, p[:n]...)
		d.Failed++
		return n, d.Err
	}
	d.Buf = append(d.Buf, p...)
	return len(p), nil
}

func (d *Dst) doFlush() error {
	d.Flushes++
	d.Log = append(d.Log, 'f')
	if (d.tick() || d.FailFlush == d.Flushes-1) && d.armed() {
		d.Failed++
		return d.Err
	}
	return nil
}

func (d *Dst) doSync() error {
	d.Syncs++
	d.Log = append(d.Log, 's')
	if (d.tick() || d.FailSync == d.Syncs-1) && d.armed() {
		d.Failed++
		return d.Err
	}
	return d.SyncErr
}

type dstPlain struct{ d *Dst }
type dstF struct{ d *Dst }
type dstS struct{ d *Dst }
type dstFS struct{ d *Dst }

func (x dstPlain) Write(p []byte) (int, error) { return x.d.Write(p) }
func (x dstF) Write(p []byte) (int, error)     { return x.d.Write(p) }
func (x dstF) Flush() error                    { return x.d.doFlush() }
func (x dstS) Write(p []byte) (int, error)     { return x.d.Write(p) }
func (x dstS) Sync() error                     { return x.d.doSync() }
func (x dstFS) Write(p []byte) (int, error)    { return x.d.Write(p) }
func (x dstFS) Flush() error                   { return x.d.doFlush() }
func (x dstFS) Sync() error                    { return x.d.doSync() }

func (d *Dst) writer(kind int) io.Writer {
	d.kind = kind
	switch kind {
	case 1:
		return dstF{d}
	case 2:
		return dstS{d}
	case 3:
		return dstFS{d}
	}
	return dstPlain{d}
}

// ---- running a compressor ----

// OpResult is the observable outcome of one operation.
type OpResult struct {
	Op    string
	N     int
	Err   error
	Len   int // bytes at the destination afterwards
	Calls int // calls on the destination so far
}

// WRun is the outcome of a compressor history.
type WRun struct {
	Results []OpResult
	Written []int // bytes of data accepted before each op (index into data), final entry at end
}

func (r *WRun) firstErr() error {
	for i, x := range r.Results {
		if x.Err != nil {
			return fmt.Errorf("operation %d (%s) failed: %w", i, x.Op, x.Err)
		}
	}
	return nil
}

// runOps applies ops over data, then writes the rest and closes (unless
// noClose).
func runOps(fw *flate.Writer, d *Dst, data []byte, ops []Op, rest, closeIt bool) *WRun {
	run := &WRun{}
	pos := 0
	write := func(n int) {
		run.Written = append(run.Written, pos)
		n = min(max(0, n), len(data)-pos)
		buf := append([]byte{}, data[pos:pos+n]...)
		nn, err := fw.Write(buf)
		if err == nil && nn != n {
			err = fmt.Errorf("Write(%d bytes) returned %d with no error", n, nn)
		}
		if !bytes.Equal(buf, data[pos:pos+n]) {
			err = fmt.Errorf("Write modified the caller's buffer")
		}
		// the caller may reuse its buffer
		for i := range buf {
			buf[i] ^= 0x55
		}
		run.Results = append(run.Results, OpResult{Op: "w", N: n, Err: err, Len: len(d.Buf), Calls: d.Calls})
		pos += n
	}
	for _, op := range ops {
		switch op.Op {
		case "w":
			write(op.N)
		case "f":
			run.Written = append(run.Written, pos)
			err := fw.Flush(flushTypes[op.T%5])
			run.Results = append(run.Results, OpResult{Op: fmt.Sprintf("f%d", op.T%5), Err: err, Len: len(d.Buf), Calls: d.Calls})
		}
	}
	if rest && pos < len(data) {
		write(len(data) - pos)
	}
	if closeIt {
		run.Written = append(run.Written, pos)
		err := fw.Close()
		run.Results = append(run.Results, OpResult{Op: "close", Err: err, Len: len(d.Buf), Calls: d.Calls})
	}
	run.Written = append(run.Written, pos)
	return run
}

// compress runs a full history on a non-failing destination.
func compress(o WOpts, data []byte, ops []Op, tr ...flate.Tracer) (*Dst, *WRun, error) {
	d := newDst()
	fw := flate.NewWriter(d.writer(0), o.options(tr...)...)
	run := runOps(fw, d, data, ops, true, true)
	return d, run, run.firstErr()
}

// ---- running a decompressor ----

// Chunking is how the source splits its data: sizes are used cyclically (none:
// as much as asked for); 0 is a read of zero bytes without an error.
type Chunking struct {
	Sizes []int `json:",omitempty"`
	EOF   bool  `json:",omitempty"` // io.EOF comes with the last data
	Reads []int `json:",omitempty"` // sizes of the buffers passed to Read, cyclically (none: 32 KiB)
}

func genChunking(t *rapid.T) Chunking {
	var c Chunking
	sz := func(label string) int {
		switch uni(t, 0, 5, label+"class") {
		case 0:
			return 1
		case 1:
			return uni(t, 1, 8, label)
		case 2:
			return uni(t, 1, 100, label)
		case 3:
			return uni(t, 100, 2000, label)
		case 4:
			return 1<<uni(t, 6, 15, label+"k") + uni(t, -1, 1, label)
		}
		return uni(t, 1, 70000, label)
	}
	if pct(t, 65, "chunked") {
		n := uni(t, 1, 4, "nch")
		nz := false
		for i := 0; i < n; i++ {
			if pct(t, 10, "zero") {
				c.Sizes = append(c.Sizes, 0)
				continue
			}
			nz = true
			c.Sizes = append(c.Sizes, sz("chunk"))
		}
		if !nz {
			c.Sizes = append(c.Sizes, 1)
		}
	}
	c.EOF = pct(t, 30, "eofwith")
	if pct(t, 60, "reads") {
		n := uni(t, 1, 4, "nrd")
		for i := 0; i < n; i++ {
			c.Reads = append(c.Reads, sz("read"))
		}
	}
	return c
}

// Src is a source with faults.
type Src struct {
	data    []byte
	pos     int
	sizes   []int
	i       int
	eofWith bool
	Err     error  // at the end of data instead of io.EOF
	ErrWith bool   // Err comes together with the last data
	After   []byte // the source recovers after reporting Err, and has this data
	Calls   int
	Ends    int // calls after the end was reported
	zeros   int
}

var errSource = errors.New("injected source failure")
var errDest = errors.New("injected destination failure")

func (s *Src) Read(p []byte) (int, error) {
	s.Calls++
	end := s.Err
	if end == nil {
		end = io.EOF
	}
	if s.pos >= len(s.data) {
		s.end()
		return 0, end
	}
	n := len(p)
	if len(s.sizes) > 0 {
		k := s.sizes[s.i%len(s.sizes)]
		s.i++
		n = min(n, max(0, k))
		if n == 0 {
			s.zeros++
			if s.zeros > 3 {
				n = min(1, len(p))
			}
		}
		if n > 0 {
			s.zeros = 0
		}
	}
	n = copy(p[:n], s.data[s.pos:])
	s.pos += n
	// a source may use the rest of p as scratch space
	k := min(len(p), n+40)
	if s.Calls%16 == 1 {
		k = len(p)
	}
	for i := n; i < k; i++ {
		p[i] = byte(i) ^ 0xa5
	}
	if s.pos == len(s.data) && (s.Err == nil && s.eofWith || s.Err != nil && s.ErrWith) {
		s.end()
		return n, end
	}
	return n, nil
}

func (s *Src) end() {
	s.Ends++
	if s.Err != nil && s.After != nil {
		s.data, s.Err, s.After = append(s.data[:len(s.data):len(s.data)], s.After...), nil, nil
	}
}

func (c Chunking) source(in []byte) *Src {
	return &Src{data: in, sizes: c.Sizes, eofWith: c.EOF}
}

// RRun is the outcome of reading to the end.
type RRun struct {
	Out  []byte
	Err  error
	Bad  string // a violation of the io.Reader contract
	Many bool   // stopped: more than limit bytes
}

// readAll reads until the first error (at most limit bytes), then checks that
// the error sticks.
func readAll(fr io.Reader, reads []int, limit int) *RRun {
	r := &RRun{}
	if len(reads) == 0 {
		reads = []int{32768}
	}
	big := 1
	for _, x := range reads {
		big = max(big, x)
	}
	buf := make([]byte, big+64)
	idle := 0
	for i := 0; ; i++ {
		n := max(1, reads[i%len(reads)])
		for j := n; j < n+8; j++ {
			buf[j] = 0xa5
		}
		nn, err := fr.Read(buf[:n])
		if nn < 0 || nn > n {
			r.Bad = fmt.Sprintf("Read(%d) returned %d", n, nn)
			return r
		}
		for j := n; j < n+8; j++ {
			if buf[j] != 0xa5 {
				r.Bad = "Read wrote beyond its buffer"
				return r
			}
		}
		r.Out = append(r.Out, buf[:nn]...)
		if err != nil {
			r.Err = err
			break
		}
		if nn == 0 {
			idle++
			if idle > 1000 {
				r.Bad = "1000 reads of zero bytes without an error"
				return r
			}
		} else {
			idle = 0
		}
		if len(r.Out) > limit {
			r.Many = true
			return r
		}
	}
	for i := 0; i < 3; i++ {
		nn, err := fr.Read(buf[:1+i*7])
		if nn != 0 || err == nil || err.Error() != r.Err.Error() || errKind(err) != errKind(r.Err) {
			r.Bad = fmt.Sprintf("after error %v, Read returned %d, %v", r.Err, nn, err)
			return r
		}
	}
	return r
}

// errKind names the kind of a final error.
func errKind(err error) string {
	var ce flate.CorruptInputError
	var cp *flate.CorruptInputError
	switch {
	case err == nil:
		return "none"
	case err == io.EOF:
		return "eof"
	case errors.Is(err, errSource):
		return "source"
	case errors.Is(err, errDest):
		return "dest"
	case errors.As(err, &ce), errors.As(err, &cp):
		return "corrupt"
	case errors.Is(err, io.ErrUnexpectedEOF):
		return "ueof"
	case errors.Is(err, fs.ErrClosed):
		return "closed"
	}
	return "other:" + err.Error()
}

// decompress reads in to the end through a new decompressor.
func decompress(o ROpts, in []byte, c Chunking, limit int, tr ...flate.Tracer) *RRun {
	fr := flate.NewReader(c.source(in), o.options(tr...)...)
	r := readAll(fr, c.Reads, limit)
	fr.Close()
	return r
}

// diffBytes describes the first difference.
func diffBytes(what string, got, want []byte) error {
	if bytes.Equal(got, want) {
		return nil
	}
	i := 0
	for i < len(got) && i < len(want) && got[i] == want[i] {
		i++
	}
	return fmt.Errorf("%s: got %d bytes, want %d; first difference at offset %d (got %s, want %s)", what, len(got), len(want), i, around(got, i), around(want, i))
}

func around(b []byte, i int) string {
	if i >= len(b) {
		return "end"
	}
	return fmt.Sprintf("%x", b[i:min(len(b), i+8)])
}

// expectClean checks a run that must return want and end cleanly.
func (r *RRun) expectClean(what string, want []byte) error {
	if r.Bad != "" {
		return fmt.Errorf("%s: %s", what, r.Bad)
	}
	if err := diffBytes(what, r.Out, want); err != nil {
		return fmt.Errorf("%w (final error: %v)", err, r.Err)
	}
	if r.Many {
		return fmt.Errorf("%s: more data than expected", what)
	}
	if r.Err != io.EOF {
		return fmt.Errorf("%s: final error %v (%s), want io.EOF", what, r.Err, errKind(r.Err))
	}
	return nil
}
