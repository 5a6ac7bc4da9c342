package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"pgregory.net/rapid"

	flate "github.com/chronos-tachyon/flate"

	"flateverif/ref"
)

// gateSrc blocks in one of its calls until released.
type gateSrc struct {
	s        *Src
	at       int // index of the call that blocks, -1 none
	then     int // what that call does when released: 0 data, 1 io.EOF, 2 an error, 3 nothing
	blocked  chan struct{}
	release  chan struct{}
	calls    int32
	inside   int32
	closed   int32 // set once Close has returned
	touched  int32 // calls begun after that
	yieldMod int
}

func newGate(s *Src, at, then, yieldMod int) *gateSrc {
	return &gateSrc{s: s, at: at, then: then, blocked: make(chan struct{}), release: make(chan struct{}), yieldMod: yieldMod}
}

func (g *gateSrc) Read(p []byte) (int, error) {
	if atomic.LoadInt32(&g.closed) != 0 {
		atomic.AddInt32(&g.touched, 1)
	}
	atomic.AddInt32(&g.inside, 1)
	defer atomic.AddInt32(&g.inside, -1)
	n := int(atomic.AddInt32(&g.calls, 1)) - 1
	if g.yieldMod > 0 && n%g.yieldMod == 0 {
		runtime.Gosched()
	}
	if n == g.at {
		close(g.blocked)
		<-g.release
		switch g.then {
		case 1:
			g.s.data = g.s.data[:g.s.pos]
			return 0, io.EOF
		case 2:
			g.s.data = g.s.data[:g.s.pos]
			g.s.Err = errSource
			return 0, errSource
		case 3:
			return 0, nil
		}
	}
	return g.s.Read(p)
}

// settle waits until no more than base goroutines are left.
func settle(base int, what string) error {
	for i := 0; ; i++ {
		if runtime.NumGoroutine() <= base {
			return nil
		}
		if i < 100 {
			runtime.Gosched()
		} else if i < 2000 {
			time.Sleep(time.Millisecond)
		} else {
			break
		}
	}
	buf := make([]byte, 1<<18)
	st := string(buf[:runtime.Stack(buf, true)])
	for _, g := range strings.Split(st, "\n\n") {
		if strings.Contains(g, "chronos-tachyon/flate") {
			return fmt.Errorf("%s: a goroutine remains:\n%s", what, clip(g))
		}
	}
	panic(harnessBug("goroutines remain which are not the library's:\n" + st))
}

// CloseCase closes a decompressor at some moment.
type CloseCase struct {
	M       Made
	Mut     []Mut `json:",omitempty"`
	R       DecOpts
	Before  int  // bytes read before anything else; -1 no Read
	Gate    int  // the call on the source that blocks; -1 none
	Then    int  // what it does when released
	Readers int  // goroutines reading meanwhile
	Closers int  // goroutines closing
	Reset   bool // Reset instead of Close
	Again   bool // Reset afterwards and read it all
	Delay   int  // microseconds between the start of Close and the release
	Lead    int  // microseconds before closing when nothing blocks
	Yield   int
}

func checkClose(c *CloseCase, cov *Cov) error {
	in, _, dict, f, err := c.M.make()
	if err != nil {
		return err
	}
	in = mutate(in, c.Mut)
	ro := c.R.ropts(f, dict)
	o := ro.refOptions()
	o.MaxOut = maxOutBad
	res := ref.Decode(in, o)
	if res.Why == "limit" {
		return nil
	}
	base := runtime.NumGoroutine()
	g := newGate(c.R.Ch.source(in), c.Gate, c.Then, c.Yield)
	var once sync.Once
	open := func() { once.Do(func() { close(g.release) }) }
	defer open()
	fr := flate.NewReader(g, ro.options()...)
	what := fmt.Sprintf("closing during call %d on the source (%d readers, %d closers, then %d)", c.Gate, c.Readers, c.Closers, c.Then)
	if c.Gate < 0 {
		what = fmt.Sprintf("closing after %d bytes (%d readers, %d closers)", c.Before, c.Readers, c.Closers)
	}

	// cleanEnd says whether a clean end is right after data.
	cleanEnd := func(data []byte) error {
		r := ref.Decode(g.s.data, o)
		if r.Lenient || r.Kind == ref.OK && bytes.Equal(r.Out, data) {
			return nil
		}
		return fmt.Errorf("%s: the stream appears to have ended cleanly after %d bytes; it is %v", what, len(data), r)
	}
	var out []byte
	buf := make([]byte, 1000)
	ended := false
	started := false
	if c.Gate < 0 {
		for left := c.Before; left > 0; {
			started = true
			n, err := fr.Read(buf[:min(left, len(buf))])
			out = append(out, buf[:n]...)
			left -= n
			if err != nil {
				ended = true
				if err == io.EOF {
					if err := cleanEnd(out); err != nil {
						return err
					}
				}
				break
			}
		}
	}
	var wg sync.WaitGroup
	errs := make([]error, c.Readers)
	outs := make([][]byte, c.Readers)
	for i := 0; i < c.Readers; i++ {
		started = true
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			b := make([]byte, 1+i*37+100)
			for idle := 0; idle < 10000; {
				n, err := fr.Read(b)
				outs[i] = append(outs[i], b[:n]...)
				if err != nil {
					errs[i] = err
					return
				}
				if n == 0 {
					idle++
				} else {
					idle = 0
				}
			}
			errs[i] = errors.New("10000 empty reads")
		}(i)
	}
	readersDone := make(chan struct{})
	go func() { wg.Wait(); close(readersDone) }()
	if c.Gate >= 0 && c.Readers > 0 {
		select {
		case <-g.blocked:
			cov.Class("closed while blocked on the source")
		case <-readersDone:
			cov.Class("finished before blocking")
		}
	} else if c.Lead > 0 {
		time.Sleep(time.Duration(c.Lead) * time.Microsecond)
	}
	go func() {
		time.Sleep(time.Duration(c.Delay) * time.Microsecond)
		open()
	}()
	var cw sync.WaitGroup
	var closeErr atomic.Value
	for i := 1; i < c.Closers; i++ {
		cw.Add(1)
		go func() {
			defer cw.Done()
			if err := fr.Close(); err != nil {
				closeErr.Store(err)
			}
		}()
	}
	if err := fr.Close(); err != nil {
		closeErr.Store(err)
	}
	if n := atomic.LoadInt32(&g.inside); n != 0 {
		return fmt.Errorf("%s: Close returned while a call on the source was in progress", what)
	}
	atomic.StoreInt32(&g.closed, 1)
	cw.Wait()
	if e := closeErr.Load(); e != nil && !errors.Is(e.(error), fs.ErrClosed) {
		return fmt.Errorf("%s: Close failed: %v", what, e)
	}
	<-readersDone
	if !ended && c.Readers == 0 {
		// reading on after Close: whatever comes is a prefix and ends
		for i := 0; ; i++ {
			n, err := fr.Read(buf)
			out = append(out, buf[:n]...)
			if err != nil {
				if err == io.EOF {
					if err := cleanEnd(out); err != nil {
						return err
					}
				}
				break
			}
			if i > 100000 || len(out) > len(res.Out) {
				return fmt.Errorf("%s: reading never ends after Close", what)
			}
		}
	}
	if c.Readers == 1 {
		out = append(out, outs[0]...)
		if errs[0] == io.EOF {
			if err := cleanEnd(out); err != nil {
				return err
			}
		}
	}
	if c.Readers <= 1 && !bytes.HasPrefix(res.Out, out) {
		return fmt.Errorf("%s: what was read is not a prefix of the content: %w", what, diffBytes("data", out, res.Out))
	}
	total := len(out)
	if c.Readers > 1 {
		clean := false
		for i := range outs {
			total += len(outs[i])
			clean = clean || errs[i] == io.EOF
		}
		if clean && res.Kind == ref.OK && c.Then != 1 && total != len(res.Out) {
			return fmt.Errorf("%s: a clean end was reported, but only %d of %d bytes were returned", what, total, len(res.Out))
		}
	}
	if total > len(res.Out) {
		return fmt.Errorf("%s: %d bytes returned, the content has %d", what, total, len(res.Out))
	}
	for i, e := range errs {
		if e == nil || e.Error() == "10000 empty reads" {
			return fmt.Errorf("%s: reader %d ended with %v", what, i, e)
		}
	}
	open()
	if err := settle(base, what); err != nil {
		return err
	}
	if n := atomic.LoadInt32(&g.touched); n != 0 {
		return fmt.Errorf("%s: the source was used %d times after Close had returned", what, n)
	}
	cov.Class([]string{"no readers", "one reader", "several readers"}[min(2, c.Readers)])
	cov.ClassIf(c.Before == 0 && c.Readers == 0, "closed before reading")
	cov.ClassIf(total < len(res.Out), "content left unread")
	cov.ClassIf(c.Closers > 1, "several closers")
	cov.Nontrivial(total < len(res.Out) && started)
	// Close again, then Reset and read everything
	fr.Close()
	if c.Again {
		fr.Reset(c.R.Ch.source(in))
		r := readAll(fr, c.R.Ch.Reads, maxOutBad)
		fr.Close()
		if err := compareRef(what+", then Reset", r, res, len(in)); err != nil {
			return err
		}
		if err := settle(base, what+", then Reset, reading and Close"); err != nil {
			return err
		}
		cov.Class("reset afterwards")
	}
	return nil
}

// ---- closing a compressor ----

// WCloseCase closes a compressor, several times.
type WCloseCase struct {
	H       HistCase
	Closers int
	Kind    int
	Finish  bool // Finish right before Close
}

func checkWClose(c *WCloseCase, cov *Cov) error {
	data := c.H.data()
	d := newDst()
	rec := &Recorder{}
	fw := flate.NewWriter(d.writer(c.Kind), c.H.O.options(rec)...)
	ops := append([]Op{}, c.H.Ops...)
	ops = append(ops, Op{Op: "w", N: len(data)})
	if c.Finish {
		ops = append(ops, Op{Op: "f", T: fFinish})
	}
	run := runOps(fw, d, data, ops, false, false)
	if err := run.firstErr(); err != nil {
		return err
	}
	open := len(d.Buf)
	errs := make([]error, c.Closers)
	var wg sync.WaitGroup
	for i := range errs {
		wg.Add(1)
		f := func() { defer wg.Done(); errs[i] = fw.Close() }
		if c.Closers == 1 {
			f()
		} else {
			go f()
		}
	}
	wg.Wait()
	nils := 0
	for _, e := range errs {
		switch e {
		case nil:
			nils++
		case fs.ErrClosed:
		default:
			return fmt.Errorf("Close returned %v", e)
		}
	}
	if nils != 1 {
		return fmt.Errorf("%d of %d calls to Close returned nil", nils, c.Closers)
	}
	n, calls, nev := len(d.Buf), d.Calls, len(rec.evs)
	res, err := strict(c.H.O, d.Buf, data)
	if err != nil {
		return fmt.Errorf("after Close: %w", err)
	}
	if c.Finish && n != open {
		return fmt.Errorf("Close after Finish emitted %d bytes", n-open)
	}
	if len(res.Streams) == 0 || res.Streams[len(res.Streams)-1].End != n {
		return fmt.Errorf("Close left the stream incomplete")
	}
	check := func(what string, err error, got int) error {
		if err != fs.ErrClosed || got != 0 {
			return fmt.Errorf("%s after Close returned %d, %v", what, got, err)
		}
		if len(d.Buf) != n || d.Calls != calls {
			return fmt.Errorf("%s after Close used the destination", what)
		}
		if len(rec.evs) != nev {
			return fmt.Errorf("%s after Close sent events", what)
		}
		return nil
	}
	for i := 0; i < 2; i++ {
		nn, err := fw.Write([]byte("more"))
		if err := check("Write", err, nn); err != nil {
			return err
		}
		nn, err = fw.Write(nil)
		if err := check("empty Write", err, nn); err != nil {
			return err
		}
		for t, ft := range flushTypes {
			if err := check(fmt.Sprintf("Flush %d", t), fw.Flush(ft), 0); err != nil {
				return err
			}
		}
		if err := check("Close", fw.Close(), 0); err != nil {
			return err
		}
	}
	cov.ClassIf(c.Finish, "finished before")
	cov.ClassIf(c.Closers > 1, "several closers")
	cov.ClassIf(len(data) == 0, "no data")
	cov.ClassIf(n > open, "data flushed by Close")
	cov.Nontrivial(len(data) > 0)
	return nil
}

func genClose(t *rapid.T) *CloseCase {
	f := anyFormat(t)
	c := &CloseCase{M: genMade(t, f, 30000, 3), R: genDecOpts(t), Gate: -1, Closers: pick(t, "closers", 1, 1, 1, 2, 3), Again: pct(t, 40, "again"), Yield: uni(t, 0, 4, "yield")}
	if pct(t, 10, "mut") {
		c.Mut = genMuts(t, 1)
	}
	c.R.ML = pick(t, "ml", 1, 1, 1, 2, 3, 5, 9)
	switch uni(t, 0, 3, "how") {
	case 0: // sequentially
		c.Before = pick(t, "before", 0, 0, 1, 5, uni(t, 0, 300, "b"), uni(t, 0, 30000, "b"))
		c.Lead = pick(t, "lead", 0, 0, 50)
	case 1: // while reading, at no particular moment
		c.Readers = pick(t, "readers", 1, 1, 2, 4)
		c.Lead = pick(t, "lead", 0, 5, 20, 60, 200)
	default: // while blocked
		c.Readers = pick(t, "readers", 1, 1, 1, 2, 4)
		c.Gate = pick(t, "gate", 0, 0, 1, 2, uni(t, 0, 8, "g"), uni(t, 0, 100, "g"))
		c.Then = uni(t, 0, 3, "then")
		c.Delay = pick(t, "delay", 0, 0, 10, 100, 300)
	}
	if c.Readers > 0 {
		c.Before = 0
	}
	return c
}

func init() {
	const rule = "a conforming or mutated input read by 0 to 4 goroutines from a source one of whose calls blocks until released (then giving data, end of file, an error or nothing), closed by 1 to 3 goroutines before, between or during reads; afterwards Read, Close, Reset; non-trivial: closed after reading began with content left"
	reg("C18", "reader", rule, 10000, 120000, genClose, checkClose)
	reg("C18", "reader-race", rule+"; race detector", 3000, 36000, genClose, checkClose).Mode = "race"
	reg("C18", "writer", "a compressor history, closed by 1 to 3 goroutines, then used further; non-trivial: with data", 6000, 72000, func(t *rapid.T) *WCloseCase {
		c := &WCloseCase{H: *genHist(t, 10000), Closers: pick(t, "closers", 1, 1, 2, 3), Kind: uni(t, 0, 3, "kind"), Finish: pct(t, 40, "finish")}
		c.H.Ch, c.H.RML = Chunking{}, 0
		return c
	}, checkWClose)
}

// ---- closing while the source is slow ----

// stepSrc hands out its calls one at a time from a certain one on.
type stepSrc struct {
	s      *Src
	from   int // index of the first call that waits
	calls  int
	wait   chan struct{} // a call is waiting
	step   chan struct{} // one call may go on
	opened chan struct{} // all may
}

func (s *stepSrc) Read(p []byte) (int, error) {
	n := s.calls
	s.calls++
	if n >= s.from {
		select {
		case <-s.opened:
		case s.wait <- struct{}{}:
			select {
			case <-s.step:
			case <-s.opened:
			}
		}
	}
	return s.s.Read(p)
}

// SlowCase closes or resets a decompressor while its source is slow: calls on
// it return eventually, with little data, and then the next one waits again.
type SlowCase struct {
	M      Made
	Auto   bool
	ML     int
	Max    int // bytes per call
	From   int // first call that waits
	Reset  bool
	Close2 bool // a second Close at the same time
	Delay  int  // microseconds between the start of Close and the return of the call in progress
}

func checkSlow(c *SlowCase, cov *Cov) error {
	in, _, dict, f, err := c.M.make()
	if err != nil {
		return err
	}
	ro := ROpts{F: int(f), ML: c.ML, Dict: dict}
	if c.Auto && f != ref.Raw {
		ro.F = 0
	}
	o := ro.refOptions()
	o.MaxOut = maxOutBad
	res := ref.Decode(in, o)
	base := runtime.NumGoroutine()
	s := &stepSrc{s: Chunking{Sizes: []int{max(1, c.Max)}}.source(in), from: c.From, wait: make(chan struct{}), step: make(chan struct{}), opened: make(chan struct{})}
	var once sync.Once
	open := func() { once.Do(func() { close(s.opened) }) }
	defer open()
	fr := flate.NewReader(s, ro.options()...)
	var out []byte
	var rerr error
	readDone := make(chan struct{})
	go func() {
		defer close(readDone)
		b := make([]byte, 500)
		for {
			n, err := fr.Read(b)
			out = append(out, b[:n]...)
			if err != nil {
				rerr = err
				return
			}
		}
	}()
	select {
	case <-s.wait:
	case <-readDone:
		fr.Close()
		cov.Class("finished before the call that waits")
		return settle(base, "reading")
	}
	what := fmt.Sprintf("Close during call %d on the source, each of which gives %d bytes", c.From, c.Max)
	if c.Reset {
		what = "Reset" + what[5:]
	}
	closed := make(chan struct{})
	next := Chunking{}.source(in)
	go func() {
		if c.Reset {
			fr.Reset(next)
		} else {
			fr.Close()
		}
		close(closed)
	}()
	if c.Close2 && !c.Reset {
		go fr.Close()
	}
	time.Sleep(time.Duration(c.Delay) * time.Microsecond)
	steps := 0
	s.step <- struct{}{}
	const limit = 14
wait:
	for {
		steps++
		// Close may just not have had the time yet, so this waits longer and longer.
		timer := time.NewTimer(min(time.Millisecond<<steps, time.Second))
		select {
		case <-closed:
			timer.Stop()
			break wait
		case <-timer.C:
		}
		select {
		case <-closed:
			break wait
		case <-s.wait:
		case <-time.After(5 * time.Second):
			return fmt.Errorf("%s: it does not return, although no call on the source is in progress", what)
		}
		if steps == limit {
			return fmt.Errorf("%s: it does not return after that call nor after %d more", what, limit)
		}
		s.step <- struct{}{}
	}
	if c.Reset {
		// the Read in progress goes on with the new source, once another
		// one has started that
		r := readAll(fr, nil, maxOutBad)
		if r.Bad != "" || r.Err == nil && !r.Many {
			return fmt.Errorf("%s: reading the next source: %s %v", what, r.Bad, r.Err)
		}
		<-readDone
	} else {
		<-readDone
		if rerr == io.EOF && !(res.Kind == ref.OK && bytes.Equal(res.Out, out)) && !res.Lenient {
			return fmt.Errorf("%s: the stream appears to have ended cleanly", what)
		}
		if !bytes.HasPrefix(res.Out, out) {
			return fmt.Errorf("%s: what was read is not a prefix of the content: %w", what, diffBytes("data", out, res.Out))
		}
	}
	open()
	fr.Close()
	if err := settle(base, what); err != nil {
		return err
	}
	cov.ClassIf(c.Reset, "Reset")
	cov.ClassIf(!c.Reset, "Close")
	cov.ClassIf(steps > 1, "more than one call awaited")
	cov.Nontrivial(s.s.pos < len(in))
	return nil
}

func init() {
	reg("C18", "slow", "a conforming stream from a source which gives a few bytes per call and from a generated call on waits in each one; Close or Reset is called while one waits, then calls are let through one at a time, with growing pauses: it must return without any more calls than could have been begun before it was noticed; non-trivial: input was left", 2000, 24000, func(t *rapid.T) *SlowCase {
		return &SlowCase{M: genMade(t, anyFormat(t), 20000, 3), Auto: pct(t, 30, "auto"), ML: genML(t), Max: pick(t, "max", 1, 1, 2, 7, 50),
			From: pick(t, "from", 0, 0, 1, 3, uni(t, 0, 40, "f"), uni(t, 0, 500, "f")), Reset: pct(t, 30, "reset"), Close2: pct(t, 20, "close2"), Delay: pick(t, "delay", 0, 50, 200)}
	}, checkSlow)
}
