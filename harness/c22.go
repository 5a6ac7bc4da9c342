package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io"
	"io/fs"
	"os"
	"os/exec"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"pgregory.net/rapid"

	flate "github.com/chronos-tachyon/flate"

	"flateverif/ref"
)

// ---- isolation ----

// IsoCase is several independent jobs.
type IsoCase struct {
	H []HistCase
	B []BadCase
	N int // repetitions

	Cold bool // together first, as the first thing a process does
}

// checkCold runs the case in a process of its own.
func checkCold(c *IsoCase, cov *Cov) error {
	self, err := os.Executable()
	must(err == nil, "no executable")
	cmd := exec.Command(self, "cold22")
	var in, eb bytes.Buffer
	writeFrame(&in, mustJSON(c))
	cmd.Stdin, cmd.Stderr = &in, &eb
	if err := cmd.Run(); err != nil {
		msg := eb.String()
		if i := strings.Index(msg, "COLD: "); i >= 0 {
			return fmt.Errorf("in a new process: %s", strings.TrimSpace(msg[i+6:]))
		}
		if strings.Contains(msg, "harnessBug") || !strings.Contains(msg, "chronos-tachyon") {
			panic(harnessBug("cold22: " + err.Error() + "\n" + firstLines(msg, 40)))
		}
		return fmt.Errorf("in a new process: %s", headline(msg))
	}
	cov.Class("new process")
	cov.ClassIf(len(c.B) > 0, "with malformed input")
	cov.Nontrivial(len(c.H)+len(c.B) > 1 || c.N > 1)
	return nil
}

func init() {
	subcommands["cold22"] = func([]string) {
		b, err := readFrame(os.Stdin)
		must(err == nil, "no case")
		var c IsoCase
		must(json.Unmarshal(b, &c) == nil, "bad case")
		if err := checkIsolation(&c, &Cov{Classes: map[string]int{}}); err != nil {
			fmt.Fprintln(os.Stderr, "COLD: "+err.Error())
			os.Exit(3)
		}
	}
}

type isoResult struct {
	packed []byte
	out    []byte
	err    string
	evs    []Ev
}

func isoHist(h *HistCase) isoResult {
	data := h.data()
	rec := &Recorder{}
	d, _, err := compress(h.O, data, h.Ops, rec)
	if err != nil {
		return isoResult{err: err.Error()}
	}
	r := decompress(h.ropts(), d.Buf, h.Ch, len(data)+100, rec)
	return isoResult{packed: d.Buf, out: r.Out, err: fmt.Sprint(r.Err, r.Bad), evs: rec.take()}
}

func isoBad(b *BadCase) isoResult {
	rec := &Recorder{}
	in := b.input()
	r := decompress(ROpts{F: b.F, ML: b.ML, WB: b.WB, Dict: b.C.Dict}, in, b.Ch, 1<<20, rec)
	if r.Many {
		return isoResult{err: "many"}
	}
	return isoResult{packed: in, out: r.Out, err: fmt.Sprint(r.Err, r.Bad), evs: rec.take()}
}

func checkIsolation(c *IsoCase, cov *Cov) error {
	var jobs []func() isoResult
	for i := range c.H {
		jobs = append(jobs, func() isoResult { return isoHist(&c.H[i]) })
	}
	for i := range c.B {
		jobs = append(jobs, func() isoResult { return isoBad(&c.B[i]) })
	}
	alone := make([]isoResult, len(jobs))
	one := func() {
		for i, j := range jobs {
			alone[i] = j()
		}
	}
	if !c.Cold {
		one()
	}
	together := make([]isoResult, len(jobs)*c.N)
	panics := make([]any, len(together))
	var wg sync.WaitGroup
	start := make(chan struct{})
	for k := range together {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() { panics[k] = recover() }()
			<-start
			together[k] = jobs[k%len(jobs)]()
		}()
	}
	close(start)
	wg.Wait()
	if c.Cold {
		one()
	}
	for k, g := range together {
		w := alone[k%len(jobs)]
		what := fmt.Sprintf("job %d run together with %d others", k%len(jobs), len(together)-1)
		if panics[k] != nil {
			return fmt.Errorf("%s: panic: %v", what, panics[k])
		}
		if err := diffBytes(what+": compressed output", g.packed, w.packed); err != nil {
			return err
		}
		if err := diffBytes(what+": decompressed data", g.out, w.out); err != nil {
			return err
		}
		if g.err != w.err {
			return fmt.Errorf("%s: final error %s, alone %s", what, g.err, w.err)
		}
		if err := sameEvents(what, g.evs, w.evs); err != nil {
			return err
		}
	}
	cov.Class("jobs together")
	cov.ClassIf(len(c.B) > 0, "with malformed input")
	cov.Nontrivial(len(jobs) > 1)
	return nil
}

// ---- concurrent writes ----

// ConWCase is several goroutines using one compressor.
type ConWCase struct {
	O       WOpts
	Writers int
	Recs    []int // record sizes, cyclically
	PerW    int
	Flush   []int // flush types used by a flusher goroutine
	Query   bool
	Closer  int // -1: Close at the end; otherwise a goroutine closes after about so many yields
	S       uint64
	Tr      bool
}

func checkConWrites(c *ConWCase, cov *Cov) error {
	d := newDst()
	rec := &Recorder{}
	var trs []flate.Tracer
	if c.Tr {
		trs = append(trs, rec)
	}
	fw := flate.NewWriter(d.writer(3), c.O.options(trs...)...)
	var wg sync.WaitGroup
	var problem atomic.Value
	fail := func(f string, a ...any) { problem.CompareAndSwap(nil, fmt.Sprintf(f, a...)) }
	spawn := func(f func()) {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					fail("panic: %v", r)
				}
			}()
			f()
		}()
	}
	// record: writer, sequence number, length, payload depending on both
	mk := func(w, i int) []byte {
		n := c.Recs[(w*7+i)%len(c.Recs)]
		b := make([]byte, 8+n)
		b[0] = byte(w)
		binary.LittleEndian.PutUint16(b[1:], uint16(i))
		b[3] = 0x5a
		binary.LittleEndian.PutUint32(b[4:], uint32(n))
		r := ref.Rng(c.S + uint64(w)*1000003 + uint64(i)*7919)
		a := 1 + int(c.S%256)
		for j := range b[8:] {
			b[8+j] = byte(r.N(a))
		}
		return b
	}
	accepted := make([]int, c.Writers)
	for w := 0; w < c.Writers; w++ {
		spawn(func() {
			for i := 0; i < c.PerW; i++ {
				b := mk(w, i)
				n, err := fw.Write(b)
				if err == fs.ErrClosed && n == 0 && c.Closer >= 0 {
					return
				}
				if err != nil || n != len(b) {
					fail("Write returned %d, %v", n, err)
					return
				}
				accepted[w]++
			}
		})
	}
	var closed atomic.Int32
	if len(c.Flush) > 0 {
		spawn(func() {
			for _, t := range c.Flush {
				if err := fw.Flush(flushTypes[t%5]); err != nil && !(err == fs.ErrClosed && c.Closer >= 0) {
					fail("Flush returned %v", err)
				}
				runtime.Gosched()
			}
		})
	}
	if c.Query {
		spawn(func() {
			for i := 0; i < 50; i++ {
				if fw.Format() != flate.Format(c.O.format()) || int(fw.CompressLevel()) != c.O.level() || int(fw.WindowBits()) != c.O.wbits() || int(fw.Strategy()) != c.O.St || !bytes.Equal(fw.Dict(), c.O.dict()) || len(fw.Tracers()) != len(trs) || fw.UnderlyingWriter() == nil || fw.MemoryLevel() == 0 || fw.Method() != flate.DeflateMethod {
					fail("an accessor gave a wrong answer")
				}
				fw.SetHeader(flate.Header{FileName: "x", OSType: flate.OSTypeUnix, DataType: flate.BinaryData})
				runtime.Gosched()
			}
		})
	}
	if c.Closer >= 0 {
		for k := 0; k < 2; k++ {
			spawn(func() {
				for i := 0; i < c.Closer; i++ {
					runtime.Gosched()
				}
				switch err := fw.Close(); err {
				case nil:
					closed.Add(1)
				case fs.ErrClosed:
				default:
					fail("Close returned %v", err)
				}
			})
		}
	}
	wg.Wait()
	if p := problem.Load(); p != nil {
		return fmt.Errorf("%s", p)
	}
	if c.Closer < 0 {
		if err := fw.Close(); err != nil {
			return fmt.Errorf("Close: %w", err)
		}
	} else if closed.Load() != 1 {
		return fmt.Errorf("%d of 2 concurrent calls to Close returned nil", closed.Load())
	}
	res := refDecode(c.O, d.Buf)
	if res.Kind != ref.OK {
		return fmt.Errorf("output is not a conforming stream: %v", res)
	}
	b := res.Out
	next := make([]int, c.Writers)
	switches, last := 0, -1
	for len(b) > 0 {
		if len(b) < 8 || int(b[0]) >= c.Writers || b[3] != 0x5a {
			return fmt.Errorf("content is not a sequence of whole records: at offset %d of %d", len(res.Out)-len(b), len(res.Out))
		}
		w := int(b[0])
		want := mk(w, next[w])
		if !bytes.HasPrefix(b, want) {
			return fmt.Errorf("content is not a sequence of whole records: record %d of writer %d at offset %d of %d is damaged", next[w], w, len(res.Out)-len(b), len(res.Out))
		}
		next[w]++
		b = b[len(want):]
		if w != last {
			switches++
		}
		last = w
	}
	for w := range next {
		if next[w] != accepted[w] {
			return fmt.Errorf("writer %d had %d writes accepted, %d are in the stream", w, accepted[w], next[w])
		}
	}
	if c.Tr {
		if err := checkEvents(rec.take(), res, false); err != nil {
			return err
		}
	}
	cov.ClassIf(switches > c.Writers, "writers interleaved")
	cov.ClassIf(c.Closer >= 0, "closed meanwhile")
	cov.ClassIf(len(c.Flush) > 0, "flushed meanwhile")
	cov.ClassIf(c.Query, "queried meanwhile")
	cov.Nontrivial(len(res.Out) > 0 && c.Writers > 1)
	return nil
}

// ---- concurrent reads ----

// ConRCase is several goroutines reading one decompressor.
type ConRCase struct {
	O      WOpts
	N      int
	S      uint64
	R      DecOpts
	Reads  []int // buffer sizes by goroutine
	Query  bool
	Closer int // -1 none

	Few  int // each reader stops after so many reads which gave data; 0: at the end
	Gate int // microseconds during which the source gives nothing; 0: none
}

// gated delays the first read.
type gated struct {
	*Src
	d    time.Duration
	once sync.Once
}

func (g *gated) Read(p []byte) (int, error) {
	g.once.Do(func() { time.Sleep(g.d) })
	return g.Src.Read(p)
}

func checkConReads(c *ConRCase, cov *Cov) error {
	// random content: any 8 bytes determine their offset
	content := expand([]Seg{{K: "rand", A: 256, N: c.N, S: c.S}})
	d, _, err := compress(c.O, content, []Op{{Op: "w", N: c.N / 2}, {Op: "f", T: fSync}, {Op: "w", N: c.N / 3}, {Op: "f", T: fFinish}})
	if err != nil {
		return err
	}
	var src io.Reader = c.R.Ch.source(d.Buf)
	if c.Gate > 0 {
		src = &gated{Src: src.(*Src), d: time.Duration(c.Gate) * time.Microsecond}
	}
	ro := c.R.ropts(c.O.format(), c.O.Dict)
	fr := flate.NewReader(src, ro.options()...)
	type chunk []byte
	chunks := make([][]chunk, len(c.Reads))
	errs := make([]error, len(c.Reads))
	rest := []chunk{}
	var wg sync.WaitGroup
	var problem atomic.Value
	fail := func(f string, a ...any) { problem.CompareAndSwap(nil, fmt.Sprintf(f, a...)) }
	for i, n := range c.Reads {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					fail("panic: %v", r)
				}
			}()
			buf := make([]byte, max(1, n))
			for idle := 0; ; {
				nn, err := fr.Read(buf)
				if nn < 0 || nn > len(buf) {
					fail("Read(%d) returned %d", len(buf), nn)
					return
				}
				if nn > 0 {
					chunks[i] = append(chunks[i], append(chunk{}, buf[:nn]...))
					idle = 0
					if len(chunks[i]) == c.Few {
						return
					}
				} else if idle++; idle > 100000 {
					fail("reader %d: 100000 empty reads", i)
					return
				}
				if err != nil {
					errs[i] = err
					return
				}
			}
		}()
	}
	stop := make(chan struct{})
	var qg sync.WaitGroup
	if c.Query {
		qg.Add(1)
		go func() {
			defer qg.Done()
			for {
				select {
				case <-stop:
					return
				default:
				}
				if fr.Format() != flate.Format(ro.F) || int(fr.WindowBits()) != 15 && ro.WB == 0 || fr.MemoryLevel() == 0 || !bytes.Equal(fr.Dict(), ro.dict()) || fr.UnderlyingReader() != src || len(fr.Tracers()) != 0 {
					fail("an accessor gave a wrong answer")
				}
				runtime.Gosched()
			}
		}()
	}
	if c.Closer >= 0 {
		for i := 0; i < c.Closer; i++ {
			runtime.Gosched()
		}
		fr.Close()
	}
	wg.Wait()
	close(stop)
	qg.Wait()
	if c.Few > 0 && problem.Load() == nil {
		b, err := io.ReadAll(fr)
		rest = append(rest, b)
		if err != nil && c.Closer < 0 {
			fail("reading the rest: %v", err)
		}
	}
	fr.Close()
	if p := problem.Load(); p != nil {
		return fmt.Errorf("%s", p)
	}
	total := 0
	seen := make([]bool, len(content))
	var loose []byte
	index := map[[8]byte]int{}
	for i := 0; i+8 <= len(content); i++ {
		index[[8]byte(content[i:i+8])] = i
	}
	active := 0
	for i, cs := range append(chunks, rest) {
		at := -1
		if len(cs) > 0 && i < len(chunks) {
			active++
		}
		for _, ch := range cs {
			total += len(ch)
			if len(ch) < 8 {
				loose = append(loose, ch...)
				continue
			}
			p, ok := index[[8]byte(ch[:8])]
			if !ok || p+len(ch) > len(content) || !bytes.Equal(content[p:p+len(ch)], ch) {
				return fmt.Errorf("reader %d got %d bytes that are not in the content", i, len(ch))
			}
			if p < at {
				return fmt.Errorf("reader %d got offset %d after offset %d", i, p, at)
			}
			at = p + len(ch)
			for j := p; j < p+len(ch); j++ {
				if seen[j] {
					return fmt.Errorf("the byte at offset %d was returned twice", j)
				}
				seen[j] = true
			}
		}
	}
	if total > len(content) {
		return fmt.Errorf("%d bytes returned, the content has %d", total, len(content))
	}
	clean := 0
	for i, e := range errs {
		if e == io.EOF {
			clean++
		} else if c.Closer < 0 && (e != nil || c.Few == 0) {
			return fmt.Errorf("reader %d ended with %v", i, e)
		}
	}
	if (clean > 0 || c.Closer < 0) && total != len(content) {
		return fmt.Errorf("a clean end, but only %d of %d bytes returned", total, len(content))
	}
	// what is not in long chunks, up to total, must be the short ones
	var hist [256]int
	for j := 0; j < total; j++ {
		if !seen[j] {
			hist[content[j]]++
		}
	}
	for j := total; j < len(content); j++ {
		if seen[j] {
			return fmt.Errorf("byte %d was returned, but only %d bytes in all", j, total)
		}
	}
	for _, b := range loose {
		hist[b]--
	}
	for b, n := range hist {
		if n != 0 {
			return fmt.Errorf("byte value %d: %d more in the content than returned", b, n)
		}
	}
	cov.ClassIf(active > 1, "several readers got data")
	cov.ClassIf(c.Closer >= 0 && total < len(content), "closed before the end")
	cov.ClassIf(c.Query, "queried meanwhile")
	cov.ClassIf(c.Few > 0, "readers stop early")
	cov.Nontrivial(active > 1)
	return nil
}

func init() {
	genIso := func(t *rapid.T) *IsoCase {
		c := &IsoCase{N: uni(t, 1, 3, "n")}
		k := uni(t, 1, 4, "nh")
		for i := 0; i < k; i++ {
			c.H = append(c.H, *genHist(t, 8000))
		}
		k = uni(t, 0, 2, "nb")
		for i := 0; i < k; i++ {
			b := BadCase{C: genStreams(t, anyFormat(t), 0, 2, false, true), ML: genML(t), Ch: genChunking(t)}
			b.F = int(b.C.S[0].F)
			if pct(t, 60, "plant") {
				plant(t, &b.C)
			}
			c.B = append(c.B, b)
		}
		return c
	}
	genCW := func(t *rapid.T) *ConWCase {
		c := &ConWCase{O: genWOpts(t), Writers: uni(t, 2, 5, "writers"), PerW: uni(t, 1, 40, "perw"), Query: pct(t, 50, "query"), Closer: -1, S: rapid.Uint64().Draw(t, "s"), Tr: pct(t, 40, "tr")}
		n := uni(t, 1, 4, "nrec")
		for i := 0; i < n; i++ {
			c.Recs = append(c.Recs, pick(t, "rec", 0, 1, uni(t, 0, 60, "rn"), uni(t, 0, 1500, "rn"), uni(t, 0, 6000, "rn")))
		}
		n = pick(t, "nfl", 0, 3, 10, 30)
		for i := 0; i < n; i++ {
			c.Flush = append(c.Flush, uni(t, 0, 4, "ft"))
		}
		if pct(t, 35, "closer") {
			c.Closer = uni(t, 0, 60, "after")
		}
		return c
	}
	genCR := func(t *rapid.T) *ConRCase {
		c := &ConRCase{O: genWOpts(t), N: uni(t, 0, 30000, "n"), S: rapid.Uint64().Draw(t, "s"), R: genDecOpts(t), Query: pct(t, 50, "query"), Closer: -1}
		c.R.ML = pick(t, "ml", 1, 1, 2, 3, 6, 9)
		c.R.Ch.Reads = nil
		k := uni(t, 2, 6, "readers")
		for i := 0; i < k; i++ {
			c.Reads = append(c.Reads, pick(t, "rd", 8, 16, 1, uni(t, 8, 200, "rn"), uni(t, 8, 5000, "rn"), 4096))
		}
		if pct(t, 30, "closer") {
			c.Closer = uni(t, 0, 200, "after")
		}
		if pct(t, 25, "few") {
			c.Few = pick(t, "fewn", 1, 1, 2, 5)
			c.R.ML = pick(t, "ml", 1, 3, 6, 9)
			for len(c.Reads) < pick(t, "readers2", 4, 12) {
				c.Reads = append(c.Reads, uni(t, 8, 60, "rn"))
			}
		}
		if pct(t, 25, "gate") {
			c.Gate = pick(t, "gaten", 100, 1000)
		}
		return c
	}
	const iso = "2 to 18 compressor and decompressor jobs run at once in different goroutines, compared with the same jobs run alone; non-trivial: two or more different jobs"
	const cw = "2 to 5 goroutines writing marked records to one compressor, with flushing, querying, header-setting and closing goroutines; the decoded content must consist of whole records, each writer's in order, exactly the accepted ones; non-trivial: two or more writers"
	const cr = "2 to 6 goroutines reading one decompressor of random content (any 8 bytes determine their offset), with querying and closing goroutines; every byte exactly once; non-trivial: two or more readers got data"
	genCold := func(t *rapid.T) *IsoCase {
		c := genIso(t)
		c.Cold = true
		c.N = uni(t, 2, 4, "n2")
		return c
	}
	const cold = "as isolated, but in a new process, which first runs the jobs together and then alone; non-trivial: two or more jobs"
	reg("C22", "cold", cold, 240, 10000, genCold, checkCold)
	reg("C22", "cold-race", cold+"; race detector", 320, 10000, genCold, checkCold).Mode = "race"
	reg("C22", "isolated", iso, 600, 20000, genIso, checkIsolation)
	reg("C22", "isolated-race", iso+"; race detector", 250, 10000, genIso, checkIsolation).Mode = "race"
	reg("C22", "writes", cw, 1250, 40000, genCW, checkConWrites)
	reg("C22", "writes-race", cw+"; race detector", 600, 20000, genCW, checkConWrites).Mode = "race"
	reg("C22", "reads", cr, 1250, 40000, genCR, checkConReads)
	reg("C22", "reads-race", cr+"; race detector", 600, 20000, genCR, checkConReads).Mode = "race"
}
