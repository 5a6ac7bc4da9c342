package main

import (
	"fmt"
	"io"
	"sort"
	"sync"

	"pgregory.net/rapid"

	flate "github.com/chronos-tachyon/flate"

	"flateverif/ref"
)

// gauge counts bytes, and lets others wait for a number of them.
type gauge struct {
	mu  sync.Mutex
	cv  *sync.Cond
	n   int
	end bool
}

func newGauge() *gauge {
	g := &gauge{}
	g.cv = sync.NewCond(&g.mu)
	return g
}

func (g *gauge) add(n int, end bool) {
	g.mu.Lock()
	g.n += n
	g.end = g.end || end
	g.mu.Unlock()
	g.cv.Broadcast()
}

// wait returns when n bytes were counted, or the end was.
func (g *gauge) wait(n int) {
	g.mu.Lock()
	for g.n < n && !g.end {
		g.cv.Wait()
	}
	g.mu.Unlock()
}

// silentSource falls silent at certain places until what the input so far holds
// was received.
type silentSource struct {
	src   *Src
	at    []int // places
	need  []int // bytes that must have been received before going on
	g     *gauge
	pause int
}

func (s *silentSource) Read(p []byte) (int, error) {
	for len(s.at) > 0 && s.src.pos >= s.at[0] {
		s.pause++
		s.g.wait(s.need[0])
		s.at, s.need = s.at[1:], s.need[1:]
	}
	if len(s.at) > 0 && len(p) > s.at[0]-s.src.pos {
		p = p[:s.at[0]-s.src.pos]
	}
	return s.src.Read(p)
}

// SilentCase is a stream whose source falls silent.
type SilentCase struct {
	M     Made
	ML    int
	Auto  bool
	At    []int // per mille of the input
	Ops   bool  // also after each operation of the compressor
	Ch    Chunking
	Reset bool // the decompressor has been used before
}

func checkSilent(c *SilentCase, cov *Cov) error {
	in, content, dict, f, err := c.M.make()
	if err != nil {
		return err
	}
	var at []int
	for _, x := range c.At {
		at = append(at, len(in)*x/1000)
	}
	flushes := 0
	if c.Ops && c.M.Own != nil {
		d, run, err := compress(c.M.Own.O, content, c.M.Own.Ops)
		if err != nil {
			return err
		}
		_ = d
		for i, r := range run.Results {
			if i%max(1, len(run.Results)/8) == 0 {
				at = append(at, r.Len)
				flushes++
			}
		}
	}
	sort.Ints(at)
	ro := ROpts{F: int(f), ML: c.ML, Dict: dict}
	if c.Auto && f != ref.Raw {
		ro.F = 0
	}
	o := ro.refOptions()
	s := &silentSource{src: c.Ch.source(in), g: newGauge()}
	most := 0
	for _, x := range at {
		if x <= 0 || x >= len(in) {
			continue
		}
		r := ref.Decode(in[:x], o)
		if r.Kind == ref.Corrupt {
			continue // not a conforming stream, or the beginning of one looks like another format
		}
		s.at = append(s.at, x)
		s.need = append(s.need, r.MinOut)
		most = max(most, r.MinOut)
	}
	var fr *flate.Reader
	if c.Reset {
		fr = flate.NewReader(&Src{data: in[:len(in)/2]}, ro.options()...)
		io.ReadFull(fr, make([]byte, len(content)/3))
		fr.Reset(s, ro.options()...)
	} else {
		fr = flate.NewReader(s, ro.options()...)
	}
	defer fr.Close()
	r := readAll(&gaugeReader{fr, s.g}, c.Ch.Reads, len(content)+100)
	s.g.add(0, true)
	if err := r.expectClean("a source with pauses", content); err != nil {
		return err
	}
	cov.Class("format " + formatNames[int(f)])
	cov.ClassIf(flushes > 0, "pauses after flushes")
	cov.ClassIf(len(s.need) == 0 && s.pause > 1, "two or more pauses")
	cov.Nontrivial(s.pause > 0 && most > 0)
	return nil
}

type gaugeReader struct {
	r io.Reader
	g *gauge
}

func (g *gaugeReader) Read(p []byte) (int, error) {
	n, err := g.r.Read(p)
	g.g.add(n, err != nil)
	return n, err
}

func genSilent(t *rapid.T) *SilentCase {
	c := &SilentCase{M: genMade(t, anyFormat(t), pick(t, "max", 300, 3000, 20000), 3), ML: genML(t), Auto: pct(t, 40, "auto"), Ops: pct(t, 70, "ops"), Ch: genChunking(t), Reset: pct(t, 15, "reset")}
	for i := uni(t, 0, 6, "nat"); i > 0; i-- {
		c.At = append(c.At, uni(t, 0, 999, "at"))
	}
	return c
}

// TalkCase is a conversation: messages are flushed, and each must arrive before
// the next is sent.
type TalkCase struct {
	O    WOpts
	RML  int
	Auto bool
	Msgs [][]Seg
	Fl   []int
	Read []int
	Src  int // bytes per read of the decompressor's source at most
}

type talkSource struct {
	r   io.Reader
	max int
}

func (s *talkSource) Read(p []byte) (int, error) {
	if s.max > 0 && len(p) > s.max {
		p = p[:s.max]
	}
	return s.r.Read(p)
}

func checkTalk(c *TalkCase, cov *Cov) error {
	if len(c.Fl) == 0 {
		return nil
	}
	pr, pw := io.Pipe()
	g := newGauge()
	var sent []byte
	ro := ROpts{F: int(c.O.format()), ML: c.RML, Dict: c.O.Dict, WB: 15}
	if c.Auto && c.O.format() != ref.Raw {
		ro.F = 0
	}
	fr := flate.NewReader(&talkSource{pr, c.Src}, ro.options()...)
	defer fr.Close()
	total := 0
	var msgs [][]byte
	for _, m := range c.Msgs {
		p := expandWith(m, c.O.dict())
		msgs = append(msgs, p)
		total += len(p)
	}
	done := make(chan *RRun, 1)
	go func() {
		r := readAll(&gaugeReader{fr, g}, c.Read, total+100)
		g.add(0, true)
		pr.CloseWithError(io.ErrClosedPipe)
		done <- r
	}()
	fw := flate.NewWriter(pw, c.O.options()...)
	var werr error
	for i, p := range msgs {
		if _, werr = fw.Write(p); werr != nil {
			werr = fmt.Errorf("Write: %w", werr)
			break
		}
		if werr = fw.Flush(flushTypes[c.Fl[i%len(c.Fl)]]); werr != nil {
			werr = fmt.Errorf("Flush: %w", werr)
			break
		}
		sent = append(sent, p...)
		g.wait(len(sent)) // it must arrive although nothing follows
	}
	if werr == nil {
		if werr = fw.Close(); werr != nil {
			werr = fmt.Errorf("Close: %w", werr)
		}
	}
	pw.Close()
	r := <-done
	if err := r.expectClean("a conversation", sent); err != nil {
		return err
	}
	if werr != nil {
		return werr
	}
	cov.Class("format " + formatNames[int(c.O.format())])
	cov.ClassIf(len(msgs) > 3, "more than 3 messages")
	cov.Nontrivial(len(msgs) > 1 && total > 0)
	return nil
}

func genTalk(t *rapid.T) *TalkCase {
	c := &TalkCase{O: genWOpts(t), RML: genML(t), Auto: pct(t, 40, "auto"), Src: pick(t, "src", 0, 0, 1, 3, 100)}
	for i := uni(t, 1, 8, "msgs"); i > 0; i-- {
		c.Msgs = append(c.Msgs, genData(t, pick(t, "max", 20, 300, 20000)))
	}
	for i := uni(t, 1, 4, "nfl"); i > 0; i-- {
		c.Fl = append(c.Fl, uni(t, 1, 4, "fl"))
	}
	if pct(t, 50, "reads") {
		for i := uni(t, 1, 3, "nr"); i > 0; i-- {
			c.Read = append(c.Read, pick(t, "rd", 1, uni(t, 1, 100, "r"), uni(t, 1, 70000, "r")))
		}
	}
	return c
}

func init() {
	reg("C32", "silent", "conforming streams from all producers; the source falls silent at generated places (random, and after operations of the compressor) until all that the input so far wholly determines, by the reference decoder, has been read; a decompressor that wants more input first is stuck, which the runtime reports; non-trivial: a pause with something to deliver", 30000, 500000, genSilent, checkSilent)
	reg("C32", "talk", "messages through a compressor, a pipe and a decompressor, each followed by a partial, sync, full or finish flush; the next is sent when the one before has arrived; non-trivial: two messages or more", 16000, 250000, genTalk, checkTalk)
}
