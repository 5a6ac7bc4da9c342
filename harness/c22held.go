package main

import (
	"fmt"
	"math"
	"sync"

	"pgregory.net/rapid"

	flate "github.com/chronos-tachyon/flate"
)

// ---- one is held up, the others go on ----

// Held is an object that is held up by what it uses.
type Held struct {
	H  HistCase
	By string // "dst", "src", "unread", "wtracer", "rtracer"
	N  int    // so many like it (0: one)
	At int    // calls to the destination, per mille of the input, or events before that
}

// HeldCase: objects held up one after the other; then others are used.
type HeldCase struct {
	Held []Held
	I    IsoCase
}

// holdup holds up whoever comes first through it.
type holdup struct {
	once    sync.Once
	held    chan struct{}
	release chan struct{}
	done    chan struct{}
}

func newHoldup() *holdup {
	return &holdup{held: make(chan struct{}), release: make(chan struct{}), done: make(chan struct{})}
}

func (g *holdup) pass() {
	g.once.Do(func() { close(g.held) })
	<-g.release
}

// heldDst is a destination with Flush and Sync.
type heldDst struct {
	g    *holdup
	left int
	buf  []byte
}

func (d *heldDst) tick() {
	if d.left == 0 {
		d.g.pass()
	}
	d.left--
}

func (d *heldDst) Write(p []byte) (int, error) {
	d.tick()
	d.buf = append(d.buf, p...)
	return len(p), nil
}

func (d *heldDst) Flush() error { d.tick(); return nil }
func (d *heldDst) Sync() error  { d.tick(); return nil }

// heldSrc is a source.
type heldSrc struct {
	*Src
	g  *holdup
	at int
}

func (s *heldSrc) Read(p []byte) (int, error) {
	if s.pos >= s.at {
		s.at = math.MaxInt
		s.g.pass()
	} else if len(p) > s.at-s.pos {
		p = p[:s.at-s.pos]
	}
	return s.Src.Read(p)
}

// heldTracer is a tracer.
type heldTracer struct {
	g    *holdup
	left int
}

func (t *heldTracer) OnEvent(flate.Event) {
	if t.left == 0 {
		t.g.pass()
	}
	t.left--
}

// run runs the object to its end.
func (h *Held) run(g *holdup) isoResult {
	data := h.H.data()
	d := &heldDst{g: g, left: -1}
	var wt, rt []flate.Tracer
	switch h.By {
	case "dst":
		d.left = h.At
	case "wtracer":
		wt = append(wt, &heldTracer{g, h.At})
	case "rtracer":
		rt = append(rt, &heldTracer{g, h.At})
	}
	run := runOps(flate.NewWriter(d, h.H.O.options(wt...)...), newDst(), data, h.H.Ops, true, true)
	if err := run.firstErr(); err != nil {
		return isoResult{err: err.Error()}
	}
	src := &heldSrc{Src: h.H.Ch.source(d.buf), g: g, at: math.MaxInt}
	if h.By == "src" {
		src.at = len(d.buf) * h.At / 1000
	}
	fr := flate.NewReader(src, h.H.ropts().options(rt...)...)
	defer fr.Close()
	if h.By == "unread" {
		if n, err := fr.Read(make([]byte, 1)); n == 1 && err == nil {
			g.pass()
			data = data[1:]
		}
	}
	r := readAll(fr, h.H.Ch.Reads, len(data)+100)
	out := isoResult{packed: d.buf, out: r.Out, err: fmt.Sprint(r.Err, r.Bad)}
	return out
}

func checkHeld(c *HeldCase, cov *Cov) error {
	var jobs []func() isoResult
	for i := range c.I.H {
		jobs = append(jobs, func() isoResult { return isoHist(&c.I.H[i]) })
	}
	for i := range c.I.B {
		jobs = append(jobs, func() isoResult { return isoBad(&c.I.B[i]) })
	}
	var alone, aloneHeld []isoResult
	for _, j := range jobs {
		alone = append(alone, j())
	}
	var heldOnes []*Held
	for i := range c.Held {
		for k := max(c.Held[i].N, 1); k > 0; k-- {
			heldOnes = append(heldOnes, &c.Held[i])
		}
		g := newHoldup()
		close(g.release)
		r := c.Held[i].run(g)
		for len(aloneHeld) < len(heldOnes) {
			aloneHeld = append(aloneHeld, r)
		}
	}
	// Hold them up, one after the other. If one does not get to its gate
	// because of another, everything is asleep from then on.
	held := make([]isoResult, len(heldOnes))
	gates := make([]*holdup, len(heldOnes))
	stuck := 0
	for i := range heldOnes {
		g := newHoldup()
		gates[i] = g
		go func() {
			defer close(g.done)
			held[i] = heldOnes[i].run(g)
		}()
		select {
		case <-g.held:
			stuck++
			cov.Class("held by " + heldOnes[i].By)
		case <-g.done:
		}
	}
	together := make([]isoResult, len(jobs)*c.I.N)
	var wg sync.WaitGroup
	for k := range together {
		wg.Add(1)
		go func() {
			defer wg.Done()
			together[k] = jobs[k%len(jobs)]()
		}()
	}
	wg.Wait()
	for _, g := range gates {
		close(g.release)
		<-g.done
	}
	cmp := func(what string, g, w isoResult) error {
		if err := diffBytes(what+": compressed output", g.packed, w.packed); err != nil {
			return err
		}
		if err := diffBytes(what+": decompressed data", g.out, w.out); err != nil {
			return err
		}
		if g.err != w.err {
			return fmt.Errorf("%s: final error %s, alone %s", what, g.err, w.err)
		}
		return sameEvents(what, g.evs, w.evs)
	}
	for k, g := range together {
		if err := cmp(fmt.Sprintf("job %d run while %d others are held up", k%len(jobs), stuck), g, alone[k%len(jobs)]); err != nil {
			return err
		}
	}
	for i, g := range held {
		if err := cmp(fmt.Sprintf("job %d, held up by %s for a while", i, heldOnes[i].By), g, aloneHeld[i]); err != nil {
			return err
		}
	}
	cov.ClassIf(stuck > 8, "more than 8 held up")
	cov.ClassIf(stuck > 60, "more than 60 held up")
	cov.Nontrivial(stuck > 0 && len(jobs) > 0)
	return nil
}

func init() {
	gen := func(t *rapid.T) *HeldCase {
		c := &HeldCase{}
		c.I.N = uni(t, 1, 3, "n")
		for i := uni(t, 1, 2, "nh"); i > 0; i-- {
			c.I.H = append(c.I.H, *genHist(t, 6000))
		}
		by := []string{"dst", "dst", "src", "src", "unread", "wtracer", "rtracer"}
		if pick(t, "same", true, false) { // all in the same place
			by = []string{pick(t, "by", by...)}
		}
		for i := pick(t, "nheld", 1, 1, 2, 3, 6, 20, 30); i > 0; i-- {
			h := Held{H: *genHist(t, 4000), By: pick(t, "by", by...)}
			h.At = uni(t, 0, 8, "at")
			if h.By == "src" {
				h.At = uni(t, 0, 999, "at")
			}
			c.Held = append(c.Held, h)
		}
		if pick(t, "crowd", 0, 0, 0, 0, 0, 0, 0, 0, 0, 1) != 0 { // many alike
			h := &c.Held[0]
			h.N = pick(t, "ncrowd", 70, 140)
			if pick(t, "big", true, false) { // more than is kept back for later
				h.H = *genHist(t, 40000)
				h.H.O.ML = uni(t, 1, 3, "ml")
				h.H.Data = append([]Seg{{K: "rand", N: uni(t, 5000, 40000, "n"), S: rapid.Uint64().Draw(t, "seed")}}, h.H.Data...)
			}
		}
		return c
	}
	const rule = "1 to 170 compressors and decompressors are held up, by the destination, the source, a tracer or a reader that does not go on; others are used meanwhile and must give the results they give alone, and so must the held ones afterwards; non-trivial: at least one is held up while others work"
	reg("C22", "held", rule, 1000, 20000, gen, checkHeld)
	reg("C22", "held-race", rule+"; race detector", 150, 5000, gen, checkHeld).Mode = "race"
}
