package main

import (
	"fmt"

	"pgregory.net/rapid"

	flate "github.com/chronos-tachyon/flate"

	"flateverif/ref"
)

// StratCase is a history whose output structure is examined.
type StratCase struct {
	H   HistCase
	Hdr *Hdr `json:",omitempty"`
}

// containerSize is the size of a header and trailer.
func containerSize(o WOpts, hdr *Hdr) int {
	switch o.format() {
	case ref.Zlib:
		if o.dict() != nil {
			return 10
		}
		return 6
	case ref.Gzip:
		n := 10 + 2 + 8
		if hdr != nil {
			if len(hdr.Name) > 0 {
				n += len(hdr.Name) + 1
			}
			if len(hdr.Comm) > 0 {
				n += len(hdr.Comm) + 1
			}
			if x := hdr.extraLen(); x > 0 {
				n += 2 + x
			}
		}
		return n
	}
	return 0
}

// levelHint checks what a header says about the level.
func levelHint(o WOpts, h ref.Header) error {
	fast := o.St == 1 || o.St == 2 || o.level() < 2
	switch o.format() {
	case ref.Zlib:
		want := []int{0, 0, 1, 1, 1, 1, 2, 3, 3, 3}[o.level()]
		if fast {
			want = 0
		}
		if h.FLEVEL != want {
			return fmt.Errorf("strategy %d, level %d: the header says FLEVEL %d, want %d", o.St, o.level(), h.FLEVEL, want)
		}
	case ref.Gzip:
		want := byte(0)
		if fast {
			want = 4
		} else if o.level() == 9 {
			want = 2
		}
		if h.XFL != want {
			return fmt.Errorf("strategy %d, level %d: the header says XFL %d, want %d", o.St, o.level(), h.XFL, want)
		}
	}
	return nil
}

func checkStrategy(c *StratCase, cov *Cov) error {
	data := c.H.data()
	o := c.H.O
	d := newDst()
	fw := flate.NewWriter(d.writer(0), o.options()...)
	if c.Hdr != nil {
		if err := fw.SetHeader(c.Hdr.header()); err != nil {
			return err
		}
	}
	run := runOps(fw, d, data, c.H.Ops, true, true)
	if err := run.firstErr(); err != nil {
		return err
	}
	res, err := strict(o, d.Buf, data)
	if err != nil {
		return err
	}
	for i, s := range res.Streams {
		if err := levelHint(o, s.Hdr); err != nil {
			return fmt.Errorf("stream %d: %w", i, err)
		}
		for j, b := range s.D.Blocks {
			where := fmt.Sprintf("stream %d, block %d (type %d, %d literals, %d matches)", i, j, b.Type, b.Literals, b.Matches)
			if o.St == 1 && b.Matches > 0 {
				return fmt.Errorf("Huffman-only strategy: %s", where)
			}
			if o.St == 2 && b.Matches > 0 && b.MaxDist > 1 {
				return fmt.Errorf("run-length strategy: %s has a match at distance %d", where, b.MaxDist)
			}
			if o.St == 3 && b.Type == 2 {
				return fmt.Errorf("fixed strategy: %s", where)
			}
			if o.level() == 0 && b.Type != 0 && b.Literals+b.Matches > 0 {
				return fmt.Errorf("level 0: %s", where)
			}
			cov.ClassIf(b.Matches > 0, fmt.Sprintf("matches with strategy %d", o.St))
			cov.ClassIf(b.Type == 2, fmt.Sprintf("dynamic blocks with strategy %d", o.St))
		}
	}
	flushes := 0
	for _, op := range c.H.Ops {
		if op.Op == "f" {
			flushes++
		}
	}
	limit := len(data) + len(data)/64 + 64 + 16*flushes + len(res.Streams)*containerSize(o, c.Hdr)
	if len(d.Buf) > limit {
		return fmt.Errorf("%d bytes became %d, with %d flushes in %d streams; the bound is %d", len(data), len(d.Buf), flushes, len(res.Streams), limit)
	}
	cov.ClassIf(len(d.Buf) > len(data)+len(res.Streams)*containerSize(o, c.Hdr), "expanded")
	cov.ClassIf(flushes > 3, "many flushes")
	cov.ClassIf(o.level() == 0, "level 0")
	cov.ClassIf(len(data) > 65536, "over 64 KiB")
	cov.Nontrivial(len(data) >= 16)
	return nil
}

// ShrinkCase is a repetition of a short block.
type ShrinkCase struct {
	O   WOpts
	Blk int
	N   int
	S   uint64
	A   int
	W   []int // write sizes, cyclically
}

func checkShrink(c *ShrinkCase, cov *Cov) error {
	r := ref.Rng(c.S)
	blk := make([]byte, c.Blk)
	for i := range blk {
		blk[i] = byte(r.N(c.A))
	}
	data := make([]byte, c.N)
	for i := range data {
		data[i] = blk[i%len(blk)]
	}
	var ops []Op
	for i, n := 0, 0; n < len(data) && len(c.W) > 0; i++ {
		ops = append(ops, Op{Op: "w", N: c.W[i%len(c.W)]})
		n += c.W[i%len(c.W)]
	}
	d, _, err := compress(c.O, data, ops)
	if err != nil {
		return err
	}
	if len(d.Buf)*4 > len(data)+4*containerSize(c.O, nil) {
		return fmt.Errorf("%d bytes repeating a block of %d became %d", len(data), len(blk), len(d.Buf))
	}
	if _, err := strict(c.O, d.Buf, data); err != nil {
		return err
	}
	cov.Class(fmt.Sprintf("strategy %d", c.O.St))
	cov.ClassIf(c.Blk > 32, "blocks over 32 bytes")
	cov.Nontrivial(true)
	return nil
}

func init() {
	const rule = "a compressor history (all strategies and levels, flushes, incompressible and compressible data); block structure by the reference decoder, size against the bound; non-trivial: at least 16 bytes"
	reg("C21", "structure", rule, 14000, 168000, func(t *rapid.T) *StratCase {
		c := &StratCase{H: *genHist(t, 40000)}
		c.H.Ch, c.H.RML = Chunking{}, 0
		c.H.O.St = pick(t, "st", 0, 1, 1, 2, 2, 3, 3)
		if pct(t, 15, "level0") {
			c.H.O.CL = 0
		}
		if c.H.O.F == 3 && pct(t, 30, "hdr") {
			h := genHdr(t)
			c.Hdr = &h
		}
		return c
	}, checkStrategy)
	reg("C21", "expansion", rule+"; mostly incompressible data", 5000, 60000, func(t *rapid.T) *StratCase {
		c := &StratCase{H: *genHist(t, 2000)}
		c.H.Ch, c.H.RML = Chunking{}, 0
		n := uni(t, 1, 3, "nseg")
		for i := 0; i < n; i++ {
			c.H.Data = append(c.H.Data, Seg{K: "rand", A: pick(t, "a", 256, 256, 256, 250, 200, 144, 128), N: genSize(t, 150000, "n"), S: rapid.Uint64().Draw(t, "s")})
		}
		if pct(t, 40, "flushy") {
			m := uni(t, 1, 200, "m")
			w := pick(t, "w", 0, 1, 2, 3, 7, 20, 100, 511, 512, 513)
			for i := 0; i < m; i++ {
				c.H.Ops = append(c.H.Ops, Op{Op: "w", N: w}, Op{Op: "f", T: uni(t, 0, 4, "ft")})
			}
		} else if pct(t, 40, "small writes") {
			w := pick(t, "w", 1, 3, 100, 511, 513, 4095, 4097)
			for i := 0; i < 2000; i++ {
				c.H.Ops = append(c.H.Ops, Op{Op: "w", N: w})
			}
		}
		return c
	}, checkStrategy)
	reg("C21", "shrink", "at least 16 KiB of repetitions of a random block of 1 to 100 bytes (runs of one byte for the run-length strategy), every level above 0, memory level and window, written in pieces; non-trivial: all", 4000, 48000, func(t *rapid.T) *ShrinkCase {
		c := &ShrinkCase{O: genWOpts(t), N: 16384 + uni(t, 0, 60000, "n"), S: rapid.Uint64().Draw(t, "s"), A: pick(t, "a", 256, 256, 2, 10), Blk: pick(t, "blk", 1, 2, 3, 4, uni(t, 1, 100, "b"), uni(t, 1, 100, "b"))}
		c.O.St = pick(t, "st", 0, 0, 0, 2)
		if c.O.St == 2 {
			c.Blk = 1
		}
		if c.O.CL == 0 {
			c.O.CL = uni(t, 1, 9, "cl")
		}
		n := uni(t, 0, 2, "nw")
		for i := 0; i < n; i++ {
			c.W = append(c.W, pick(t, "w", 1<<uni(t, 5, 15, "wk"), uni(t, 20, 5000, "wn")))
		}
		return c
	}, checkShrink)
}
