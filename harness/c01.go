package main

import (
	"bytes"
	"fmt"

	"pgregory.net/rapid"

	"flateverif/ref"
)

// HistCase is a compressor history with a decompressor to read it back.
type HistCase struct {
	O    WOpts
	Data []Seg
	Ops  []Op
	RML  int  // decompressor memory level
	RWB  int  // how much larger its window is
	Auto bool // auto-detect
	Ch   Chunking
}

func (c *HistCase) data() []byte { return expandWith(c.Data, c.O.dict()) }

func (c *HistCase) ropts() ROpts {
	o := ROpts{F: int(c.O.format()), ML: c.RML, Dict: c.O.Dict}
	if c.Auto && o.F != int(ref.Raw) {
		o.F = 0
	}
	if c.O.WB != 0 {
		o.WB = min(15, c.O.WB+c.RWB)
	}
	return o
}

func genHist(t *rapid.T, maxN int) *HistCase {
	c := &HistCase{O: genWOpts(t)}
	c.Data = genData(t, maxN)
	c.Ops = genOps(t, totalN(c.Data), true)
	c.RML = genML(t)
	c.RWB = pick(t, "rwb", 0, 0, 0, 1, 3)
	c.Auto = pct(t, 30, "auto")
	c.Ch = genChunking(t)
	return c
}

// genHistTrees aims at extreme code lengths: skewed frequencies, one block.
func genHistTrees(t *rapid.T) *HistCase {
	c := &HistCase{O: genWOpts(t)}
	c.O.ML = pick(t, "ml", 3, 4, 5, 6, 7, 8)
	c.O.Dict = nil
	if c.O.CL == 0 {
		c.O.CL = 6
	}
	c.O.St = pick(t, "strategy", 0, 1, 1, 2)
	n := uni(t, 1, 2, "segs")
	for i := 0; i < n; i++ {
		s := Seg{K: pick(t, "kind", "fib", "fib", "dyad", "levels"), S: rapid.Uint64().Draw(t, "seed")}
		switch s.K {
		case "fib":
			s.A = uni(t, 10, 24, "k")
			// the total of the first k Fibonacci numbers, more or less
			a, b, tot := 1, 1, 0
			for i := 0; i < s.A; i++ {
				tot += a
				a, b = b, a+b
			}
			s.N = min(max(1, tot+uni(t, -20, 5, "dn")), 120000)
		case "dyad":
			s.A = uni(t, 0, 12, "a")
			s.N = uni(t, 100, 60000, "n")
		case "levels":
			s.A = uni(t, 1, 12, "a")
			s.N = uni(t, 100, 30000, "n")
		}
		c.Data = append(c.Data, s)
	}
	c.Ops = genOps(t, totalN(c.Data), false)
	if pct(t, 60, "oneblock") {
		c.Ops = nil
	}
	return c
}

// genHistDeep is about codes that have to be flattened several times before
// they fit: large blocks whose symbol frequencies grow geometrically, alone
// or among many equally frequent symbols.
func genHistDeep(t *rapid.T) *HistCase {
	c := &HistCase{O: genWOpts(t)}
	c.O.ML = pick(t, "ml", 7, 8, 9, 9)
	if c.O.CL == 0 {
		c.O.CL = 6
	}
	c.O.St = pick(t, "strategy", 0, 1, 1, 1, 2)
	geo := Seg{K: "geo", S: rapid.Uint64().Draw(t, "seed"), A: uni(t, 140, 200, "ratio"), N: uni(t, 20000, 150000, "n")}
	many := Seg{K: "rand", S: rapid.Uint64().Draw(t, "seed"), A: pick(t, "alpha", 16, 64, 200, 240, 256), N: uni(t, 5000, 120000, "n")}
	switch uni(t, 0, 3, "shape") {
	case 0:
		c.Data = []Seg{geo}
	case 1:
		c.Data = []Seg{geo, many}
	case 2:
		c.Data = []Seg{many, geo}
	default:
		text := Seg{K: "text", S: rapid.Uint64().Draw(t, "seed"), N: uni(t, 500, 20000, "n")}
		c.Data = []Seg{text, many}
	}
	if pct(t, 30, "ops") {
		c.Ops = genOps(t, totalN(c.Data), false)
	}
	return c
}

func checkRoundTrip(c *HistCase, cov *Cov) error {
	data := c.data()
	d, _, err := compress(c.O, data, c.Ops)
	if err != nil {
		return err
	}
	r := decompress(c.ropts(), d.Buf, c.Ch, len(data)+100)
	if err := r.expectClean("decompressing the output", data); err != nil {
		return err
	}
	covHist(c, data, cov)
	return nil
}

func covHist(c *HistCase, data []byte, cov *Cov) {
	fl := 0
	for _, op := range c.Ops {
		if op.Op == "f" {
			fl++
		}
	}
	cov.ClassIf(fl > 0, "with flushes")
	cov.ClassIf(len(c.O.Dict) > 0, "with dictionary")
	cov.ClassIf(len(data) > 1<<uint(c.O.wbits()), "longer than the window")
	cov.ClassIf(len(data) >= 65536, "64 KiB or more")
	cov.ClassIf(len(data) == 0, "empty")
	cov.Class("format " + c.O.format().String())
	cov.Class(fmt.Sprintf("strategy %d", c.O.St))
	cov.Nontrivial(len(data) >= 4 && !bytes.Equal(data, bytes.Repeat(data[:1], len(data))) || fl > 0 && len(data) > 0)
}

const histRule = "a compressor configuration, content (segments of random/run/text/copy/periodic/skewed data), a write/flush history and a source chunking are generated; non-trivial: at least 4 bytes not all equal, or any content with a flush"

func init() {
	reg("C01", "history", histRule, 18000, 216000, func(t *rapid.T) *HistCase { return genHist(t, 40000) }, checkRoundTrip)
	reg("C01", "large", histRule, 1000, 12000, func(t *rapid.T) *HistCase {
		c := genHist(t, 400000)
		if pct(t, 60, "incompressible") {
			c.Data = append(c.Data, Seg{K: "rand", A: 256, N: uni(t, 60000, 200000, "inc"), S: rapid.Uint64().Draw(t, "incs")})
		}
		return c
	}, checkRoundTrip)
	reg("C01", "trees", histRule+"; skewed symbol frequencies only", 4800, 57600, genHistTrees, checkRoundTrip)
	reg("C01", "deep", histRule+"; codes that need flattening", 320, 7200, genHistDeep, checkRoundTrip)

	reg("C02", "history", histRule, 24000, 288000, func(t *rapid.T) *HistCase { return genHist(t, 40000) }, checkConforming)
	reg("C02", "large", histRule, 900, 10800, func(t *rapid.T) *HistCase { return genHist(t, 300000) }, checkConforming)
	reg("C02", "trees", histRule+"; skewed symbol frequencies only", 7200, 86400, genHistTrees, checkConforming)
	reg("C02", "deep", histRule+"; codes that need flattening", 480, 7200, genHistDeep, checkConforming)
}

// C02: strict conformance of everything emitted.
func checkConforming(c *HistCase, cov *Cov) error {
	data := c.data()
	d, _, err := compress(c.O, data, c.Ops)
	if err != nil {
		return err
	}
	res, err := strict(c.O, d.Buf, data)
	if err != nil {
		return err
	}
	for i, s := range res.Streams {
		switch s.Format {
		case ref.Zlib:
			if s.Hdr.FDICT != (c.O.dict() != nil) {
				return fmt.Errorf("stream %d: FDICT is %v", i, s.Hdr.FDICT)
			}
		}
		for j, b := range s.D.Blocks {
			if b.Final != (j == len(s.D.Blocks)-1) {
				return fmt.Errorf("stream %d: final flag of block %d is %v", i, j, b.Final)
			}
			cov.Class([]string{"stored blocks", "static blocks", "dynamic blocks"}[b.Type])
			for _, l := range b.LL {
				if l == 15 && b.Type == 2 {
					cov.Class("blocks with 15-bit codes")
					break
				}
			}
			for _, l := range b.CL {
				if l == 7 {
					cov.Class("blocks with 7-bit code-length codes")
					break
				}
			}
			cov.ClassIf(b.Type == 2 && b.NumD == 1, "one-code distance trees")
			cov.ClassIf(b.Type == 2 && b.NumD == 0, "no-code distance trees")
		}
	}
	// An independent implementation.
	f := c.O.format()
	if f == ref.Gzip && c.O.dict() != nil {
		// the standard library has no gzip dictionaries
	} else {
		out, n, err := stdDecode(f, d.Buf, c.O.dict())
		if err != nil {
			return fmt.Errorf("the Go standard library rejects the output: %w", err)
		}
		if err := diffBytes("content by the Go standard library", out, data); err != nil {
			return err
		}
		if n != len(res.Streams) {
			return fmt.Errorf("the standard library sees %d streams, the reference %d", n, len(res.Streams))
		}
	}
	covHist(c, data, cov)
	return nil
}
