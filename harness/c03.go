package main

import (
	"fmt"

	"pgregory.net/rapid"

	"flateverif/ref"
)

// DecCase: built streams and how to read them.
type DecCase struct {
	C  StreamsCase
	F  int // reader format
	ML int
	WB int
	Ch Chunking
}

func (c *DecCase) ropts() ROpts { return ROpts{F: c.F, ML: c.ML, WB: c.WB, Dict: c.C.Dict} }

func genDec(t *rapid.T, f ref.Format, win, maxStreams int, big bool) *DecCase {
	c := &DecCase{C: genStreams(t, f, win, maxStreams, big, true)}
	c.F = int(f)
	if f != ref.Raw && pct(t, 40, "auto") {
		c.F = 0
	}
	c.ML = genML(t)
	c.Ch = genChunking(t)
	return c
}

func anyFormat(t *rapid.T) ref.Format { return pick(t, "f", ref.Raw, ref.Zlib, ref.Gzip) }

func covBlocks(cov *Cov, res *ref.Result) {
	for _, s := range res.Streams {
		cov.Class("format " + s.Format.String())
		if s.D == nil {
			continue
		}
		for _, k := range s.D.Blocks {
			cov.Class([]string{"stored blocks", "static blocks", "dynamic blocks"}[k.Type])
			cov.ClassIf(k.OutStart == k.OutEnd, "empty blocks")
			cov.ClassIf(k.MaxDist > 24576, "distance codes 29")
			cov.ClassIf(k.MaxDist == 32768, "distance 32768")
			cov.ClassIf(k.Type == 2 && k.NumD == 0, "no distance codes")
			cov.ClassIf(k.Type == 2 && k.NumD == 1, "one distance code")
			cov.ClassIf(k.MinDist > 0 && k.MinDist < k.MaxLen, "overlapping matches possible")
			for _, l := range k.LL {
				if l == 15 {
					cov.Class("15-bit codes")
					break
				}
			}
		}
	}
}

// refOK decodes with the reference and insists that the case is valid: the
// generator promises that.
func refOK(in []byte, o ref.Options, content []byte) *ref.Result {
	res := ref.Decode(in, o)
	if res.Kind != ref.OK || res.Lenient {
		panic(harnessBug(fmt.Sprintf("built stream is not conforming: %v", res)))
	}
	if content != nil || len(res.Out) > 0 {
		must(diffBytes("", res.Out, content) == nil, "reference and builder disagree")
	}
	return res
}

const builtRule = "conforming streams are built token by token: block types, arbitrary complete prefix codes up to 15 bits, single-code and no-code distance trees, arbitrary run-length coding of the code lengths, lengths and distances biased to every symbol's ends, dictionaries, gzip header fields; non-trivial: some content and at least one match or two blocks"

func checkBuilt(c *DecCase, cov *Cov) error {
	b := c.C.build()
	o := c.ropts().refOptions()
	res := refOK(b.In, o, b.Content)
	r := decompress(c.ropts(), b.In, c.Ch, len(b.Content)+100)
	if err := r.expectClean("decompressing a conforming input", b.Content); err != nil {
		return err
	}
	covBlocks(cov, res)
	n, m := 0, 0
	for _, s := range res.Streams {
		n += len(s.D.Blocks)
		for _, k := range s.D.Blocks {
			m += k.Matches
		}
	}
	cov.ClassIf(c.C.Dict != nil, "with dictionary")
	cov.ClassIf(len(b.Content) > 65536, "content over 64 KiB")
	cov.Nontrivial(len(b.Content) > 0 && (n > 1 || m > 0))
	return nil
}

// StdCase: a stream made by the Go standard library.
type StdCase struct {
	F     int
	Level int
	Data  []Seg
	Dict  []Seg `json:",omitempty"`
	Fl    int
	R     DecOpts
}

// DecOpts is how to read.
type DecOpts struct {
	Auto bool
	ML   int
	Ch   Chunking
}

func genDecOpts(t *rapid.T) DecOpts {
	return DecOpts{Auto: pct(t, 40, "auto"), ML: genML(t), Ch: genChunking(t)}
}

func (d DecOpts) ropts(f ref.Format, dict []Seg) ROpts {
	o := ROpts{F: int(f), ML: d.ML, Dict: dict}
	if d.Auto && f != ref.Raw {
		o.F = 0
	}
	return o
}

func genStd(t *rapid.T, maxN int) *StdCase {
	c := &StdCase{F: uni(t, 1, 3, "f"), Level: uni(t, -2, 9, "level"), Data: genData(t, maxN), Fl: pick(t, "fl", 0, 0, 1, 4), R: genDecOpts(t)}
	if c.F != int(ref.Gzip) && pct(t, 30, "hasdict") {
		c.Dict = genDict(t)
	}
	return c
}

func (c *StdCase) make() (in, data []byte) {
	dict := WOpts{Dict: c.Dict}.dict()
	data = expandWith(c.Data, dict)
	return stdCompress(ref.Format(c.F), c.Level, data, dict, c.Fl), data
}

func init() {
	reg("C03", "built", builtRule, 84000, 1008000, func(t *rapid.T) *DecCase { return genDec(t, anyFormat(t), 0, 1, false) }, checkBuilt)
	reg("C03", "big", builtRule+"; larger blocks and distances", 15000, 180000, func(t *rapid.T) *DecCase {
		c := genDec(t, anyFormat(t), 0, 1, true)
		// content first, so that long distances have something to reach
		if pct(t, 70, "filler") {
			s := &c.C.S[0]
			f := ref.BlockSpec{T: 0, N: uni(t, 30000, 65535, "fill"), S: rapid.Uint64().Draw(t, "fs"), A: 256}
			s.Blocks = append([]ref.BlockSpec{f}, s.Blocks...)
		}
		return c
	}, checkBuilt)
	reg("C03", "stdlib", "streams produced by the Go standard library at every level, with dictionaries and flushes; non-trivial: at least 4 bytes", 15000, 180000,
		func(t *rapid.T) *StdCase { return genStd(t, 120000) },
		func(c *StdCase, cov *Cov) error {
			in, data := c.make()
			r := decompress(c.R.ropts(ref.Format(c.F), c.Dict), in, c.R.Ch, len(data)+100)
			if err := r.expectClean("decompressing standard library output", data); err != nil {
				return err
			}
			cov.Class(fmt.Sprintf("std level %d", c.Level))
			cov.Nontrivial(len(data) >= 4)
			return nil
		})
}

// ---- C04 ----

// BadCase: any bytes at all.
type BadCase struct {
	C   StreamsCase
	Hex []byte `json:",omitempty"` // literal input instead of streams
	Mut []Mut  `json:",omitempty"`
	F   int
	ML  int
	WB  int
	Ch  Chunking
	Tl  []byte `json:",omitempty"` // appended
}

func (c *BadCase) input() []byte {
	var in []byte
	if len(c.C.S) > 0 {
		in = c.C.build().In
	}
	in = append(in, c.Hex...)
	in = mutate(in, c.Mut)
	return append(in, c.Tl...)
}

const maxOutBad = 4 << 20

func checkBad(c *BadCase, cov *Cov) error {
	in := c.input()
	ro := ROpts{F: c.F, ML: c.ML, WB: c.WB, Dict: c.C.Dict}
	o := ro.refOptions()
	o.MaxOut = maxOutBad
	res := ref.Decode(in, o)
	r := decompress(ro, in, c.Ch, maxOutBad+100000)
	if err := compareRef("decompressing arbitrary input", r, res, len(in)); err != nil {
		return err
	}
	cov.Class("reference " + res.Kind.String())
	cov.Class("why: " + whyClass(res.Why))
	cov.ClassIf(res.Lenient, "lenient: "+res.AltWhy)
	cov.ClassIf(len(res.Out) > 0, "data before the violation")
	cov.Nontrivial(res.Kind != ref.OK && len(in) > 2)
	return nil
}

const badRule = "random bytes, mutated conforming streams, and conforming streams with one planted violation of each kind; verdict and data compared with the strict reference decoder; non-trivial: more than 2 bytes and not well-formed"

func init() {
	reg("C04", "planted", badRule, 98000, 1176000, genPlanted, checkBad)
	reg("C04", "mutated", badRule, 98000, 1176000, genMutated, checkBad)
	reg("C04", "random", badRule, 112000, 1344000, genRandom, checkBad)
}

func genPlanted(t *rapid.T) *BadCase {
	f := anyFormat(t)
	c := &BadCase{C: genStreams(t, f, pick(t, "win", 0, 0, 0, 256, 1024), 3, pct(t, 3, "big"), true), F: int(f), ML: genML(t), Ch: genChunking(t)}
	if f != ref.Raw && pct(t, 40, "auto") {
		c.F = 0
	}
	plant(t, &c.C)
	c.WB = pick(t, "wb", 0, 0, 0, 8, 10)
	// enough bytes after the violation make it distinguishable from a truncation
	if pct(t, 70, "tail") {
		c.Tl = genBytes(t, 60, "tl")
	}
	return c
}

func genMutated(t *rapid.T) *BadCase {
	f := anyFormat(t)
	c := &BadCase{C: genStreams(t, f, 0, 3, pct(t, 3, "big"), true), F: int(f), ML: genML(t), Ch: genChunking(t)}
	c.Mut = genMuts(t, uni(t, 1, 4, "nm"))
	c.F = pick(t, "rf", int(f), int(f), int(f), 0, 1, 2, 3)
	c.WB = pick(t, "wb", 0, 0, 0, 8, 10)
	if pct(t, 30, "tail") {
		c.Tl = genBytes(t, 60, "tl")
	}
	return c
}

func genRandom(t *rapid.T) *BadCase {
	c := &BadCase{F: uni(t, 0, 3, "f"), ML: genML(t), WB: genWB(t), Ch: genChunking(t)}
	n := pick(t, "hlen", 3, 10, 40, 200)
	switch uni(t, 0, 5, "prefix") {
	case 1:
		c.Hex = []byte{0x78, 0x9c}
	case 2:
		c.Hex = []byte{0x1f, 0x8b, 8, byte(uni(t, 0, 255, "flg"))}
	case 3: // a dynamic block
		c.Hex = []byte{byte(5 | uni(t, 0, 31, "hl")<<3)}
		c.F = 1
	case 4: // a static block
		c.Hex = []byte{byte(3 | uni(t, 0, 31, "x")<<3)}
		c.F = 1
	case 5:
		c.Hex = []byte{byte(uni(t, 0, 7, "x")), byte(n), 0, byte(^n), 255}
		c.F = 1
	}
	r := ref.Rng(rapid.Uint64().Draw(t, "s"))
	m := uni(t, 0, n, "n")
	skew := pick(t, "skew", 0, 0, 1, 2)
	for i := 0; i < m; i++ {
		x := byte(r.Next())
		switch skew {
		case 1:
			x &= byte(r.Next())
		case 2:
			x |= byte(r.Next())
		}
		c.Hex = append(c.Hex, x)
	}
	if pct(t, 15, "dict") {
		c.C.Dict = genDict(t)
	}
	return c
}

func genBad(t *rapid.T) *BadCase {
	switch uni(t, 0, 2, "badkind") {
	case 0:
		return genPlanted(t)
	case 1:
		return genMutated(t)
	}
	return genRandom(t)
}
