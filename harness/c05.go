package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"hash/adler32"
	"hash/crc32"

	"pgregory.net/rapid"

	flate "github.com/chronos-tachyon/flate"

	"flateverif/ref"
)

// Made is a conforming input from one of three producers.
type Made struct {
	Built *StreamsCase `json:",omitempty"`
	Own   *HistCase    `json:",omitempty"`
	Std   *StdCase     `json:",omitempty"`
}

func genMade(t *rapid.T, f ref.Format, maxN, maxStreams int) Made {
	switch uni(t, 0, 4, "producer") {
	case 0:
		h := genHist(t, maxN)
		h.O.F = int(f)
		return Made{Own: h}
	case 1:
		s := genStd(t, maxN)
		s.F = int(f)
		if f == ref.Gzip {
			s.Dict = nil
		}
		return Made{Std: s}
	}
	c := genStreams(t, f, 0, maxStreams, false, true)
	return Made{Built: &c}
}

// make returns the input, its content, the dictionary recipe and the format.
func (m *Made) make() (in, content []byte, dict []Seg, f ref.Format, err error) {
	switch {
	case m.Own != nil:
		data := m.Own.data()
		d, _, err := compress(m.Own.O, data, m.Own.Ops)
		if err != nil {
			return nil, nil, nil, 0, err
		}
		return d.Buf, data, m.Own.O.Dict, m.Own.O.format(), nil
	case m.Std != nil:
		in, data := m.Std.make()
		return in, data, m.Std.Dict, ref.Format(m.Std.F), nil
	}
	b := m.Built.build()
	return b.In, b.Content, m.Built.Dict, m.Built.S[0].F, nil
}

// ---- C05 ----

// CutCase: cut a conforming input.  Cuts are per mille plus offset when the
// input is long; short inputs are cut everywhere.
type CutCase struct {
	M    Made
	R    DecOpts
	Cuts []int // each: >=0 offset from the start, <0 from the end
	Pm   []int // per mille
	All  bool
}

func checkCuts(c *CutCase, cov *Cov) error {
	in, content, dict, f, err := c.M.make()
	if err != nil {
		return err
	}
	ro := c.R.ropts(f, dict)
	full := refOK(in, ro.refOptions(), content)
	bound := map[int]int{0: 0}
	n := 0
	for _, s := range full.Streams {
		n += len(s.Out)
		bound[s.End] = n
	}
	var cuts []int
	if c.All && len(in) <= 700 {
		for k := 1; k < len(in); k++ {
			cuts = append(cuts, k)
		}
		cov.Class("cut at every byte")
	} else {
		for _, k := range c.Cuts {
			if k < 0 {
				k += len(in)
			}
			cuts = append(cuts, k)
		}
		for i, p := range c.Pm {
			cuts = append(cuts, len(in)*p/1000+i%3)
		}
		for _, s := range full.Streams {
			cuts = append(cuts, s.End+1, s.End+2, s.End+5, s.End-1)
		}
		if len(cuts) > 40 {
			cuts = cuts[:40]
		}
	}
	for _, k := range cuts {
		if k <= 0 || k >= len(in) {
			continue
		}
		_, atBound := bound[k]
		if ro.F == 0 && !atBound {
			if _, one := bound[k-1]; one {
				continue // one byte of a stream: no format to detect
			}
		}
		res := ref.Decode(in[:k], ro.refOptions())
		r := decompress(ro, in[:k], c.R.Ch, len(content)+100)
		what := fmt.Sprintf("input cut at byte %d of %d (streams end at %v)", k, len(in), bound)
		if atBound {
			if err := r.expectClean(what, content[:bound[k]]); err != nil {
				return err
			}
			cov.Class("cuts between streams")
			continue
		}
		must(res.Kind == ref.Truncated, "reference on a cut input: "+res.String())
		if r.Bad != "" {
			return fmt.Errorf("%s: %s", what, r.Bad)
		}
		if !bytes.HasPrefix(content, r.Out) {
			return fmt.Errorf("%s: data is not a prefix of the original: %w", what, diffBytes("data", r.Out, content))
		}
		if len(r.Out) < res.MinOut {
			return fmt.Errorf("%s: only %d bytes returned, %d are decodable (%s)", what, len(r.Out), res.MinOut, res.Why)
		}
		if k2 := errKind(r.Err); k2 != "ueof" {
			return fmt.Errorf("%s: final error %v (%s), want io.ErrUnexpectedEOF", what, r.Err, k2)
		}
		cov.Class("cut in " + cutClass(res.Why))
		cov.Nontrivial(true)
	}
	return nil
}

func cutClass(why string) string {
	if len(why) > 4 && (why[:4] == "zlib" || why[:4] == "gzip") {
		return why
	}
	return "deflate data: " + why
}

func genCuts(t *rapid.T, c *CutCase) {
	for i := uni(t, 3, 12, "ncut"); i > 0; i-- {
		switch uni(t, 0, 2, "cutc") {
		case 0:
			c.Cuts = append(c.Cuts, uni(t, 1, 60, "cut"))
		case 1:
			c.Cuts = append(c.Cuts, -uni(t, 1, 60, "cut"))
		case 2:
			c.Pm = append(c.Pm, uni(t, 0, 999, "cut"))
		}
	}
}

const cutRule = "a conforming input (built, compressed by the package, or by the standard library) is cut at every byte (short inputs) or at generated places; non-trivial: some cut inside a stream"

// ---- C06 ----

// Alt is one alteration of a stored check value or of the content.
type Alt struct {
	K string // flip (bits), value, content
	B uint64 // bit / value selector
}

// SumCase: conforming zlib/gzip streams whose stored values are altered.
type SumCase struct {
	C  StreamsCase
	J  int // which stream
	R  DecOpts
	A  []Alt
	Ev bool // every bit of every stored value
}

type field struct {
	name string
	off  int
	n    int // bytes
	bits []int
}

// checkFields lists the stored check values of stream j.
func checkFields(in []byte, s ref.Stream) []field {
	var fs []field
	all := func(n int) (b []int) {
		for i := 0; i < n*8; i++ {
			b = append(b, i)
		}
		return
	}
	switch s.Format {
	case ref.Zlib:
		fs = append(fs, field{"zlib FCHECK", s.Start + 1, 1, []int{0, 1, 2, 3, 4}})
		if s.Hdr.FDICT {
			fs = append(fs, field{"zlib DICTID", s.Start + 2, 4, all(4)})
		}
		fs = append(fs, field{"zlib Adler-32", s.End - 4, 4, all(4)})
	case ref.Gzip:
		if s.Hdr.FHCRC {
			fs = append(fs, field{"gzip HCRC", s.Start + s.Hdr.Len - 2, 2, all(2)})
		}
		fs = append(fs, field{"gzip CRC-32", s.End - 8, 4, all(4)}, field{"gzip ISIZE", s.End - 4, 4, all(4)})
	}
	return fs
}

func checkSums(c *SumCase, cov *Cov) error {
	b := c.C.build()
	f := c.C.S[0].F
	ro := c.R.ropts(f, c.C.Dict)
	o := ro.refOptions()
	full := refOK(b.In, o, b.Content)
	r := decompress(ro, b.In, c.R.Ch, len(b.Content)+100)
	if err := r.expectClean("input with matching stored values", b.Content); err != nil {
		return err
	}
	j := c.J % len(full.Streams)
	s := full.Streams[j]
	fs := checkFields(b.In, s)
	try := func(in []byte, what string, ro ROpts) error {
		res := ref.Decode(in, ro.refOptions())
		r := decompress(ro, in, c.R.Ch, len(b.Content)+100000)
		if err := compareRef(what, r, res, len(in)); err != nil {
			return err
		}
		return nil
	}
	one := func(in []byte, fd field, what string) error {
		ro := ro
		if fd.name == "zlib FCHECK" {
			ro.F = int(f) // detection relies on it
		}
		res := ref.Decode(in, ro.refOptions())
		must(res.Kind == ref.Corrupt, "reference on an altered check value: "+res.String())
		r := decompress(ro, in, c.R.Ch, len(b.Content)+100000)
		if k := errKind(r.Err); k != "corrupt" {
			return fmt.Errorf("%s of stream %d: final error %v (%s), want a CorruptInputError", what, j, r.Err, k)
		}
		if r.Bad != "" {
			return fmt.Errorf("%s", r.Bad)
		}
		if err := diffBytes(what+": data", r.Out, res.Out); err != nil {
			return err
		}
		cov.Class("altered " + fd.name)
		cov.Nontrivial(true)
		return nil
	}
	if c.Ev {
		for _, fd := range fs {
			for _, bit := range fd.bits {
				in := append([]byte{}, b.In...)
				in[fd.off+bit/8] ^= 1 << (bit % 8)
				if err := one(in, fd, fmt.Sprintf("bit %d of %s flipped", bit, fd.name)); err != nil {
					return err
				}
			}
		}
	}
	prev := make([]byte, 0)
	cum := full.Streams[:j+1]
	var all []byte
	for _, x := range cum {
		all = append(all, x.Out...)
	}
	if j > 0 {
		prev = full.Streams[j-1].Out
	}
	for _, a := range c.A {
		rr := ref.Rng(a.B)
		fd := fs[rr.N(len(fs))]
		in := append([]byte{}, b.In...)
		p := in[fd.off : fd.off+fd.n]
		old := append([]byte{}, p...)
		what := ""
		switch a.K {
		case "flip":
			k := 1 + rr.N(5)
			for i := 0; i < k; i++ {
				bit := fd.bits[rr.N(len(fd.bits))]
				p[bit/8] ^= 1 << (bit % 8)
			}
			what = fmt.Sprintf("%s changed from %x to %x", fd.name, old, p)
		case "value":
			if fd.n != 4 || fd.name == "zlib DICTID" {
				continue
			}
			vals := []uint32{0, 0xffffffff, 1, adler32.Checksum(s.Out), crc32.ChecksumIEEE(s.Out), adler32.Checksum(all), crc32.ChecksumIEEE(all),
				adler32.Checksum(prev), crc32.ChecksumIEEE(prev), uint32(len(all)), uint32(len(prev)), uint32(len(s.Out)) + 65536, uint32(len(s.Out)) + 1, uint32(len(s.Out)) - 1,
				^crc32.ChecksumIEEE(s.Out), crc32.Checksum(s.Out, crc32.MakeTable(crc32.Castagnoli)), uint32(len(s.Out)) | 1<<31}
			v := vals[rr.N(len(vals))]
			if rr.Pct(50) {
				binary.BigEndian.PutUint32(p, v)
			} else {
				binary.LittleEndian.PutUint32(p, v)
			}
			what = fmt.Sprintf("%s changed from %x to %x", fd.name, old, p)
		case "content":
			lo, hi := s.Start, s.End
			i := lo + rr.N(hi-lo)
			in[i] ^= 1 << rr.N(8)
			if err := try(in, fmt.Sprintf("bit flipped in byte %d of %d", i, len(in)), ro); err != nil {
				return err
			}
			res := ref.Decode(in, o)
			if res.Kind == ref.Corrupt {
				cov.Class("content bit flipped, caught: " + whyClass(res.Why))
			}
			continue
		}
		if bytes.Equal(old, p) {
			continue
		}
		if err := one(in, fd, what); err != nil {
			return err
		}
	}
	return nil
}

const sumRule = "in conforming zlib/gzip streams (up to 3 concatenated) each bit of each stored check value is flipped, values are replaced by plausible wrong ones (other algorithm, other byte order, other stream, cumulative), and content bits are flipped; non-trivial: at least one stored value altered"

// ---- C07 ----

// DictMisCase: a zlib stream read with the wrong dictionary.
type DictMisCase struct {
	M    Made
	Has  bool
	With []Seg // reader's dictionary; empty: none
	R    DecOpts
}

func init() {
	reg("C05", "short", cutRule, 3500, 60000, func(t *rapid.T) *CutCase {
		c := &CutCase{M: genMade(t, anyFormat(t), 600, 3), R: genDecOpts(t), All: true}
		genCuts(t, c)
		return c
	}, checkCuts)
	reg("C05", "long", cutRule, 1500, 40000, func(t *rapid.T) *CutCase {
		c := &CutCase{M: genMade(t, anyFormat(t), 60000, 4), R: genDecOpts(t)}
		genCuts(t, c)
		return c
	}, checkCuts)

	reg("C06", "values", sumRule, 9000, 120000, func(t *rapid.T) *SumCase {
		c := &SumCase{C: genStreams(t, pick(t, "f", ref.Zlib, ref.Gzip), 0, 3, false, true), J: uni(t, 0, 2, "j"), R: genDecOpts(t)}
		if c.C.S[0].F == ref.Gzip && pct(t, 60, "hcrc") {
			for i := range c.C.S {
				c.C.S[i].H.Flags |= 2
			}
		}
		c.Ev = pct(t, 30, "everybit")
		for i := uni(t, 2, 12, "na"); i > 0; i-- {
			c.A = append(c.A, Alt{K: pick(t, "ak", "flip", "value", "value", "content"), B: rapid.Uint64().Draw(t, "ab")})
		}
		return c
	}, checkSums)

	reg("C07", "roundtrip", histRule+"; always with a dictionary", 20000, 240000, func(t *rapid.T) *HistCase {
		c := genHist(t, 30000)
		c.O.Dict = genDict(t)
		if pct(t, 60, "likedict") {
			// content that repeats the dictionary
			c.Data = append([]Seg{{K: "copy", A: 1 << uni(t, 2, 15, "lk"), N: uni(t, 1, 3000, "ln")}}, c.Data...)
		}
		return c
	}, func(c *HistCase, cov *Cov) error {
		data := c.data()
		dict := c.O.dict()
		// The caller reuses its dictionary slices.
		o := c.O
		o.Dict = nil
		scratch := append([]byte{}, dict...)
		opts := append(o.options(), flate.WithDictionary(scratch))
		for i := range scratch {
			scratch[i] ^= byte(i) | 1
		}
		d := newDst()
		fw := flate.NewWriter(d.writer(0), opts...)
		run := runOps(fw, d, data, c.Ops, true, true)
		if err := run.firstErr(); err != nil {
			return err
		}
		res, err := strict(c.O, d.Buf, data)
		if err != nil {
			return err
		}
		used := false
		for i, s := range res.Streams {
			if s.Format == ref.Zlib && (!s.Hdr.FDICT || s.Hdr.DictID != adler32.Checksum(dict)) {
				return fmt.Errorf("stream %d: FDICT=%v DICTID=%08x, want Adler-32 of the dictionary %08x", i, s.Hdr.FDICT, s.Hdr.DictID, adler32.Checksum(dict))
			}
			for _, b := range s.D.Blocks {
				used = used || b.DictMatches > 0
			}
		}
		ro := c.ropts()
		ro.Dict = nil
		scratch2 := append([]byte{}, dict...)
		fr := flate.NewReader(c.Ch.source(d.Buf), append(ro.options(), flate.WithDictionary(scratch2))...)
		for i := range scratch2 {
			scratch2[i] ^= byte(i) | 1
		}
		r := readAll(fr, c.Ch.Reads, len(data)+100)
		fr.Close()
		if err := r.expectClean("decompressing with the same dictionary", data); err != nil {
			return err
		}
		cov.ClassIf(used, "matches reach into the dictionary")
		cov.ClassIf(len(dict) > 1<<uint(c.O.wbits()), "dictionary longer than the window")
		cov.ClassIf(len(res.Streams) > 1, "several streams")
		cov.ClassIf(bytes.Count(dict, []byte{0}) == len(dict), "all-zero dictionary")
		cov.Class("format " + c.O.format().String())
		cov.Nontrivial(len(data) >= 4)
		return nil
	})
	reg("C07", "foreign", builtRule+"; always with a dictionary, several streams", 20000, 240000, func(t *rapid.T) *DecCase {
		f := anyFormat(t)
		c := genDec(t, f, 0, 3, false)
		c.C.Dict = genDict(t)
		return c
	}, checkBuilt)
	reg("C07", "stdlib", "streams produced by the Go standard library with a dictionary, at every level", 6000, 72000, func(t *rapid.T) *StdCase {
		c := genStd(t, 30000)
		c.F = pick(t, "df", 1, 2)
		c.Dict = genDict(t)
		return c
	}, func(c *StdCase, cov *Cov) error {
		in, data := c.make()
		r := decompress(c.R.ropts(ref.Format(c.F), c.Dict), in, c.R.Ch, len(data)+100)
		if err := r.expectClean("decompressing standard library output", data); err != nil {
			return err
		}
		cov.Nontrivial(len(data) >= 4)
		return nil
	})
	reg("C07", "mismatch", "zlib streams read with no dictionary, another dictionary, or a dictionary they do not announce", 25000, 300000, func(t *rapid.T) *DictMisCase {
		c := &DictMisCase{M: genMade(t, ref.Zlib, 3000, 2), R: genDecOpts(t)}
		var d []Seg
		if pct(t, 70, "has") {
			d = genDict(t)
			c.Has = true
		}
		switch {
		case c.M.Built != nil:
			c.M.Built.Dict = d
		case c.M.Own != nil:
			c.M.Own.O.Dict = d
		case c.M.Std != nil:
			c.M.Std.Dict = d
		}
		if !c.Has || pct(t, 60, "with") {
			c.With = genDict(t)
			if c.Has && pct(t, 40, "near") {
				// almost the same dictionary
				c.With = append(append([]Seg{}, d...), Seg{K: "run", N: 1, A: uni(t, 0, 255, "nb")})
			}
		}
		return c
	}, func(c *DictMisCase, cov *Cov) error {
		in, _, dict, f, err := c.M.make()
		if err != nil {
			return err
		}
		ro := c.R.ropts(f, c.With)
		a, b := WOpts{Dict: dict}.dict(), ro.dict()
		if (a == nil) == (b == nil) && adler32.Checksum(a) == adler32.Checksum(b) {
			return nil // not a mismatch
		}
		r := decompress(ro, in, c.R.Ch, 1<<20)
		if r.Bad != "" {
			return fmt.Errorf("%s", r.Bad)
		}
		if len(r.Out) != 0 || errKind(r.Err) != "corrupt" {
			return fmt.Errorf("stream dictionary %d bytes (Adler-32 %08x), decompressor dictionary %d bytes (%08x): %d bytes returned, final error %v; want none and a CorruptInputError", len(a), adler32.Checksum(a), len(b), adler32.Checksum(b), len(r.Out), r.Err)
		}
		cov.ClassIf(a == nil, "dictionary not announced")
		cov.ClassIf(b == nil, "no dictionary given")
		cov.ClassIf(a != nil && b != nil, "another dictionary given")
		cov.Nontrivial(true)
		return nil
	})

	// ---- C08 ----
	reg("C08", "writer", histRule+"; non-trivial: content longer than the window", 15000, 180000, func(t *rapid.T) *HistCase {
		c := genHist(t, 30000)
		c.O.WB = pick(t, "wb", 8, 8, 8, 9, 9, 10, 11, 12, 13, 14, 15)
		if c.O.CL == 0 || c.O.CL == 99 {
			c.O.CL = pick(t, "cl", 1, 4, 6, 9)
		}
		if c.O.St == 1 {
			c.O.St = 0
		}
		w := 1 << c.O.WB
		// content which repeats at distances around the window size
		if pct(t, 70, "around") {
			d := max(1, w+uni(t, -4, 6, "dd"))
			c.Data = append(c.Data, Seg{K: pick(t, "ak", "sparse", "period"), A: d, N: min(90000, d*2+uni(t, 0, 4000, "an")), S: rapid.Uint64().Draw(t, "as")})
		}
		c.RWB = 0
		return c
	}, func(c *HistCase, cov *Cov) error {
		data := c.data()
		d, _, err := compress(c.O, data, c.Ops)
		if err != nil {
			return err
		}
		w := 1 << uint(c.O.wbits())
		dict := c.O.dict()
		res := ref.Decode(d.Buf, ref.Options{Format: c.O.format(), Dict: dict, HasDict: dict != nil})
		if res.Kind != ref.OK {
			return fmt.Errorf("output: %v", res)
		}
		for i, s := range res.Streams {
			if s.Format == ref.Zlib && s.Hdr.CINFO != c.O.wbits()-8 {
				return fmt.Errorf("stream %d declares window bits %d, want %d", i, s.Hdr.CINFO+8, c.O.wbits())
			}
			for j, b := range s.D.Blocks {
				if b.MaxDist > w {
					return fmt.Errorf("stream %d block %d uses distance %d with a window of %d bytes", i, j, b.MaxDist, w)
				}
				cov.ClassIf(b.MaxDist > w-w/16, "distances near the window size")
				cov.ClassIf(b.MaxDist == w, "distances equal to the window size")
			}
		}
		r := decompress(c.ropts(), d.Buf, c.Ch, len(data)+100)
		if err := r.expectClean("decompressing with the same window", data); err != nil {
			return err
		}
		cov.Class(fmt.Sprintf("window bits %d", c.O.wbits()))
		cov.Nontrivial(len(data) > w)
		return nil
	})
	genWin := func(t *rapid.T) (*DecCase, int) {
		f := anyFormat(t)
		wb := pick(t, "wb", 8, 8, 8, 9, 9, 10, 11, 12, 13, 14, 15)
		c := genDec(t, f, 1<<wb, 2, false)
		c.WB = wb
		if pct(t, 70, "filler") {
			for i := range c.C.S {
				s := &c.C.S[i]
				s.Blocks = append([]ref.BlockSpec{{T: 0, N: min(65535, 1<<wb+uni(t, 0, 1<<wb, "fill")), S: rapid.Uint64().Draw(t, "fs"), A: 256}}, s.Blocks...)
				for k := range s.Blocks {
					if pct(t, 50, "atlimit") {
						s.Blocks[k].DM = pick(t, "adm", 3, 4)
					}
				}
			}
		}
		return c, wb
	}
	reg("C08", "accept", builtRule+"; distances up to the decompressor's window", 15000, 180000, func(t *rapid.T) *DecCase {
		c, _ := genWin(t)
		return c
	}, checkBuilt)
	reg("C08", "reject", "built streams with one match beyond the decompressor's window, or a zlib header declaring a larger window; non-trivial: rejected for that reason", 18000, 216000, func(t *rapid.T) *DecCase {
		c, wb := genWin(t)
		j := uni(t, 0, len(c.C.S)-1, "j")
		s := &c.C.S[j]
		if s.F == ref.Zlib && (wb == 15 || pct(t, 50, "declare")) {
			if wb < 15 {
				s.H.CINFO = uni(t, wb-8+1, 7, "cinfo")
			} else {
				s.V = ref.CWindow
			}
			return c
		}
		if wb == 15 {
			c.WB = 14
			wb = 14
			for i := range c.C.S {
				c.C.S[i].Win = 1 << 14
				c.C.S[i].H.CINFO = min(c.C.S[i].H.CINFO, 6)
			}
		}
		if s.F == ref.Zlib {
			s.H.CINFO = wb - 8
		}
		s.Win = 1 << wb
		k := uni(t, 0, len(s.Blocks)-1, "k")
		b := &s.Blocks[k]
		b.T = pick(t, "vt", 1, 2)
		b.V = ref.VDistWindow
		b.P = uni(t, 0, 100, "vp")
		return c
	}, func(c *DecCase, cov *Cov) error {
		b := c.C.build()
		ro := c.ropts()
		res := ref.Decode(b.In, ro.refOptions())
		r := decompress(ro, b.In, c.Ch, 1<<20)
		if err := compareRef("decompressing", r, res, len(b.In)); err != nil {
			return err
		}
		// the whole input is present: it must be reported as corrupt
		if res.Kind == ref.Corrupt && errKind(r.Err) != "corrupt" {
			return fmt.Errorf("final error %v (%s), want a CorruptInputError (%v)", r.Err, errKind(r.Err), res)
		}
		cov.Class("reference: " + whyClass(res.Why))
		cov.Nontrivial(res.Kind == ref.Corrupt)
		return nil
	})
}
