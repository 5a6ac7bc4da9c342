package main

import (
	"encoding/binary"
	"fmt"
	"hash/adler32"
	"hash/crc32"
	"os"
	"strings"

	"golang.org/x/sys/cpu"
	"pgregory.net/rapid"

	flate "github.com/chronos-tachyon/flate"

	"flateverif/ref"
)

// SumPiece is a stretch of data written at once.  Max first brings the Adler-32
// state to its largest value, To to a given one; CRC ends the piece with bytes
// that make the CRC-32 so far what is given.
type SumPiece struct {
	Max bool    `json:",omitempty"`
	To  *[2]int `json:",omitempty"`
	CRC *uint32 `json:",omitempty"`
	D   Seg
	Cut int  // written in pieces of this size, each followed by a flush; 0: at once
	Fl  int  // flush type
	Fin bool `json:",omitempty"` // finish the stream first
}

// PieceCase is content given in pieces, with its checksums checked everywhere.
type PieceCase struct {
	F    int
	CL   int
	ML   int
	P    []SumPiece
	Dict []Seg `json:",omitempty"`
	R    DecOpts
}

// adlerMax returns bytes that take the Adler-32 state a to (65520, 65520).
func adlerMax(a uint32) []byte {
	const m = 65521
	s1, s2 := int(a&0xffff), int(a>>16)
	var out []byte
	for s1 != m-1 {
		b := min(255, m-1-s1)
		out = append(out, byte(b))
		s1 = (s1 + b) % m
		s2 = (s2 + s1) % m
	}
	n := (s2 + 1) % m
	return append(out, make([]byte, n)...)
}

// adlerTo returns bytes that take the Adler-32 state a to (t1, t2).
func adlerTo(a uint32, t1, t2 int) []byte {
	const m = 65521
	s1, s2 := int(a&0xffff), int(a>>16)
	var out []byte
	step := func(b int) {
		out = append(out, byte(b))
		s1 = (s1 + b) % m
		s2 = (s2 + s1) % m
	}
	for s1 != 1 {
		step(min(255, (m+1-s1)%m))
	}
	var way []byte
	x1, x2 := 1, 0
	for x1 != t1 {
		b := min(255, (t1-x1+m)%m)
		way = append(way, byte(b))
		x1 = (x1 + b) % m
		x2 = (x2 + x1) % m
	}
	out = append(out, make([]byte, ((t2-x2-s2)%m+m)%m)...)
	return append(out, way...)
}

// crcTo returns four bytes that take the CRC-32 c to t.
func crcTo(c, t uint32) []byte {
	back := ^t
	for i := 0; i < 4; i++ {
		for j := uint32(0); j < 256; j++ {
			if e := crc32.IEEETable[j]; e>>24 == back>>24 {
				back = (back^e)<<8 | j
				break
			}
		}
	}
	return binary.LittleEndian.AppendUint32(nil, back^^c)
}

func adlerUpdate(a uint32, b []byte) uint32 {
	const m = 65521
	s1, s2 := a&0xffff, a>>16
	for _, c := range b {
		s1 = (s1 + uint32(c)) % m
		s2 = (s2 + s1) % m
	}
	return s2<<16 | s1
}

func checkPieces(c *PieceCase, cov *Cov) error {
	if strings.Contains(os.Getenv("GODEBUG"), "pclmulqdq=off") && cpu.X86.HasPCLMULQDQ {
		panic(harnessBug("PCLMULQDQ is still on"))
	}
	wo := WOpts{F: c.F, CL: c.CL, ML: c.ML, Dict: c.Dict}
	rec := &Recorder{}
	d := newDst()
	fw := flate.NewWriter(d.writer(0), wo.options(rec)...)
	type sums struct{ a, c uint32 }
	var want []sums
	var all, cur []byte
	a := uint32(1)
	write := func(b []byte) error {
		all, cur = append(all, b...), append(cur, b...)
		a = adlerUpdate(a, b)
		if n, err := fw.Write(b); n != len(b) || err != nil {
			return fmt.Errorf("Write(%d bytes): %d, %v", len(b), n, err)
		}
		return nil
	}
	// the harness's own Adler-32 is compared with the standard library's
	end := func() {
		must(a == adler32.Checksum(cur), "harness Adler-32")
		want = append(want, sums{a, crc32.ChecksumIEEE(cur)})
		a, cur = 1, nil
	}
	maxed, steered, steeredC := false, false, false
	for _, p := range c.P {
		if p.Fin && (len(cur) > 0) {
			if err := fw.Flush(flate.FinishFlush); err != nil {
				return err
			}
			end()
		}
		if p.Max {
			b := adlerMax(a)
			if err := write(b); err != nil {
				return err
			}
			must(a == 65520<<16|65520, "adlerMax")
			if err := fw.Flush(flate.BlockFlush); err != nil {
				return err
			}
			maxed = true
		}
		if p.To != nil {
			if err := write(adlerTo(a, p.To[0], p.To[1])); err != nil {
				return err
			}
			must(int(a&0xffff) == p.To[0] && int(a>>16) == p.To[1], "adlerTo")
			if p.Fl != fPartial { // at times without a flush
				if err := fw.Flush(flate.BlockFlush); err != nil {
					return err
				}
			}
			steered = true
		}
		b := expandWith([]Seg{p.D}, all)
		n := p.Cut
		if n <= 0 {
			n = max(1, len(b))
		}
		for i := 0; i < len(b); i += n {
			if err := write(b[i:min(len(b), i+n)]); err != nil {
				return err
			}
			if err := fw.Flush(flushTypes[p.Fl%4]); err != nil {
				return err
			}
		}
		if p.CRC != nil {
			if err := write(crcTo(crc32.ChecksumIEEE(cur), *p.CRC)); err != nil {
				return err
			}
			must(crc32.ChecksumIEEE(cur) == *p.CRC, "crcTo")
			if p.Fl != fPartial {
				if err := fw.Flush(flate.BlockFlush); err != nil {
					return err
				}
			}
			steeredC = true
		}
	}
	if err := fw.Close(); err != nil {
		return err
	}
	if len(cur) > 0 || len(want) == 0 {
		end()
	}
	res, err := strict(wo, d.Buf, all)
	if err != nil {
		return err
	}
	footers := func(what string, rec *Recorder) error {
		i := 0
		for _, e := range rec.take() {
			if e.Footer == nil {
				continue
			}
			if i >= len(want) {
				return fmt.Errorf("%s: more than %d footer events", what, len(want))
			}
			if uint32(e.Footer.Adler32) != want[i].a {
				return fmt.Errorf("%s: Adler-32 of stream %d is %08x, want %08x", what, i, uint32(e.Footer.Adler32), want[i].a)
			}
			if uint32(e.Footer.CRC32) != want[i].c {
				return fmt.Errorf("%s: CRC-32 of stream %d is %08x, want %08x", what, i, uint32(e.Footer.CRC32), want[i].c)
			}
			i++
		}
		if i != len(want) {
			return fmt.Errorf("%s: %d footer events, want %d", what, i, len(want))
		}
		return nil
	}
	if err := footers("compressor", rec); err != nil {
		return err
	}
	if len(res.Streams) != len(want) {
		return fmt.Errorf("%d streams, want %d", len(res.Streams), len(want))
	}
	for i, s := range res.Streams {
		b := d.Buf[:s.End]
		switch s.Format {
		case ref.Zlib:
			if x := binary.BigEndian.Uint32(b[len(b)-4:]); x != want[i].a {
				return fmt.Errorf("trailer of stream %d has Adler-32 %08x, want %08x", i, x, want[i].a)
			}
			if dict := wo.dict(); dict != nil && s.Hdr.DictID != adler32.Checksum(dict) {
				return fmt.Errorf("dictionary of %d bytes identified by %08x, its Adler-32 is %08x", len(dict), s.Hdr.DictID, adler32.Checksum(dict))
			}
		case ref.Gzip:
			if x := binary.LittleEndian.Uint32(b[len(b)-8:]); x != want[i].c {
				return fmt.Errorf("trailer of stream %d has CRC-32 %08x, want %08x", i, x, want[i].c)
			}
		}
	}
	for _, mode := range []int{0, 1} {
		in := d.Buf
		what := "decompressor"
		if mode == 1 {
			// the same content in one stream made by the standard library
			if len(want) != 1 {
				continue
			}
			if len(c.Dict) != 0 && c.F == int(ref.Gzip) {
				continue
			}
			in = stdCompress(wo.format(), 1, all, wo.dict(), 0)
			what = "decompressor on standard library output"
		}
		rr := &Recorder{}
		r := decompress(c.R.ropts(wo.format(), c.Dict), in, c.R.Ch, len(all)+100, rr)
		if err := r.expectClean(what, all); err != nil {
			return err
		}
		if err := footers(what, rr); err != nil {
			return err
		}
	}
	cov.ClassIf(maxed, "largest Adler-32 state")
	cov.ClassIf(steered, "chosen Adler-32 state")
	cov.ClassIf(steeredC, "chosen CRC-32")
	cov.ClassIf(len(all) > 5552, "over 5552 bytes")
	cov.ClassIf(len(c.Dict) > 0, "dictionary")
	cov.ClassIf(c.CL == 0, "stored")
	cov.Nontrivial(len(all) >= 16)
	return nil
}

func genPieces(t *rapid.T) *PieceCase {
	c := &PieceCase{F: uni(t, 1, 3, "f"), CL: pick(t, "cl", 0, 0, 0, 1, 6, 9), ML: pick(t, "ml", 1, 2, 3, 5, 7, 8, 9), R: genDecOpts(t)}
	if c.F != 3 && pct(t, 20, "hasdict") {
		c.Dict = genDict(t)
		if pct(t, 40, "ffdict") {
			c.Dict = []Seg{{K: "run", A: 255, N: pick(t, "dn", uni(t, 1, 5553*3, "dn"), 5552, 5553, 5556, 11104, 65536, 300000)}}
		}
	}
	n := pick(t, "np", 1, 1, 2, 3, 5)
	for i := 0; i < n; i++ {
		p := SumPiece{Max: pct(t, 25, "max"), Fl: pick(t, "fl", 0, 0, 1, 2, 3), Fin: pct(t, 15, "fin")}
		p.D = Seg{K: pick(t, "k", "run", "run", "rand", "rand", "text", "ramp"), A: pick(t, "a", 255, 255, 0, 254, 1, 128, 256), S: rapid.Uint64().Draw(t, "s")}
		switch uni(t, 0, 5, "nclass") {
		case 0:
			p.D.N = uni(t, 0, 130, "n")
		case 1:
			p.D.N = uni(t, 0, 1200, "n")
		case 2:
			p.D.N = 5552*uni(t, 1, 6, "n5") + uni(t, -5, 5, "dn")
		case 3:
			p.D.N = 1<<uni(t, 4, 16, "nk") + uni(t, -2, 2, "dn")
		case 4:
			p.D.N = uni(t, 0, 60000, "n")
		case 5:
			p.D.N = uni(t, 5553, 61440, "n")
		}
		if !p.Max && pct(t, 35, "to") {
			const m = 65521
			half := func() int { return pick(t, "half", 0, 0, 1, m-1, m-1, m-2, 255, m-255, uni(t, 0, m-1, "halfn")) }
			p.To = &[2]int{half(), half()}
			if pct(t, 40, "only") {
				p.D.N = 0
			}
		} else if pct(t, 25, "crc") {
			x := pick(t, "crcto", 0, 0, 0xffffffff, 1, 0x80000000, 0xedb88320, rapid.Uint32().Draw(t, "crcn"))
			p.CRC = &x
		}
		if pct(t, 45, "cut") {
			p.Cut = pick(t, "cutn", uni(t, 1, 20, "c"), uni(t, 15, 150, "c"), uni(t, 1, 6000, "c"), 16, 64, 5552, 5553, 4096, 80)
			if p.D.N/p.Cut > 1500 {
				p.D.N = 1500 * p.Cut
			}
		}
		c.P = append(c.P, p)
	}
	return c
}

func init() {
	const rule = "content in pieces (runs of 0xFF from the largest Adler-32 state and other chosen ones, chosen CRC-32 values, lengths around 16, 64, 5552 and their multiples, random data), each written and flushed separately; footers seen by tracers, trailers and dictionary identifiers compared with hash/adler32 and hash/crc32; non-trivial: at least 16 bytes"
	reg("C20", "vector", rule, 3500, 60000, genPieces, checkPieces)
	reg("C20", "generic", rule+"; carry-less multiplication switched off", 2500, 40000, genPieces, checkPieces).Mode = "noclmul"
	reg("C20", "32-bit", rule+"; 32-bit build", 1200, 20000, genPieces, checkPieces).Mode = "386"
}
