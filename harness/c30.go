package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"strconv"
	"strings"

	"pgregory.net/rapid"

	flate "github.com/chronos-tachyon/flate"

	"flateverif/ref"
)

// WhereCase is malformed input, read in two ways.
type WhereCase struct {
	B      BadCase
	ML     int // the second way
	Ch     Chunking
	Before *Made `json:",omitempty"` // read first, before a Reset
	Part   int   // bytes read of it at least
}

// whereSlack is how far the reported offset may be from the place which the
// reference decoder has seen last.
const whereSlack = 8

func (c *WhereCase) readVia(ro ROpts, in []byte) *RRun {
	if c.Before == nil {
		return decompress(ro, in, c.Ch, maxOutBad+100000)
	}
	// an object with a past
	first, _, dict, f, err := c.Before.make()
	must(err == nil, "making the first input")
	fr := flate.NewReader(c.Ch.source(first), ROpts{F: int(f), ML: c.ML, Dict: dict}.options()...)
	defer fr.Close()
	buf := make([]byte, 1000)
	for n := 0; n < c.Part; {
		k, err := fr.Read(buf)
		n += k
		if err != nil {
			break
		}
	}
	opts := []flate.Option{flate.WithFormat(flate.DefaultFormat), flate.WithDictionary(nil), flate.WithMemoryLevel(flate.DefaultMemory), flate.WithWindowBits(flate.DefaultWindowBits)}
	fr.Reset(c.Ch.source(in), append(opts, ro.options()...)...)
	return readAll(fr, c.Ch.Reads, maxOutBad+100000)
}

func checkWhere(c *WhereCase, cov *Cov) error {
	in := c.B.input()
	ro := ROpts{F: c.B.F, ML: c.B.ML, WB: c.B.WB, Dict: c.B.C.Dict}
	o := ro.refOptions()
	o.MaxOut = maxOutBad
	res := ref.Decode(in, o)
	if res.Why == "limit" {
		return nil
	}
	a := decompress(ro, in, c.B.Ch, maxOutBad+100000)
	var e flate.CorruptInputError
	if !errors.As(a.Err, &e) {
		cov.Class("final error " + errKind(a.Err))
		return nil
	}
	fail := func(format string, args ...any) error {
		return fmt.Errorf("%s; error {OffsetTotal: %d, OffsetStream: %d, Problem: %q}, %d bytes of input; reference: violation at %d, %v", fmt.Sprintf(format, args...), e.OffsetTotal, e.OffsetStream, e.Problem, len(in), res.Pos, res)
	}
	if e.OffsetTotal > uint64(len(in)) || e.OffsetStream > e.OffsetTotal {
		return fail("the offsets are impossible")
	}
	if strings.TrimSpace(e.Problem) == "" {
		return fail("no description of the problem")
	}
	msg := a.Err.Error()
	if !strings.Contains(msg, strconv.FormatUint(e.OffsetStream, 10)) && !strings.Contains(msg, strconv.FormatUint(e.OffsetTotal, 10)) {
		return fail("the message %q does not tell the offset", msg)
	}
	if !strings.Contains(msg, e.Problem) {
		return fail("the message %q does not tell the problem", msg)
	}
	if res.Kind == ref.Corrupt && !res.Lenient {
		start := res.Streams[len(res.Streams)-1].Start
		if got := e.OffsetTotal - e.OffsetStream; got != uint64(start) {
			return fail("the failing stream begins at %d, not at %d", start, got)
		}
		if d := int(e.OffsetTotal) - res.Pos; d < -whereSlack || d > whereSlack {
			return fail("the violation is at %d", res.Pos)
		}
		cov.ClassIf(len(res.Streams) > 1, "not the first stream")
		cov.ClassIf(res.Pos > 65536, "beyond 64 KiB")
		cov.Class("why: " + whyClass(res.Why))
		cov.Nontrivial(res.Pos > 2)
	}
	ro.ML = c.ML
	b := c.readVia(ro, in)
	var e2 flate.CorruptInputError
	if !errors.As(b.Err, &e2) {
		return fail("read in another way, the input ends with %v", b.Err)
	}
	if e2.OffsetTotal != e.OffsetTotal || e2.OffsetStream != e.OffsetStream {
		return fail("read in another way, the offsets are %d and %d", e2.OffsetTotal, e2.OffsetStream)
	}
	cov.ClassIf(c.Before != nil, "after a Reset")
	return nil
}

func genWhere(t *rapid.T) *WhereCase {
	c := &WhereCase{ML: genML(t), Ch: genChunking(t)}
	if pct(t, 60, "planted") {
		c.B = *genPlanted(t)
	} else {
		c.B = *genMutated(t)
	}
	if len(c.B.C.S) > 0 && pct(t, 20, "filler") {
		s := &c.B.C.S[0]
		f := ref.BlockSpec{T: 0, N: uni(t, 1, 65535, "fill"), S: rapid.Uint64().Draw(t, "fs"), A: 256}
		s.Blocks = append([]ref.BlockSpec{f, f}, s.Blocks...)
	}
	if pct(t, 25, "before") {
		m := genMade(t, anyFormat(t), 5000, 3)
		c.Before = &m
		c.Part = pick(t, "part", 0, 1, uni(t, 0, 5000, "p"), 1<<30)
	}
	return c
}

// FarCase is input longer than 4 GiB, with a violation near its end.
type FarCase struct {
	F      int
	N      int   // bytes per stored block
	Over   int64 // of blocks, beyond 4 GiB
	S      uint64
	Tail   []byte
	Two    bool // the long stream is preceded by a short one
	Finish bool // the long stream is complete, and what follows is none
	ML     int
	Piece  int
}

func checkFar(c *FarCase, cov *Cov) error {
	f := ref.Format(c.F)
	var first []byte
	if c.Two {
		first = stdCompress(f, 6, []byte("first"), nil, 0)
	}
	var hdr []byte
	switch f {
	case ref.Zlib:
		hdr = []byte{0x78, 0x9c}
	case ref.Gzip:
		hdr = []byte{0x1f, 0x8b, 8, 0, 0, 0, 0, 0, 0, 255}
	}
	data := expandWith([]Seg{{K: "rand", A: 256, N: c.N, S: c.S}}, nil)
	block := append([]byte{0, byte(c.N), byte(c.N >> 8), ^byte(c.N), ^byte(c.N >> 8)}, data...)
	reps := (int64(1)<<32 + c.Over) / int64(len(block))
	reps += 1
	size := reps * int64(len(block))
	start := int64(len(first))
	at := start + int64(len(hdr)) + size
	// a block of a reserved type; or, after an empty final block, a wrong trailer
	end := append([]byte{7}, c.Tail...)
	near := at + 1
	if c.Finish && f != ref.Raw {
		n := map[ref.Format]int{ref.Zlib: 4, ref.Gzip: 8}[f]
		end = append([]byte{3, 0}, make([]byte, n)...)
		near = at + int64(len(end))
		end = append(end, c.Tail...)
	}
	ro := ROpts{F: c.F, ML: c.ML}
	in := io.MultiReader(bytes.NewReader(first), bytes.NewReader(hdr), &hugeContent{chunk: block, left: size}, bytes.NewReader(end))
	fr := flate.NewReader(in, ro.options()...)
	defer fr.Close()
	buf := make([]byte, c.Piece)
	got := int64(0)
	var err error
	for err == nil {
		var n int
		n, err = fr.Read(buf)
		heartbeat()
		got += int64(n)
	}
	want := reps * int64(c.N)
	if c.Two {
		want += 5
	}
	if got != want {
		return fmt.Errorf("%d bytes of data, want %d, then %w", got, want, err)
	}
	var e flate.CorruptInputError
	if !errors.As(err, &e) {
		return fmt.Errorf("the malformed input ends with: %w", err)
	}
	if d := int64(e.OffsetTotal) - near; d < -whereSlack || d > whereSlack || int64(e.OffsetTotal-e.OffsetStream) != start {
		return fmt.Errorf("offsets %d and %d (%q), the violation is at %d, the stream begins at %d", e.OffsetTotal, e.OffsetStream, e.Problem, near, start)
	}
	cov.Class("format " + formatNames[c.F])
	cov.Nontrivial(true)
	return nil
}

func genFar(t *rapid.T) *FarCase {
	return &FarCase{F: uni(t, 1, 3, "f"), N: uni(t, 30000, 65535, "n"), Over: int64(uni(t, 0, 100000, "over")), S: rapid.Uint64().Draw(t, "s"), Tail: genBytes(t, 40, "tail"),
		Two: pct(t, 50, "two"), Finish: pct(t, 40, "finish"), ML: pick(t, "ml", 0, 9, 8), Piece: pick(t, "piece", 1<<15, 1<<16, 50000)}
}

func init() {
	reg("C30", "far", "stored blocks of more than 4 GiB of input in all, and a violation at its end; all non-trivial", 1, 12, genFar, checkFar)
	reg("C30", "where", "malformed input (one planted violation of each kind, or mutations) in any stream of a concatenation; the offsets of the error are compared with the place of the first violation by the reference decoder, and with those of a second run (other chunks, memory level, and at times an object used before); non-trivial: a violation after the second byte", 70000, 1000000, genWhere, checkWhere)
}
