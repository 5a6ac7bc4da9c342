package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"runtime"

	"pgregory.net/rapid"

	flate "github.com/chronos-tachyon/flate"

	"flateverif/ref"
)

// RFault is a failure of the source: at offset P (per mille when Pm), counted
// from the start of stream B-1 when B > 0.
type RFault struct {
	B    int `json:",omitempty"`
	P    int
	Pm   bool
	With bool // together with the last data
	E    int
	Rec  bool // the source recovers
}

// SrcFailCase reads one input with failures at several points.
type SrcFailCase struct {
	M   Made
	Mut []Mut `json:",omitempty"`
	R   DecOpts
	F   []RFault
	All bool
	E   int
}

func checkSrcFaults(c *SrcFailCase, cov *Cov) error {
	in, _, dict, f, err := c.M.make()
	if err != nil {
		return err
	}
	in = mutate(in, c.Mut)
	ro := c.R.ropts(f, dict)
	o := ro.refOptions()
	o.MaxOut = maxOutBad
	fs := c.F
	if c.All && len(in) <= 500 {
		fs = nil
		for k := 0; k <= len(in); k++ {
			fs = append(fs, RFault{P: k, With: k%2 == 1, E: c.E, Rec: k%3 == 0})
		}
		cov.Class("failure at every offset")
	}
	var starts []int
	for _, x := range fs {
		k := x.P
		if x.B > 0 {
			if starts == nil {
				for _, st := range ref.Decode(in, o).Streams {
					starts = append(starts, st.Start, st.End)
				}
				starts = append(starts, 0)
			}
			k = max(0, starts[(x.B-1)%len(starts)]+x.P)
		}
		if x.Pm {
			k = len(in) * x.P / 1000
		}
		if k < 0 {
			k += len(in)
		}
		k = min(max(0, k), len(in))
		src := c.R.Ch.source(in[:k])
		src.Err = faultErr(x.E, errSource)
		if x.E == 9 {
			src.Err = fmt.Errorf("connection lost: %w", io.EOF)
		}
		src.ErrWith = x.With
		if x.Rec {
			src.After = append([]byte{}, in[k:]...)
			src.After = append(src.After, in...)
		}
		injected := src.Err
		res := ref.Decode(in[:k], o)
		if res.Why == "limit" {
			continue
		}
		fr := flate.NewReader(src, ro.options()...)
		r := readAll(fr, c.R.Ch.Reads, maxOutBad)
		fr.Close()
		what := fmt.Sprintf("source fails with %q after %d of %d bytes (with data: %v, recovers: %v)", injected, k, len(in), x.With, x.Rec)
		if r.Bad != "" {
			return fmt.Errorf("%s: %s", what, r.Bad)
		}
		if !bytes.HasPrefix(res.Out, r.Out) {
			return fmt.Errorf("%s: data is not a prefix of what precedes the failure: %w", what, diffBytes("data", r.Out, res.Out))
		}
		// with a single byte of a stream, auto-detection cannot tell anything yet
		n := len(res.Streams)
		if ro.F == 0 && n > 0 && res.Streams[n-1].Start == k-1 {
			res.Kind, res.Lenient = ref.Truncated, false
			cov.Class("failure during auto-detection")
		}
		var ce flate.CorruptInputError
		if errors.As(r.Err, &ce) && (res.Lenient && len(r.Out) >= res.AltOut || res.Kind == ref.Corrupt) {
			// the input was already malformed before the failure
			cov.Class("malformed before the failure")
			continue
		}
		if res.Kind == ref.Corrupt && k-res.Pos >= 16 {
			return fmt.Errorf("%s: final error %v; the input is malformed at byte %d (%s)", what, r.Err, res.Pos, res.Why)
		}
		if len(r.Out) < res.MinOut {
			return fmt.Errorf("%s: only %d bytes returned (%v), %d are decodable", what, len(r.Out), r.Err, res.MinOut)
		}
		if r.Err == io.EOF || !errors.Is(r.Err, injected) {
			return fmt.Errorf("%s: final error %v (%s)", what, r.Err, errKind(r.Err))
		}
		cov.ClassIf(res.Kind == ref.OK, "failure at a stream boundary")
		cov.ClassIf(res.Kind == ref.Truncated, "failure inside a stream")
		cov.ClassIf(len(res.Out) > 0, "data before the failure")
		cov.Nontrivial(k > 0)
	}
	return nil
}

// ---- C15 ----

// Way is one way of reading.
type Way struct {
	ML   int
	Ch   Chunking
	Pipe bool // through io.Pipe, from another goroutine
}

// ChunkCase reads one input in several ways.
type ChunkCase struct {
	M   *Made   `json:",omitempty"`
	B   BadCase // otherwise
	Mut []Mut   `json:",omitempty"`
	Tl  []byte  `json:",omitempty"`
	F   int     // format given to the decompressor: 0 auto
	WB  int
	W   []Way
}

type pipeSrc struct {
	*io.PipeReader
}

func readWay(in []byte, ro ROpts, w Way) *RRun {
	ro.ML = w.ML
	if !w.Pipe {
		return decompress(ro, in, w.Ch, maxOutBad+100000)
	}
	pr, pw := io.Pipe()
	done := make(chan struct{})
	go func() {
		defer close(done)
		rest := in
		for i := 0; len(rest) > 0; i++ {
			n := len(rest)
			if len(w.Ch.Sizes) > 0 {
				n = min(n, max(1, w.Ch.Sizes[i%len(w.Ch.Sizes)]))
			}
			if i%3 == 0 {
				runtime.Gosched()
			}
			if _, err := pw.Write(rest[:n]); err != nil {
				return
			}
			rest = rest[n:]
		}
		pw.Close()
	}()
	fr := flate.NewReader(pr, ro.options()...)
	r := readAll(fr, w.Ch.Reads, maxOutBad+100000)
	pr.Close()
	fr.Close()
	<-done
	return r
}

func checkChunkings(c *ChunkCase, cov *Cov) error {
	var in []byte
	var dict []Seg
	if c.M != nil {
		var err error
		in, _, dict, _, err = c.M.make()
		if err != nil {
			return err
		}
		in = append(mutate(in, c.Mut), c.Tl...)
	} else {
		in, dict = c.B.input(), c.B.C.Dict
	}
	ro := ROpts{F: c.F, WB: c.WB, Dict: dict}
	var first *RRun
	for i, w := range c.W {
		r := readWay(in, ro, w)
		what := fmt.Sprintf("way %d (memory level %d, source sizes %v, eof with data %v, reads %v, pipe %v)", i, w.ML, w.Ch.Sizes, w.Ch.EOF, w.Ch.Reads, w.Pipe)
		if r.Bad != "" {
			return fmt.Errorf("%s: %s", what, r.Bad)
		}
		if r.Many {
			return nil
		}
		if first == nil {
			first = r
			continue
		}
		if err := diffBytes("data", r.Out, first.Out); err != nil {
			return fmt.Errorf("%s against way 0 (memory level %d, sizes %v, reads %v): %w (errors: %v; %v)", what, c.W[0].ML, c.W[0].Ch.Sizes, c.W[0].Ch.Reads, err, r.Err, first.Err)
		}
		if errKind(r.Err) != errKind(first.Err) {
			return fmt.Errorf("%s against way 0 (memory level %d, sizes %v, reads %v): final error %v, was %v", what, c.W[0].ML, c.W[0].Ch.Sizes, c.W[0].Ch.Reads, r.Err, first.Err)
		}
		cov.ClassIf(w.Pipe, "through a pipe")
	}
	cov.Class("ends in " + errKind(first.Err))
	cov.ClassIf(len(first.Out) > 0, "with data")
	cov.Nontrivial(len(in) > 2 && len(c.W) > 1)
	return nil
}

func genWays(t *rapid.T) []Way {
	ws := []Way{{ML: genML(t), Ch: genChunking(t)}}
	n := uni(t, 2, 5, "ways")
	for i := 1; i < n; i++ {
		w := Way{ML: genML(t), Ch: genChunking(t), Pipe: pct(t, 15, "pipe")}
		switch uni(t, 0, 9, "special") {
		case 0:
			w.Ch.Sizes = []int{1}
		case 1:
			w.Ch.Reads = []int{1}
		case 2:
			w.Ch = Chunking{}
			w.ML = 9
		}
		ws = append(ws, w)
	}
	return ws
}

func init() {
	reg("C14", "failures", "a conforming input (own, built or standard library; some mutated) read from a source that fails with one of 10 errors after k bytes (anywhere, or around the borders of streams), alone or with data, for good or once; non-trivial: failure after at least one byte", 30000, 360000,
		func(t *rapid.T) *SrcFailCase {
			f := anyFormat(t)
			c := &SrcFailCase{M: genMade(t, f, 20000, 3), R: genDecOpts(t)}
			if pct(t, 12, "mut") {
				c.Mut = genMuts(t, 1)
			}
			if pct(t, 25, "all") {
				c.All, c.E = true, genErrKind(t)
			}
			n := uni(t, 1, 8, "nfaults")
			for i := 0; i < n; i++ {
				x := RFault{With: pct(t, 40, "with"), E: genErrKind(t), Rec: pct(t, 30, "rec")}
				switch uni(t, 0, 4, "fk") {
				case 4:
					x.B, x.P = uni(t, 1, 7, "b"), uni(t, -2, 3, "p")
				case 0:
					x.P = uni(t, 0, 30, "p")
				case 1:
					x.P = -uni(t, 0, 20, "p")
					if x.P == 0 {
						x.P, x.Pm = 1000, true
					}
				default:
					x.P, x.Pm = uni(t, 0, 1000, "p"), true
				}
				c.F = append(c.F, x)
			}
			return c
		}, checkSrcFaults)

	const rule = "one input (conforming from three producers, mutated, truncated, with trailing bytes, planted violations, or random) read in 2 to 5 ways: memory levels, source splittings, buffer sizes, io.Pipe; non-trivial: more than 2 bytes of input"
	reg("C15", "made", rule, 36000, 432000, func(t *rapid.T) *ChunkCase {
		f := anyFormat(t)
		m := genMade(t, f, 30000, 3)
		c := &ChunkCase{M: &m, F: int(f), W: genWays(t), WB: pick(t, "wb", 0, 0, 0, 8, 10)}
		if f != ref.Raw && pct(t, 40, "auto") {
			c.F = 0
		}
		switch uni(t, 0, 4, "harm") {
		case 0:
			c.Mut = genMuts(t, uni(t, 1, 2, "nmut"))
		case 1:
			c.Mut = []Mut{{K: "trunc", P: uni(t, 0, 1000, "tp")}}
		case 2:
			c.Tl = genBytes(t, 30, "tail")
		}
		return c
	}, checkChunkings)
	reg("C15", "bad", rule, 30000, 360000, func(t *rapid.T) *ChunkCase {
		f := anyFormat(t)
		c := &ChunkCase{B: BadCase{C: genStreams(t, f, 0, 3, false, true)}, F: int(f), W: genWays(t)}
		if f != ref.Raw && pct(t, 40, "auto") {
			c.F = 0
		}
		if pct(t, 80, "plant") {
			plant(t, &c.B.C)
		} else {
			c.B.C.S = nil
			c.B.Hex = genBytes(t, 300, "hex")
			if pct(t, 70, "hdr") {
				c.B.Hex = append(pick(t, "magic", []byte{0x1f, 0x8b, 8, 0, 0, 0, 0, 0, 0, 255}, []byte{0x78, 0x9c}, []byte{0x1f}, []byte{0x78}), c.B.Hex...)
			}
		}
		if pct(t, 30, "mut") {
			c.B.Mut = genMuts(t, 1)
		}
		return c
	}, checkChunkings)
}
