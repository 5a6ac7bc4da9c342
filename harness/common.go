package main

import (
	"bytes"
	"compress/flate"
	"compress/gzip"
	"compress/zlib"
	"fmt"
	"io"

	"pgregory.net/rapid"

	"flateverif/ref"
)

// ---- reference and standard-library decoding ----

// stdDecode decodes all streams in in with the Go standard library, checking
// that nothing is left over.
func stdDecode(f ref.Format, in, dict []byte) ([]byte, int, error) {
	br := bytes.NewReader(in)
	var out []byte
	n := 0
	for br.Len() > 0 {
		var r io.Reader
		var err error
		switch f {
		case ref.Raw:
			r = flate.NewReaderDict(br, dict)
		case ref.Zlib:
			r, err = zlib.NewReaderDict(br, dict)
		case ref.Gzip:
			var z *gzip.Reader
			z, err = gzip.NewReader(br)
			if err == nil {
				z.Multistream(false)
				r = z
			}
		}
		if err != nil {
			return out, n, fmt.Errorf("stream %d: %w", n, err)
		}
		b, err := io.ReadAll(r)
		out = append(out, b...)
		if err != nil {
			return out, n, fmt.Errorf("stream %d: %w", n, err)
		}
		n++
	}
	return out, n, nil
}

// refDecode decodes a compressor's output strictly.
func refDecode(o WOpts, in []byte) *ref.Result {
	d := o.dict()
	return ref.Decode(in, ref.Options{Format: o.format(), Dict: d, HasDict: d != nil})
}

// strict decodes a compressor's output with the reference and insists that it
// is conforming, complete, and equal to want.
func strict(o WOpts, in, want []byte) (*ref.Result, error) {
	res := refDecode(o, in)
	if res.Kind != ref.OK {
		return res, fmt.Errorf("output is not a conforming stream: %v: %s at byte %d of %d (after %d of %d content bytes)", res.Kind, res.Why, res.Pos, len(in), len(res.Out), len(want))
	}
	if res.Lenient {
		return res, fmt.Errorf("output is not strictly conforming: %s", res.AltWhy)
	}
	if err := diffBytes("content by the reference decoder", res.Out, want); err != nil {
		return res, err
	}
	return res, nil
}

// ---- conforming streams ----

// StreamsCase is a concatenation of built streams.
type StreamsCase struct {
	S    []ref.StreamSpec
	Dict []Seg `json:",omitempty"`
}

func (c *StreamsCase) build() *ref.Builder {
	b := &ref.Builder{}
	if d := (WOpts{Dict: c.Dict}).dict(); d != nil {
		b.Dict, b.HasDict = d, true
	}
	for _, s := range c.S {
		b.Add(s)
	}
	return b
}

func genBlock(t *rapid.T, big bool) ref.BlockSpec {
	b := ref.BlockSpec{
		T:    pick(t, "btype", 0, 1, 1, 2, 2, 2, 2),
		S:    rapid.Uint64().Draw(t, "bseed"),
		M:    pick(t, "match%", 0, 0, 5, 20, 50, 80, 100),
		DM:   pick(t, "dmode", 0, 0, 0, 1, 2, 3, 4, 5),
		LM:   pick(t, "lmode", 0, 0, 1, 2, 3),
		A:    pick(t, "balpha", 256, 256, 1, 2, 4, 16, 60, 100, 200),
		Skew: pick(t, "skew", 0, 0, 30, 90, 100),
		X:    pick(t, "extra", 0, 0, 3, 30, 100),
		Slk:  pick(t, "slack", 0, 0, 1, 2),
		RL:   pick(t, "rl", 0, 0, 1, 2),
	}
	switch k := uni(t, 0, 99, "bnclass"); {
	case k < 15:
		b.N = uni(t, 0, 2, "bn")
	case k < 70:
		b.N = uni(t, 0, 60, "bn")
	case k < 92 || !big:
		b.N = uni(t, 0, 700, "bn")
	default:
		b.N = uni(t, 0, 4000, "bn")
	}
	if b.T == 0 {
		if b.N > 0 && pct(t, 12, "bigstored") {
			b.N = pick(t, "storedn", 65535, 65534, 32768, 40000, 4096, 8191, 16385)
			if !big {
				b.N %= 5000
			}
		}
	}
	return b
}

func genBytes(t *rapid.T, maxN int, label string) []byte {
	n := 0
	switch uni(t, 0, 3, label+"class") {
	case 0:
		n = uni(t, 0, min(4, maxN), label+"n")
	case 1, 2:
		n = uni(t, 0, min(40, maxN), label+"n")
	case 3:
		n = uni(t, 0, maxN, label+"n")
	}
	r := ref.Rng(rapid.Uint64().Draw(t, label))
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(r.Next())
	}
	return b
}

// genExtra draws the bytes of a gzip extra field: records, or anything.
func genExtra(t *rapid.T, maxN int) []byte {
	if pct(t, 30, "rawextra") {
		return genBytes(t, maxN, "extra")
	}
	var out []byte
	for i := uni(t, 0, 4, "nrec"); i > 0; i-- {
		b := genBytes(t, maxN/5, "rec")
		out = append(out, byte(uni(t, 0, 255, "id0")), byte(uni(t, 0, 255, "id1")), byte(len(b)), byte(len(b)>>8))
		out = append(out, b...)
	}
	return out
}

func genHdrSpec(t *rapid.T, f ref.Format) ref.HdrSpec {
	h := ref.HdrSpec{}
	switch f {
	case ref.Zlib:
		h.CINFO = pick(t, "cinfo", 7, 7, 7, 0, 1, 2, 3, 4, 5, 6)
		h.FLEVEL = uni(t, 0, 3, "flevel")
	case ref.Gzip:
		h.MTIME = pick(t, "mtime", uint32(0), 0, 1, 1<<31, 1<<32-1, 1600000000)
		h.XFL = pick(t, "xfl", 0, 0, 2, 4, 7, 255)
		h.OS = pick(t, "os", 255, 3, 0, 1, 2, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 77, 254)
		if pct(t, 60, "gzflags") {
			h.Flags = uni(t, 0, 31, "flags")
			lim := pick(t, "hdrlim", 20, 20, 300, 3000, 65535)
			if h.Flags&4 != 0 {
				h.Extra = genExtra(t, lim)
			}
			if h.Flags&8 != 0 {
				h.Name = genBytes(t, lim, "name")
			}
			if h.Flags&16 != 0 {
				h.Comm = genBytes(t, lim, "comm")
			}
		}
	}
	return h
}

// genStream draws a conforming stream; win limits the distances used.
func genStream(t *rapid.T, f ref.Format, win int, big bool) ref.StreamSpec {
	s := ref.StreamSpec{F: f, Win: win, Pad: rapid.Uint64().Draw(t, "pad")}
	s.H = genHdrSpec(t, f)
	if f == ref.Zlib {
		if w := 1 << uint(8+s.H.CINFO); win == 0 || w < win {
			s.Win = w
		} else if win < w {
			// the header must not declare more than win
			for 1<<uint(8+s.H.CINFO) > win {
				s.H.CINFO--
			}
			s.Win = 1 << uint(8+s.H.CINFO)
		}
	}
	n := pick(t, "nblocks", 1, 1, 1, 2, 2, 3, 4, 6)
	for i := 0; i < n; i++ {
		s.Blocks = append(s.Blocks, genBlock(t, big))
	}
	return s
}

// genStreams draws streams of one format, or of mixed zlib and gzip when f is
// Auto.
func genStreams(t *rapid.T, f ref.Format, win, maxStreams int, big, dict bool) StreamsCase {
	c := StreamsCase{}
	if dict && pct(t, 25, "hasdict") {
		c.Dict = genDict(t)
	}
	n := 1
	if maxStreams > 1 {
		n = uni(t, 1, maxStreams, "nstreams")
	}
	for i := 0; i < n; i++ {
		g := f
		if f == ref.Auto {
			g = pick(t, "sformat", ref.Zlib, ref.Gzip)
		}
		c.S = append(c.S, genStream(t, g, win, big))
	}
	return c
}

// ---- streams from the Go standard library ----

// stdCompress produces one stream with the standard library.
func stdCompress(f ref.Format, level int, data, dict []byte, flushes int) []byte {
	var b bytes.Buffer
	type wc interface {
		io.WriteCloser
		Flush() error
	}
	var w wc
	var err error
	switch f {
	case ref.Raw:
		w, err = flate.NewWriterDict(&b, level, dict)
	case ref.Zlib:
		w, err = zlib.NewWriterLevelDict(&b, level, dict)
	case ref.Gzip:
		w, err = gzip.NewWriterLevel(&b, level)
	}
	if err != nil {
		panic(harnessBug(err.Error()))
	}
	for i := 0; i <= flushes; i++ {
		lo, hi := len(data)*i/(flushes+1), len(data)*(i+1)/(flushes+1)
		w.Write(data[lo:hi])
		if i < flushes {
			w.Flush()
		}
	}
	w.Close()
	return b.Bytes()
}

// ---- comparing a decompressor run with the reference verdict ----

// compareRef checks a run over input in against the reference verdict.  It
// applies to every input whatsoever.
func compareRef(what string, run *RRun, res *ref.Result, inLen int) error {
	fail := func(format string, a ...any) error {
		return fmt.Errorf("%s: %s; final error %v (%s), %d bytes; reference: %v", what, fmt.Sprintf(format, a...), run.Err, errKind(run.Err), len(run.Out), res)
	}
	if run.Bad != "" {
		return fail("%s", run.Bad)
	}
	if res.Why == "limit" && bytes.HasPrefix(run.Out, res.Out) {
		return nil // more data than is compared
	}
	if !bytes.HasPrefix(res.Out, run.Out) {
		return fail("data is not a prefix of what the standard assigns (%v)", diffBytes("data", run.Out, res.Out))
	}
	if run.Many {
		return fail("too much data")
	}
	k := errKind(run.Err)
	if res.Lenient && k == "corrupt" && len(run.Out) >= res.AltOut {
		return nil
	}
	if res.Why == "limit" {
		return nil
	}
	if len(run.Out) < res.MinOut {
		return fail("data ends early, at %d of %d bytes", len(run.Out), res.MinOut)
	}
	switch res.Kind {
	case ref.OK:
		if k != "eof" {
			return fail("well-formed input was not accepted")
		}
	case ref.Truncated:
		if k != "ueof" && k != "corrupt" {
			return fail("incomplete input must end in io.ErrUnexpectedEOF")
		}
	case ref.Corrupt:
		if inLen-res.Pos >= 16 {
			if k != "corrupt" {
				return fail("malformed input must end in CorruptInputError")
			}
		} else if k != "corrupt" && k != "ueof" {
			return fail("malformed input must be rejected")
		}
		if len(run.Out) != len(res.Out) {
			return fail("data before the violation is %d bytes", len(res.Out))
		}
	}
	return nil
}

func must(ok bool, what string) {
	if !ok {
		panic(harnessBug(what))
	}
}
