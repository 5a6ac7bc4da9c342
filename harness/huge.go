package main

import (
	"bytes"
	"compress/flate"
	"compress/gzip"
	"compress/zlib"
	"encoding/binary"
	"fmt"
	"hash/adler32"
	"hash/crc32"
	"io"
	"os"
	"time"

	"pgregory.net/rapid"

	tflate "github.com/chronos-tachyon/flate"

	"flateverif/ref"
)

// heartbeatPath is the file whose modification time tells the driver that a
// case makes progress.
var heartbeatPath string

var heartbeatLast time.Time

func heartbeat() {
	if heartbeatPath != "" && time.Since(heartbeatLast) > 2*time.Second {
		heartbeatLast = time.Now()
		os.Chtimes(heartbeatPath, heartbeatLast, heartbeatLast)
	}
}

// HugeCase is a stream whose content is longer than 32-bit counters can tell.
type HugeCase struct {
	O     WOpts
	Chunk []Seg // repeated
	Over  int64 // length of the content less 4 GiB (or 2 GiB)
	Half  bool  // 2 GiB
	Piece int   // bytes per Write or Read
	Auto  bool
	Two   bool // a second, short stream follows
}

func (c *HugeCase) length() int64 {
	n := int64(1) << 32
	if c.Half {
		n >>= 1
	}
	return n + c.Over
}

// hugeContent reads a chunk over and over.
type hugeContent struct {
	chunk []byte
	at    int
	left  int64
}

func (h *hugeContent) Read(p []byte) (int, error) {
	if h.left == 0 {
		return 0, io.EOF
	}
	n := copy(p, h.chunk[h.at:])
	if int64(n) > h.left {
		n = int(h.left)
	}
	h.at = (h.at + n) % len(h.chunk)
	h.left -= int64(n)
	return n, nil
}

// expect compares r with the content, and returns r's error.
func (h *hugeContent) expect(what string, r io.Reader, piece int) error {
	buf := make([]byte, piece)
	got := int64(0)
	for {
		n, err := r.Read(buf)
		heartbeat()
		for p := buf[:n]; len(p) > 0; {
			k := min(len(p), len(h.chunk)-h.at)
			if int64(k) > h.left {
				return fmt.Errorf("%s: more than the %d bytes of the content", what, got)
			}
			if !bytes.Equal(p[:k], h.chunk[h.at:h.at+k]) {
				return fmt.Errorf("%s: wrong content between offsets %d and %d", what, got, got+int64(k))
			}
			h.at = (h.at + k) % len(h.chunk)
			h.left -= int64(k)
			got += int64(k)
			p = p[k:]
		}
		if err == io.EOF {
			if h.left != 0 {
				return fmt.Errorf("%s: end after %d bytes, %d are missing", what, got, h.left)
			}
			return nil
		}
		if err != nil {
			return fmt.Errorf("%s: after %d bytes: %w", what, got, err)
		}
	}
}

func (h *hugeContent) sums() (a, k uint32) {
	x, y := adler32.New(), crc32.NewIEEE()
	buf := make([]byte, 1<<16)
	for {
		n, err := h.Read(buf)
		heartbeat()
		if err != nil {
			return x.Sum32(), y.Sum32()
		}
		x.Write(buf[:n])
		y.Write(buf[:n])
	}
}

// lastSink counts and keeps the last bytes.
type lastSink struct {
	w    io.Writer
	n    int64
	last []byte
}

func (s *lastSink) Write(p []byte) (int, error) {
	s.n += int64(len(p))
	if len(p) >= 16 {
		s.last = append(s.last[:0], p[len(p)-16:]...)
	} else {
		s.last = append(s.last, p...)
		if len(s.last) > 16 {
			s.last = append(s.last[:0], s.last[len(s.last)-16:]...)
		}
	}
	heartbeat()
	return s.w.Write(p)
}

// streamTracer keeps the events of streams, not those of blocks.
type streamTracer struct{ evs []tflate.Event }

func (t *streamTracer) OnEvent(e tflate.Event) {
	switch e.Type {
	case tflate.StreamEndEvent, tflate.StreamCloseEvent:
		t.evs = append(t.evs, e)
	}
}

func checkHugeWrite(c *HugeCase, cov *Cov) error {
	chunk := expandWith(c.Chunk, nil)
	if len(chunk) == 0 {
		return nil
	}
	size := c.length()
	a, k := (&hugeContent{chunk: chunk, left: size}).sums()
	tr := &streamTracer{}
	pr, pw := io.Pipe()
	sink := &lastSink{w: pw}
	done := make(chan error, 1)
	go func() {
		err := func() error {
			var r io.Reader
			var err error
			switch c.O.format() {
			case ref.Raw:
				r = flate.NewReader(pr)
			case ref.Zlib:
				r, err = zlib.NewReader(pr)
			case ref.Gzip:
				r, err = gzip.NewReader(pr)
			}
			if err != nil {
				return fmt.Errorf("standard library: %w", err)
			}
			return (&hugeContent{chunk: chunk, left: size}).expect("standard library", r, 1<<16)
		}()
		if err != nil {
			pr.CloseWithError(err)
		} else {
			io.Copy(io.Discard, pr)
		}
		done <- err
	}()
	fw := tflate.NewWriter(sink, c.O.options(tr)...)
	src := &hugeContent{chunk: chunk, left: size}
	buf := make([]byte, c.Piece)
	var werr error
	for werr == nil {
		n, err := src.Read(buf)
		if err != nil {
			break
		}
		heartbeat()
		if m, err := fw.Write(buf[:n]); err != nil || m != n {
			werr = fmt.Errorf("Write: %d, %v", m, err)
		}
	}
	if werr == nil {
		if err := fw.Close(); err != nil {
			werr = fmt.Errorf("Close: %w", err)
		}
	}
	pw.Close()
	if err := <-done; err != nil {
		return err
	}
	if werr != nil {
		return werr
	}
	end := sink.last
	switch c.O.format() {
	case ref.Zlib:
		if x := binary.BigEndian.Uint32(end[len(end)-4:]); x != a {
			return fmt.Errorf("trailer has Adler-32 %08x, want %08x", x, a)
		}
	case ref.Gzip:
		if x := binary.LittleEndian.Uint32(end[len(end)-8:]); x != k {
			return fmt.Errorf("trailer has CRC-32 %08x, want %08x", x, k)
		}
		if x := binary.LittleEndian.Uint32(end[len(end)-4:]); x != uint32(size) {
			return fmt.Errorf("trailer has length %d, want %d", x, uint32(size))
		}
	}
	if err := hugeEvents("compressor", tr, uint64(size), uint64(sink.n), a, k, c.O.format()); err != nil {
		return err
	}
	c.cover(cov, size)
	return nil
}

func hugeEvents(what string, tr *streamTracer, in, out uint64, a, k uint32, f ref.Format) error {
	trailer := uint64([]int{ref.Raw: 0, ref.Zlib: 4, ref.Gzip: 8}[f])
	if what == "decompressor" {
		in, out = out, in
	}
	for _, e := range tr.evs {
		if e.NumStreams != 1 {
			continue
		}
		wi, wo := in, out
		if e.Type == tflate.StreamEndEvent {
			if what == "decompressor" {
				wi -= trailer
			} else {
				wo -= trailer
			}
		}
		if e.InputBytesTotal != wi || e.InputBytesStream != wi || e.OutputBytesTotal != wo || e.OutputBytesStream != wo {
			return fmt.Errorf("%s: event %v counts %d/%d bytes of input, %d/%d of output; want %d and %d", what, e.Type, e.InputBytesTotal, e.InputBytesStream, e.OutputBytesTotal, e.OutputBytesStream, wi, wo)
		}
		if e.Footer != nil && (uint32(e.Footer.Adler32) != a || uint32(e.Footer.CRC32) != k) {
			return fmt.Errorf("%s: checksums %08x and %08x, want %08x and %08x", what, uint32(e.Footer.Adler32), uint32(e.Footer.CRC32), a, k)
		}
	}
	if len(tr.evs) < 2 {
		return fmt.Errorf("%s: %d stream events", what, len(tr.evs))
	}
	return nil
}

func (c *HugeCase) cover(cov *Cov, size int64) {
	cov.Class("format " + formatNames[int(c.O.format())])
	cov.ClassIf(size > 1<<32, "over 4 GiB")
	cov.ClassIf(size == 1<<32, "4 GiB")
	cov.ClassIf(c.O.level() == 0, "stored")
	cov.Nontrivial(size > 1<<31)
}

func checkHugeRead(c *HugeCase, cov *Cov) error {
	chunk := expandWith(c.Chunk, nil)
	if len(chunk) == 0 {
		return nil
	}
	size := c.length()
	a, k := (&hugeContent{chunk: chunk, left: size}).sums()
	body := func(b []byte) []byte {
		var out bytes.Buffer
		w, err := flate.NewWriter(&out, 1)
		must(err == nil, "NewWriter")
		w.Write(b)
		w.Flush()
		return out.Bytes()
	}
	f := c.O.format()
	reps := size / int64(len(chunk))
	parts := []io.Reader{}
	n := int64(0)
	add := func(b []byte) {
		parts = append(parts, bytes.NewReader(b))
		n += int64(len(b))
	}
	switch f {
	case ref.Zlib:
		add([]byte{0x78, 0x9c})
	case ref.Gzip:
		add([]byte{0x1f, 0x8b, 8, 0, 0, 0, 0, 0, 0, 255})
	}
	b := body(chunk)
	parts = append(parts, &hugeContent{chunk: b, left: reps * int64(len(b))})
	n += reps * int64(len(b))
	add(body(chunk[:size%int64(len(chunk))]))
	tail := []byte{3, 0}
	switch f {
	case ref.Zlib:
		tail = binary.BigEndian.AppendUint32(tail, a)
	case ref.Gzip:
		tail = binary.LittleEndian.AppendUint32(tail, k)
		tail = binary.LittleEndian.AppendUint32(tail, uint32(size))
	}
	add(tail)
	if c.Two {
		parts = append(parts, bytes.NewReader(stdCompress(f, 6, nil, nil, 0)))
	}
	ro := ROpts{F: int(f)}
	if c.Auto && f != ref.Raw {
		ro.F = 0
	}
	tr := &streamTracer{}
	fr := tflate.NewReader(io.MultiReader(parts...), ro.options(tr)...)
	defer fr.Close()
	if err := (&hugeContent{chunk: chunk, left: size}).expect("decompressor", fr, c.Piece); err != nil {
		return err
	}
	if err := hugeEvents("decompressor", tr, uint64(size), uint64(n), a, k, f); err != nil {
		return err
	}
	c.cover(cov, size)
	return nil
}

func genHuge(read, gz bool) func(t *rapid.T) *HugeCase {
	return func(t *rapid.T) *HugeCase {
		c := &HugeCase{Piece: pick(t, "piece", 1<<16, 1<<17, 50000)}
		c.O.F = pick(t, "f", 3, 3, 2, 1)
		c.Over = int64(pick(t, "over", 0, 1, uni(t, 0, 1000, "o"), uni(t, 0, 100000, "o"), uni(t, 0, 1<<22, "o")))
		c.Half = pct(t, 15, "half")
		if gz {
			c.O.F, c.Half = 3, false
			if read || pct(t, 50, "beyond") {
				c.Over = int64(uni(t, 40000, 1<<22, "o"))
			}
		}
		c.Auto = pct(t, 50, "auto")
		c.Two = pct(t, 30, "two")
		c.O.CL = pick(t, "cl", 0, 99, 99)
		c.O.St = 2
		if c.O.CL == 0 {
			c.O.St = 0
		}
		c.Chunk = []Seg{
			{K: "rand", A: 256, N: uni(t, 1, 300, "rn"), S: rapid.Uint64().Draw(t, "s")},
			{K: "run", A: uni(t, 0, 255, "a"), N: uni(t, 300000, 1300000, "n")},
			{K: "rand", A: 4, N: uni(t, 0, 300, "rn"), S: rapid.Uint64().Draw(t, "s")},
			{K: "run", A: uni(t, 0, 255, "a"), N: uni(t, 1000, 100000, "n")},
		}
		if read && (gz || pct(t, 75, "far")) {
			// matches at great distances, very likely also just beyond the border
			c.Chunk[3].N /= 10
			c.Chunk[1] = Seg{K: "period", A: uni(t, 10000, 32000, "period"), N: c.Chunk[1].N, S: rapid.Uint64().Draw(t, "s")}
		}
		return c
	}
}

func init() {
	const what = "the content of one stream is a little longer than 4 GiB (at times 2 GiB), mostly runs; "
	const outW = "the output is read by the standard library, trailer values and byte counts of events are compared; non-trivial: more than 2 GiB"
	const outR = "the stream is made from repeated output of the standard library; non-trivial: more than 2 GiB"
	reg("C02", "huge-gzip", what+"gzip; "+outW, 1, 8, genHuge(false, true), checkHugeWrite)
	reg("C02", "huge", what+outW, 1, 16, genHuge(false, false), checkHugeWrite)
	reg("C03", "huge-gzip", what+"gzip; "+outR, 1, 8, genHuge(true, true), checkHugeRead)
	reg("C03", "huge", what+outR, 1, 16, genHuge(true, false), checkHugeRead)
	reg("C26", "huge-write", what+"gzip; by a 386 build; "+outW, 1, 12, genHuge(false, true), checkHugeWrite).Mode = "386"
	reg("C26", "huge-read", what+"gzip; by a 386 build; "+outR, 1, 12, genHuge(true, true), checkHugeRead).Mode = "386"
}
