package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"strings"

	"github.com/rs/zerolog"
	"pgregory.net/rapid"

	flate "github.com/chronos-tachyon/flate"

	"flateverif/ref"
)

// wantEvent is what the reference says an event must be.
type wantEvent struct {
	typ    flate.EventType
	stream int
	st     *ref.Stream
	blk    *ref.Block
	end    bool // last event of a complete stream
}

// model lists the events for a decoded input.  The first sure events must be
// present; what follows may be missing when the input is not well-formed.
func model(res *ref.Result) (evs []wantEvent, sure int) {
	for i := range res.Streams {
		st := &res.Streams[i]
		add := func(t flate.EventType, b *ref.Block) {
			evs = append(evs, wantEvent{typ: t, stream: i + 1, st: st, blk: b})
		}
		complete := i < len(res.Streams)-1 || res.Kind == ref.OK
		add(flate.StreamBeginEvent, nil)
		if st.D == nil && !st.HdrOK {
			return
		}
		add(flate.StreamHeaderEvent, nil)
		if st.D == nil {
			return
		}
		for j := range st.D.Blocks {
			b := &st.D.Blocks[j]
			add(flate.BlockBeginEvent, b)
			if b.Type != 0 {
				add(flate.BlockTreesEvent, b)
			}
			add(flate.BlockEndEvent, b)
		}
		if p := st.D.Part; p != nil {
			add(flate.BlockBeginEvent, p)
			if p.Trees {
				add(flate.BlockTreesEvent, p)
			}
		}
		if st.D.Kind != ref.OK {
			return
		}
		add(flate.StreamEndEvent, nil)
		if complete {
			add(flate.StreamCloseEvent, nil)
			sure = len(evs)
		}
	}
	return
}

func sameSizes(what string, got flate.SizeList, want []byte) error {
	trim := func(b []byte) []byte { return bytes.TrimRight(b, "\x00") }
	if !bytes.Equal(trim(got), trim(want)) {
		return fmt.Errorf("%s %v, want %v", what, []byte(got), want)
	}
	return nil
}

func (w wantEvent) match(e Ev, reader bool, fixedF flate.Format) error {
	if e.Type != w.typ {
		return fmt.Errorf("type %v, want %v", e.Type, w.typ)
	}
	if int(e.NumStreams) != w.stream {
		return fmt.Errorf("stream number %d, want %d", e.NumStreams, w.stream)
	}
	if f := flate.Format(w.st.Format); e.Format != f && !(reader && w.typ == flate.StreamBeginEvent && e.Format == flate.DefaultFormat) {
		return fmt.Errorf("format %v, want %v", e.Format, f)
	}
	// exactly the right details
	isBlock := w.typ == flate.BlockBeginEvent || w.typ == flate.BlockTreesEvent || w.typ == flate.BlockEndEvent
	if (e.Header != nil) != (w.typ == flate.StreamHeaderEvent) || (e.Block != nil) != isBlock || (e.Trees != nil) != (w.typ == flate.BlockTreesEvent) || (e.Footer != nil) != (w.typ == flate.StreamEndEvent) {
		return fmt.Errorf("details do not fit the type: %s", e)
	}
	if isBlock {
		t := []flate.BlockType{flate.StoredBlock, flate.StaticBlock, flate.DynamicBlock, flate.InvalidBlock}[w.blk.Type]
		if e.Block.Type != t || e.Block.IsFinal != w.blk.Final {
			return fmt.Errorf("block %v final=%v, want %v final=%v", e.Block.Type, e.Block.IsFinal, t, w.blk.Final)
		}
	}
	if e.Trees != nil {
		if w.blk.Type == 2 {
			if int(e.Trees.LiteralLengthCount) != w.blk.HLIT || int(e.Trees.DistanceCount) != w.blk.HDIST || int(e.Trees.CodeCount) != w.blk.HCLEN {
				return fmt.Errorf("tree counts %d %d %d, want %d %d %d", e.Trees.LiteralLengthCount, e.Trees.DistanceCount, e.Trees.CodeCount, w.blk.HLIT, w.blk.HDIST, w.blk.HCLEN)
			}
			if err := sameSizes("code length code", e.Trees.CodeSizes, w.blk.CL); err != nil {
				return err
			}
		}
		ll, d := w.blk.LL, w.blk.D
		gd := e.Trees.DistanceSizes
		gl := e.Trees.LiteralLengthSizes
		if w.blk.Type == 1 {
			// the last symbols never occur
			ll, d = ll[:286], d[:30]
			gl, gd = gl[:min(len(gl), 286)], gd[:min(len(gd), 30)]
		}
		if err := sameSizes("literal/length sizes", gl, ll); err != nil {
			return err
		}
		if err := sameSizes("distance sizes", gd, d); err != nil {
			return err
		}
	}
	if e.Footer != nil {
		if uint32(e.Footer.Adler32) != w.st.Adler || uint32(e.Footer.CRC32) != w.st.CRC {
			return fmt.Errorf("checksums %v %v, want %08x %08x", e.Footer.Adler32, e.Footer.CRC32, w.st.Adler, w.st.CRC)
		}
	}
	if h := e.Header; h != nil {
		r := w.st.Hdr
		switch w.st.Format {
		case ref.Zlib:
			if int(h.WindowBits) != r.CINFO+8 {
				return fmt.Errorf("header WindowBits %d, stream has %d", h.WindowBits, r.CINFO+8)
			}
			if want := []flate.CompressLevel{1, 2, flate.DefaultCompression, 9}[r.FLEVEL]; reader && h.CompressLevel != want {
				return fmt.Errorf("header CompressLevel %d, stream has FLEVEL %d", h.CompressLevel, r.FLEVEL)
			}
		case ref.Gzip:
			if h.FileName != string(r.Name) || h.Comment != string(r.Comment) {
				return fmt.Errorf("header name %q comment %q, stream has %q %q", h.FileName, h.Comment, r.Name, r.Comment)
			}
			if r.MTIME == 0 && !h.LastModified.IsZero() && h.LastModified.Unix() != 0 || r.MTIME != 0 && h.LastModified.Unix() != int64(r.MTIME) {
				return fmt.Errorf("header time %v, stream has %d", h.LastModified, r.MTIME)
			}
			if (h.DataType == flate.TextData) != r.FTEXT {
				return fmt.Errorf("header data type %v, stream has FTEXT %v", h.DataType, r.FTEXT)
			}
			if b, ok := osBytes[h.OSType]; ok && b != r.OS || !ok && r.OS <= 13 {
				return fmt.Errorf("header OS %v, stream has %d", h.OSType, r.OS)
			}
			got, want := h.ExtraData.Records, refRecords(r.Extra)
			if len(got) != len(want) {
				return fmt.Errorf("header has %d extra-data records, stream has %d", len(got), len(want))
			}
			for i := range got {
				if got[i].ID != want[i].ID || !bytes.Equal(got[i].Bytes, want[i].Bytes) {
					return fmt.Errorf("extra-data record %d differs", i)
				}
			}
		}
	}
	return nil
}

// checkEvents compares events with the reference's reading of the bits.
func checkEvents(evs []Ev, res *ref.Result, reader bool) error {
	want, sure := model(res)
	if len(evs) > len(want) {
		return fmt.Errorf("%d events, at most %d are right; the next one is %s", len(evs), len(want), clip(evs[len(want)].String()))
	}
	if res.Kind == ref.OK && !res.Lenient {
		sure = len(want)
	}
	if res.Lenient {
		sure = 0
	}
	if len(evs) < sure {
		return fmt.Errorf("%d events, at least %d are due; missing is %v of stream %d", len(evs), sure, want[len(evs)].typ, want[len(evs)].stream)
	}
	var prev *Ev
	for i := range evs {
		e := &evs[i]
		w := want[i]
		if err := w.match(*e, reader, 0); err != nil {
			return fmt.Errorf("event %d: %w", i, err)
		}
		if prev != nil && (e.InputBytesTotal < prev.InputBytesTotal || e.OutputBytesTotal < prev.OutputBytesTotal) {
			return fmt.Errorf("event %d: total byte counters decrease: %s after %s", i, clip(e.String()), clip(prev.String()))
		}
		if w.typ == flate.StreamBeginEvent {
			if e.InputBytesStream != 0 || e.OutputBytesStream != 0 {
				return fmt.Errorf("event %d: stream byte counters start at %d and %d", i, e.InputBytesStream, e.OutputBytesStream)
			}
		} else if e.InputBytesStream < prev.InputBytesStream || e.OutputBytesStream < prev.OutputBytesStream {
			return fmt.Errorf("event %d: stream byte counters decrease: %s after %s", i, clip(e.String()), clip(prev.String()))
		}
		// packed and plain sizes
		pack, plain, packT, plainT := e.OutputBytesStream, e.InputBytesStream, e.OutputBytesTotal, e.InputBytesTotal
		if reader {
			pack, plain, packT, plainT = plain, pack, plainT, packT
		}
		if w.typ == flate.StreamCloseEvent {
			before := 0
			for j := 0; j < w.stream; j++ {
				before += len(res.Streams[j].Out)
			}
			if int(pack) != w.st.End-w.st.Start || int(plain) != len(w.st.Out) {
				return fmt.Errorf("event %d: at its end stream %d has counters %d packed, %d plain; true sizes are %d and %d", i, w.stream, pack, plain, w.st.End-w.st.Start, len(w.st.Out))
			}
			if int(packT) != w.st.End || int(plainT) != before {
				return fmt.Errorf("event %d: at the end of stream %d total counters are %d packed, %d plain; true sizes are %d and %d", i, w.stream, packT, plainT, w.st.End, before)
			}
		}
		if int(pack) > w.st.End-w.st.Start && res.Kind == ref.OK || int(plain) > len(w.st.Out) {
			return fmt.Errorf("event %d: counters %d packed, %d plain exceed the stream's true sizes", i, pack, plain)
		}
		prev = e
	}
	return nil
}

// checkLog compares the logging tracer's lines with the events.
func checkLog(log []byte, evs []Ev) error {
	lines := bytes.Split(bytes.TrimSuffix(log, []byte("\n")), []byte("\n"))
	if len(log) == 0 {
		lines = nil
	}
	if len(lines) != len(evs) {
		return fmt.Errorf("logging tracer wrote %d lines for %d events", len(lines), len(evs))
	}
	nums := func(v any) string {
		l, ok := v.([]any)
		if !ok {
			return fmt.Sprintf("%T", v)
		}
		var sb strings.Builder
		for _, x := range l {
			fmt.Fprintf(&sb, "%v ", x)
		}
		return sb.String()
	}
	sizes := func(s flate.SizeList) string {
		var sb strings.Builder
		for _, x := range s {
			fmt.Fprintf(&sb, "%d ", x)
		}
		return sb.String()
	}
	for i, l := range lines {
		var rec map[string]any
		if err := json.Unmarshal(l, &rec); err != nil {
			return fmt.Errorf("logging tracer: line %d is not JSON: %v: %s", i, err, clip(string(l)))
		}
		if rec["level"] != "trace" {
			return fmt.Errorf("logging tracer: line %d has the priority %v, not trace: %s", i, rec["level"], clip(string(l)))
		}
		ev, ok := rec["event"].(map[string]any)
		if !ok {
			return fmt.Errorf("logging tracer: line %d has no event object: %s", i, clip(string(l)))
		}
		e := evs[i]
		want := map[string]any{
			"Type": e.Type.String(), "InputBytesTotal": float64(e.InputBytesTotal), "InputBytesStream": float64(e.InputBytesStream),
			"OutputBytesTotal": float64(e.OutputBytesTotal), "OutputBytesStream": float64(e.OutputBytesStream),
			"NumStreams": float64(e.NumStreams), "Format": e.Format.String(),
		}
		for k, v := range want {
			if ev[k] != v {
				return fmt.Errorf("logging tracer: line %d: %s is %v, event has %v", i, k, ev[k], v)
			}
		}
		if e.Footer != nil {
			f, _ := ev["Footer"].(map[string]any)
			if f["Adler32"] != fmt.Sprintf("%#08x", uint32(e.Footer.Adler32)) || f["CRC32"] != fmt.Sprintf("%#08x", uint32(e.Footer.CRC32)) {
				return fmt.Errorf("logging tracer: line %d: footer %v", i, f)
			}
		}
		if e.Block != nil {
			b, _ := ev["Block"].(map[string]any)
			if b["Type"] != e.Block.Type.String() || b["IsFinal"] != e.Block.IsFinal {
				return fmt.Errorf("logging tracer: line %d: block %v, event has %v %v", i, b, e.Block.Type, e.Block.IsFinal)
			}
		}
		if e.Trees != nil {
			t, _ := ev["Trees"].(map[string]any)
			for k, v := range map[string]flate.SizeList{"LiteralLengthSizes": e.Trees.LiteralLengthSizes, "DistanceSizes": e.Trees.DistanceSizes, "CodeSizes": e.Trees.CodeSizes} {
				if t[k] == nil && len(v) == 0 {
					continue
				}
				if nums(t[k]) != sizes(v) {
					return fmt.Errorf("logging tracer: line %d: %s is %v, event has %v", i, k, t[k], v)
				}
			}
		}
		if (e.Header != nil) != (ev["Header"] != nil) {
			return fmt.Errorf("logging tracer: line %d: header %v", i, ev["Header"])
		}
	}
	return nil
}

// tap is a set of tracers of every kind.
type tap struct {
	a, b Recorder
	log  bytes.Buffer
	hdr  flate.Header
	n    int
}

func (p *tap) tracers(log bool) []flate.Tracer {
	zerolog.SetGlobalLevel(zerolog.TraceLevel)
	trs := []flate.Tracer{&p.a, flate.NoOpTracer{}, flate.CaptureHeader(&p.hdr), flate.TracerFunc(func(flate.Event) { p.n++ })}
	if log {
		trs = append(trs, flate.Log(zerolog.New(&p.log)))
	}
	return append(trs, &p.b)
}

func (p *tap) check(log bool, res *ref.Result, reader bool) error {
	if err := sameEvents("second tracer against the first", p.b.evs, p.a.evs); err != nil {
		return err
	}
	if p.n != len(p.a.evs) {
		return fmt.Errorf("a TracerFunc saw %d events, another tracer %d", p.n, len(p.a.evs))
	}
	if err := checkEvents(p.a.evs, res, reader); err != nil {
		return err
	}
	if err := p.a.changed(); err != nil {
		return err
	}
	if log {
		if err := checkLog(p.log.Bytes(), p.a.evs); err != nil {
			return err
		}
	}
	for i := len(p.a.evs) - 1; i >= 0; i-- {
		if h := p.a.evs[i].Header; h != nil {
			if p.hdr.FileName != h.FileName || p.hdr.Comment != h.Comment || !p.hdr.LastModified.Equal(h.LastModified) || p.hdr.OSType != h.OSType || p.hdr.DataType != h.DataType || len(p.hdr.ExtraData.Records) != len(h.ExtraData.Records) || p.hdr.WindowBits != h.WindowBits || p.hdr.CompressLevel != h.CompressLevel {
				return fmt.Errorf("CaptureHeader captured %+v, the last header is %+v", p.hdr, *h)
			}
			break
		}
	}
	return nil
}

// WEvCase is a compressor history with tracers.
type WEvCase struct {
	H   HistCase
	Hdr *Hdr `json:",omitempty"`
	Log bool
}

func checkWEvents(c *WEvCase, cov *Cov) error {
	data := c.H.data()
	p := &tap{}
	d := newDst()
	fw := flate.NewWriter(d.writer(0), c.H.O.options(p.tracers(c.Log)...)...)
	if c.Hdr != nil {
		if err := fw.SetHeader(c.Hdr.header()); err != nil {
			return err
		}
	}
	run := runOps(fw, d, data, c.H.Ops, true, true)
	if err := run.firstErr(); err != nil {
		return err
	}
	res, err := strict(c.H.O, d.Buf, data)
	if err != nil {
		return err
	}
	if err := p.check(c.Log, res, false); err != nil {
		return fmt.Errorf("compressor: %w", err)
	}
	for i, e := range p.a.evs {
		if e.Header != nil && (int(e.Header.WindowBits) != c.H.O.wbits() || int(e.Header.CompressLevel) != c.H.O.level()) {
			return fmt.Errorf("event %d: header says window %d, level %d; the compressor was given %d, %d", i, e.Header.WindowBits, e.Header.CompressLevel, c.H.O.wbits(), c.H.O.level())
		}
	}
	covEvents(p, res, c.Log, cov)
	return nil
}

func covEvents(p *tap, res *ref.Result, log bool, cov *Cov) {
	for _, e := range p.a.evs {
		if e.Type == flate.BlockTreesEvent {
			cov.Class("trees of " + e.Block.Type.String() + " blocks")
		}
	}
	cov.ClassIf(len(res.Streams) > 1, "several streams")
	cov.ClassIf(log, "logged")
	cov.Class("input " + res.Kind.String())
	cov.Nontrivial(len(p.a.evs) > 8)
}

// REvCase is a decompressor run with tracers.
type REvCase struct {
	M   *Made `json:",omitempty"`
	B   BadCase
	Mut []Mut `json:",omitempty"`
	R   DecOpts
	Log bool
}

func checkREvents(c *REvCase, cov *Cov) error {
	var in []byte
	var dict []Seg
	f := ref.Raw
	if c.M != nil {
		var err error
		in, _, dict, f, err = c.M.make()
		if err != nil {
			return err
		}
	} else {
		in, dict = c.B.input(), c.B.C.Dict
		if len(c.B.C.S) > 0 {
			f = c.B.C.S[0].F
		}
	}
	in = mutate(in, c.Mut)
	ro := c.R.ropts(f, dict)
	o := ro.refOptions()
	o.MaxOut = maxOutBad
	res := ref.Decode(in, o)
	if res.Why == "limit" {
		return nil
	}
	p := &tap{}
	r := decompress(ro, in, c.R.Ch, maxOutBad+1000, p.tracers(c.Log)...)
	if r.Bad != "" {
		return fmt.Errorf("%s", r.Bad)
	}
	if err := p.check(c.Log, res, true); err != nil {
		return fmt.Errorf("decompressor (final error %v; reference: %v): %w", r.Err, res, err)
	}
	covEvents(p, res, c.Log, cov)
	return nil
}

func init() {
	reg("C19", "compressor", "a compressor history with six tracers (two recording, CaptureHeader, TracerFunc, NoOp, Log); events compared with the reference decoder's reading of the output; non-trivial: more than 8 events", 30000, 360000, func(t *rapid.T) *WEvCase {
		c := &WEvCase{H: *genHist(t, 20000), Log: pct(t, 30, "log")}
		c.H.Ch, c.H.RML = Chunking{}, 0
		if c.H.O.F == 3 && pct(t, 60, "hdr") {
			h := genHdr(t)
			c.Hdr = &h
		}
		return c
	}, checkWEvents)
	reg("C19", "decompressor", "conforming (three producers), mutated, truncated and planted-violation inputs read with six tracers; events compared with the reference decoder's; non-trivial: more than 8 events", 42000, 504000, func(t *rapid.T) *REvCase {
		f := anyFormat(t)
		c := &REvCase{R: genDecOpts(t), Log: pct(t, 30, "log")}
		switch uni(t, 0, 3, "in") {
		case 0:
			c.B = BadCase{C: genStreams(t, f, 0, 3, false, true)}
			plant(t, &c.B.C)
		default:
			m := genMade(t, f, 20000, 3)
			c.M = &m
			switch uni(t, 0, 4, "harm") {
			case 0:
				c.Mut = genMuts(t, 1)
			case 1:
				c.Mut = []Mut{{K: "trunc", P: uni(t, 0, 1000, "tp")}}
			}
		}
		return c
	}, checkREvents)
}
