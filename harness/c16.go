package main

import (
	"fmt"

	"pgregory.net/rapid"

	flate "github.com/chronos-tachyon/flate"

	"flateverif/ref"
)

// ---- C16 ----

// WRound is what is done with a compressor between Resets.
type WRound struct {
	Opts []OptItem `json:",omitempty"`
	Hdr  *Hdr      `json:",omitempty"` // SetHeader first
	Data []Seg
	Ops  []Op
	End  int     // 0 Close; 1 Finish; 2 destination failure, then nothing; 3 failure, then Close; 4 nothing written
	F    *WFault `json:",omitempty"` // also for End 0 and 1: any outcome is compared
	Kind int
}

// WResetCase is a sequence of rounds on one compressor.
type WResetCase struct {
	R []WRound
}

type roundResult struct {
	buf  []byte
	log  string
	run  *WRun
	evs  []Ev
	evs2 []Ev
}

func (w *WRound) data(dict []byte) []byte { return expandWith(w.Data, dict) }

// play performs a round on fw, which writes to d.
func (w *WRound) play(fw *flate.Writer, d *Dst, dict []byte, r1, r2 *Recorder) *roundResult {
	data := w.data(dict)
	res := &roundResult{}
	ops := append([]Op{}, w.Ops...)
	switch w.End {
	case 4:
		res.run = &WRun{}
		n, err := fw.Write(nil)
		res.run.Results = append(res.run.Results, OpResult{Op: "w", N: n, Err: err, Len: len(d.Buf)})
		err = fw.Flush(flate.SyncFlush)
		res.run.Results = append(res.run.Results, OpResult{Op: "f2", Err: err, Len: len(d.Buf)})
	case 0, 3:
		res.run = runOps(fw, d, data, ops, true, true)
	default:
		ops = append(ops, Op{Op: "w", N: len(data)}, Op{Op: "f", T: fFinish})
		res.run = runOps(fw, d, data, ops, false, false)
	}
	res.buf = d.Buf
	res.log = string(d.Log)
	res.evs, res.evs2 = r1.take(), r2.take()
	return res
}

func (w *WRound) dst(n int) *Dst {
	d := newDst()
	d.kind = w.Kind
	if w.F != nil {
		d.Err, d.Once = faultErr(w.F.E, errDest), w.F.Once
		switch w.F.M {
		case 0:
			d.FailWrite = w.F.P % max(1, n)
		case 1:
			d.FailCall = w.F.P % 12
		case 2:
			d.FailFlush = w.F.P % 3
		case 3:
			d.FailSync = w.F.P % 3
		}
	}
	return d
}

func sameRound(what string, got, want *roundResult) error {
	for i := range want.run.Results {
		g, w := got.run.Results[i], want.run.Results[i]
		ge, we := fmt.Sprint(g.Err), fmt.Sprint(w.Err)
		if g.Op != w.Op || g.N != w.N || ge != we || g.Len != w.Len {
			return fmt.Errorf("%s: operation %d (%s): result %d, %s with %d bytes emitted; want %d, %s with %d bytes emitted", what, i, w.Op, g.N, ge, g.Len, w.N, we, w.Len)
		}
	}
	if err := diffBytes(what+": output", got.buf, want.buf); err != nil {
		return err
	}
	if err := sameEvents(what+": first tracer", got.evs, want.evs); err != nil {
		return err
	}
	return sameEvents(what+": second tracer", got.evs2, want.evs2)
}

func checkWReset(c *WResetCase, cov *Cov) error {
	a1, a2 := &Recorder{}, &Recorder{}
	var fw *flate.Writer
	var all []OptItem
	var hdr *Hdr
	for i := range c.R {
		r := &c.R[i]
		all = append(all, r.Opts...)
		o, _, _ := merged(all)
		dict := o.dict()
		n := 0
		for _, s := range r.Data {
			n += s.N
		}
		d := r.dst(n)
		if fw == nil {
			fw = flate.NewWriter(d.writer(r.Kind), optionList(r.Opts, a1, a2)...)
		} else {
			fw.Reset(d.writer(r.Kind), optionList(r.Opts, a1, a2)...)
		}
		if r.Hdr != nil {
			hdr = r.Hdr
			if err := fw.SetHeader(hdr.header()); err != nil {
				return fmt.Errorf("round %d: SetHeader: %w", i, err)
			}
		}
		got := r.play(fw, d, dict, a1, a2)

		// a new compressor
		b1, b2 := &Recorder{}, &Recorder{}
		e := r.dst(n)
		nw := flate.NewWriter(e.writer(r.Kind), optionList(all, b1, b2)...)
		if hdr != nil {
			if err := nw.SetHeader(hdr.header()); err != nil {
				return fmt.Errorf("round %d: SetHeader on a new compressor: %w", i, err)
			}
		}
		want := r.play(nw, e, dict, b1, b2)
		what := fmt.Sprintf("after %d resets, against a new compressor with %+v", i, o)
		if i == 0 {
			what = "the same operations on two new compressors"
		}
		if err := sameRound(what, got, want); err != nil {
			return err
		}
		if i > 0 {
			prev := c.R[i-1]
			cov.Class([]string{"after Close", "after Finish", "after failure", "after failure and Close", "after nothing"}[prev.End])
			cov.ClassIf(len(r.Opts) > 0, "options changed")
			cov.ClassIf(len(got.evs) > 0, "events compared")
			cov.ClassIf(hdr != nil && o.format() == ref.Gzip, "header compared")
			cov.Nontrivial(len(got.buf) > 20)
		}
		// leave an open stream in no round
		if got.run.Results[len(got.run.Results)-1].Err == nil && r.End == 2 {
			cov.Class("fault not reached")
		}
	}
	return a1.changed()
}

func genWRound(t *rapid.T, first bool, maxN int) WRound {
	r := WRound{Opts: genOptItems(t, false, "nopts"), Data: genData(t, maxN), Kind: uni(t, 0, 3, "kind"), End: pick(t, "end", 0, 0, 1, 1, 2, 3, 4)}
	if first {
		r.Opts = append(r.Opts, OptItem{K: "t", V: 2})
	}
	r.Ops = genOps(t, totalN(r.Data), true)
	if r.End == 2 || r.End == 3 || r.End < 2 && pct(t, 10, "anyfault") {
		f := WFault{M: pick(t, "fm", 0, 0, 1, 1, 2, 3), Once: pct(t, 40, "once"), E: uni(t, 0, 9, "e"), P: uni(t, 0, 1<<20, "p")}
		if pct(t, 50, "early") {
			f.P = uni(t, 0, 30, "p")
		}
		r.F = &f
	}
	if pct(t, 20, "hdr") {
		h := genHdr(t)
		r.Hdr = &h
	}
	return r
}

// ---- C17 ----

// RRound is what is done with a decompressor between Resets.
type RRound struct {
	Opts  []OptItem `json:",omitempty"`
	M     *Made     `json:",omitempty"`
	B     BadCase
	Mut   []Mut `json:",omitempty"`
	Own   bool  // use the merged format for the input (only sensible with M)
	Fit   bool  // give the format and dictionary of the input
	Ch    Chunking
	Stop  int  // -1 read to the end; otherwise the number of bytes after which to stop (0: no Read at all)
	Err   int  // >0: the source fails at the end of its data with this error
	Close bool // before the next Reset
}

// RResetCase is a sequence of rounds on one decompressor.
type RResetCase struct {
	R []RRound
}

func (r *RRound) input() (in []byte, dict []Seg, f ref.Format, err error) {
	if r.M != nil {
		in, _, dict, f, err = r.M.make()
		return mutate(in, r.Mut), dict, f, err
	}
	in = r.B.input()
	f = ref.Raw
	if len(r.B.C.S) > 0 {
		f = r.B.C.S[0].F
	}
	return in, r.B.C.Dict, f, nil
}

func checkRReset(c *RResetCase, cov *Cov) error {
	a1, a2 := &Recorder{}, &Recorder{}
	var fr *flate.Reader
	var all []OptItem
	for i := range c.R {
		r := &c.R[i]
		in, dict, f, err := r.input()
		if err != nil {
			return err
		}
		opts := append([]OptItem{}, r.Opts...)
		if r.Fit {
			opts = append(opts, OptItem{K: "f", V: int(f)}, OptItem{K: "d", D: dict})
		}
		all = append(all, opts...)
		source := func() *Src {
			s := r.Ch.source(in)
			if r.Err > 0 {
				s.Err = faultErr(r.Err%9, errSource)
			}
			return s
		}
		if fr == nil {
			fr = flate.NewReader(source(), optionList(opts, a1, a2)...)
		} else {
			fr.Reset(source(), optionList(opts, a1, a2)...)
			a1.take()
			a2.take()
		}
		if r.Stop >= 0 {
			buf := make([]byte, 4096)
			for left := r.Stop; left > 0; {
				n, err := fr.Read(buf[:min(left, len(buf))])
				left -= n
				if err != nil {
					break
				}
			}
			if r.Close {
				fr.Close()
			}
			continue
		}
		got := readAll(fr, r.Ch.Reads, maxOutBad)
		if got.Many {
			fr.Close()
			continue
		}
		evs1, evs2 := a1.take(), a2.take()
		// a new decompressor
		b1, b2 := &Recorder{}, &Recorder{}
		nr := flate.NewReader(source(), optionList(all, b1, b2)...)
		want := readAll(nr, r.Ch.Reads, maxOutBad)
		nr.Close()
		o, _, _ := merged(all)
		what := fmt.Sprintf("after %d resets, against a new decompressor with %+v", i, o)
		if i == 0 {
			what = "two new decompressors"
		}
		if got.Bad != "" || want.Bad != "" {
			return fmt.Errorf("%s: %s / %s", what, got.Bad, want.Bad)
		}
		if err := diffBytes(what+": data", got.Out, want.Out); err != nil {
			return fmt.Errorf("%w (errors %v; %v)", err, got.Err, want.Err)
		}
		if got.Err.Error() != want.Err.Error() || errKind(got.Err) != errKind(want.Err) {
			return fmt.Errorf("%s: error %v, want %v", what, got.Err, want.Err)
		}
		if err := sameEvents(what+": first tracer", evs1, b1.take()); err != nil {
			return err
		}
		if err := sameEvents(what+": second tracer", evs2, b2.take()); err != nil {
			return err
		}
		if r.Close {
			fr.Close()
		}
		if i > 0 {
			p := &c.R[i-1]
			switch {
			case p.Stop == 0:
				cov.Class("after no reads")
			case p.Stop > 0:
				cov.Class("after a partial read")
			default:
				cov.Class("after the end or an error")
			}
			cov.ClassIf(p.Close, "after Close")
			cov.ClassIf(len(evs1) > 0, "events compared")
			cov.Class("ends in " + errKind(got.Err))
			cov.Nontrivial(len(got.Out) > 0)
		}
	}
	fr.Close()
	return a1.changed()
}

func genRRound(t *rapid.T, last bool) RRound {
	r := RRound{Opts: genOptItems(t, true, "nopts"), Ch: genChunking(t), Stop: -1, Close: pct(t, 30, "close"), Fit: pct(t, 75, "fit")}
	f := anyFormat(t)
	switch uni(t, 0, 5, "in") {
	case 0:
		r.B = BadCase{C: genStreams(t, f, 0, 3, false, true)}
		plant(t, &r.B.C)
	case 1:
		r.B.Hex = genBytes(t, 200, "hex")
	default:
		m := genMade(t, f, 30000, 3)
		r.M = &m
		if pct(t, 20, "mut") {
			r.Mut = genMuts(t, 1)
		}
	}
	if pct(t, 15, "srcerr") {
		r.Err = uni(t, 1, 8, "e")
	}
	if !last && pct(t, 65, "stop") {
		r.Stop = pick(t, "stopn", 0, 1, 2, uni(t, 0, 300, "sn"), uni(t, 0, 30000, "sn"))
	}
	return r
}

func init() {
	reg("C16", "reset", "2 to 4 rounds on one compressor (changed options, headers, destinations; rounds ending in Close, Finish, a failure, or without output), each compared with a new compressor with the merged options: bytes, results, event streams of two tracers; non-trivial: more than 20 bytes after a Reset", 10500, 126000,
		func(t *rapid.T) *WResetCase {
			c := &WResetCase{}
			n := uni(t, 2, 4, "rounds")
			for i := 0; i < n; i++ {
				c.R = append(c.R, genWRound(t, i == 0, 12000))
			}
			return c
		}, checkWReset)
	reg("C17", "reset", "2 to 4 rounds on one decompressor (conforming, planted-violation, mutated, random inputs; changed options; each abandoned before the first Read, after some bytes, or read to its end or error; with or without Close), each full read compared with a new decompressor with the merged options: data, error, event streams of two tracers; non-trivial: data after a Reset", 30000, 360000,
		func(t *rapid.T) *RResetCase {
			c := &RResetCase{}
			n := uni(t, 2, 4, "rounds")
			for i := 0; i < n; i++ {
				c.R = append(c.R, genRRound(t, i == n-1))
			}
			c.R[0].Opts = append(c.R[0].Opts, OptItem{K: "t", V: 2})
			return c
		}, checkRReset)
}
