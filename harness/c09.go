package main

import (
	"fmt"

	"pgregory.net/rapid"

	flate "github.com/chronos-tachyon/flate"

	"flateverif/ref"
)

// FlushCase is a history with flushes onto a destination of some kind.
type FlushCase struct {
	H    HistCase
	Kind int // 0 plain writer, 1 with Flush, 2 with Sync, 3 with both
	SErr int // what Sync returns: 0 nil, 1.. errors meaning "not supported"
}

const flushRule = "write/flush histories (at least one flush), destinations with and without Flush and Sync; after every flush the bytes that have reached the destination are decoded; non-trivial: a flush with data before it in the open stream"

func checkFlushes(c *FlushCase, cov *Cov) error {
	data := c.H.data()
	d := newDst()
	d.SyncErr = ignorable(c.SErr)
	fw := flate.NewWriter(d.writer(c.Kind), c.H.O.options()...)
	o := c.H.O
	dict := o.dict()
	ropt := ref.Options{Format: o.format(), Dict: dict, HasDict: dict != nil}
	pos, begun := 0, 0 // begun: position where the open stream began; pos==begun: not begun
	type mark struct{ at, pos int }
	var fulls []mark // full flushes in the current stream
	var bounds []int
	partials := map[int]int{} // content offset: partial flushes of the open stream there
	finishes := []int{}       // data positions
	write := func(n int) error {
		n = min(max(0, n), len(data)-pos)
		nn, err := fw.Write(append([]byte{}, data[pos:pos+n]...))
		if err != nil || nn != n {
			return fmt.Errorf("Write(%d bytes) returned %d, %v", n, nn, err)
		}
		pos += n
		return nil
	}
	type suffix struct{ from, to, lo, hi int }
	var sufs []suffix
	endStream := func() {
		for _, m := range fulls {
			sufs = append(sufs, suffix{m.at, len(d.Buf), m.pos, pos})
		}
		fulls = nil
	}
	flush := func(i, ty int, isClose bool) error {
		logAt := len(d.Log)
		was := len(d.Buf)
		var err error
		if isClose {
			err = fw.Close()
		} else {
			err = fw.Flush(flushTypes[ty])
		}
		name := fmt.Sprintf("operation %d (%v)", i, flushTypes[ty])
		if isClose {
			name = "Close"
		}
		if err != nil {
			return fmt.Errorf("%s failed: %w", name, err)
		}
		// the destination's own flush and sync, after the last write
		lf, ls := 0, 0
		for _, x := range d.Log[logAt:] {
			switch x {
			case 'w':
				lf, ls = 0, 0
			case 'f':
				lf++
			case 's':
				ls++
			}
		}
		if c.Kind&1 != 0 && lf == 0 {
			return fmt.Errorf("%s: the destination's Flush was not called after the last write (calls: %q)", name, d.Log[logAt:])
		}
		if c.Kind&2 != 0 && ls == 0 {
			return fmt.Errorf("%s: the destination's Sync was not called after the last write (calls: %q)", name, d.Log[logAt:])
		}
		open := pos > begun
		cov.Class([]string{"block", "partial", "sync", "full", "finish"}[ty] + map[bool]string{true: " flush of an open stream", false: " flush with no open stream"}[open])
		cov.Nontrivial(open && !isClose)
		if !open && ty != fFinish && len(d.Buf) != was {
			// nothing was written to the stream: whatever is emitted must keep the rest decodable,
			// which the final decode checks
			cov.Class("bytes emitted by an idle flush")
		}
		if open && ty != fFinish {
			bounds = append(bounds, pos)
		}
		if open && ty == fPartial {
			partials[pos]++
		}
		if ty == fBlock {
			return nil
		}
		res := ref.Decode(d.Buf, ropt)
		if res.Kind == ref.Corrupt {
			return fmt.Errorf("%s: bytes at the destination: %v", name, res)
		}
		if err := diffBytes(name+": content decodable from what has reached the destination", res.Out, data[:pos]); err != nil {
			return err
		}
		if !open && !(ty == fFinish && len(finishes) == 0 && pos == 0) {
			return nil
		}
		last := res.Streams[len(res.Streams)-1]
		switch ty {
		case fSync, fFull:
			if res.Kind != ref.Truncated || last.D == nil || len(last.D.Blocks) == 0 {
				return fmt.Errorf("%s: not inside a stream: %v", name, res)
			}
			// the last block must be an empty stored one, ending at the end of the bytes
			bl := last.D.Blocks
			b := bl[len(bl)-1]
			if last.D.Why == "block header" && b.Type == 0 && b.OutStart == b.OutEnd && !b.Final && b.EndBit%8 == 0 &&
				last.Start+last.Hdr.Len+b.EndBit/8 == len(d.Buf) {
				break
			}
			return fmt.Errorf("%s: the bytes at the destination do not end with an empty stored block on a byte boundary: %v; last block %+v; last bytes % x", name, res, b, tail(d.Buf, 12))
		case fFinish:
			if res.Kind != ref.OK {
				return fmt.Errorf("%s: stream not complete: %v", name, res)
			}
		}
		if ty == fFull {
			fulls = append(fulls, mark{len(d.Buf), pos})
		}
		if ty == fFinish {
			endStream()
			begun = pos
			finishes = append(finishes, pos)
		}
		return nil
	}
	for i, op := range c.H.Ops {
		var err error
		if op.Op == "w" {
			err = write(op.N)
		} else {
			err = flush(i, op.T%5, false)
		}
		if err != nil {
			return err
		}
	}
	if err := write(len(data)); err != nil {
		return err
	}
	if err := flush(-1, fFinish, true); err != nil {
		return err
	}
	res, err := strict(o, d.Buf, data)
	if err != nil {
		return err
	}
	// block boundaries at every flush
	have := map[int]bool{}
	at := 0
	for _, s := range res.Streams {
		for _, b := range s.D.Blocks {
			have[at+b.OutEnd] = true
		}
		at += len(s.Out)
	}
	for _, p := range bounds {
		if !have[p] {
			return fmt.Errorf("no block ends at content offset %d, where a flush happened", p)
		}
	}
	// the padding of partial flushes
	if len(partials) > 0 {
		at = 0
		for _, s := range res.Streams {
			for _, b := range s.D.Blocks {
				if b.Type == 1 && b.OutStart == b.OutEnd && !b.Final {
					partials[at+b.OutEnd]--
				}
			}
			at += len(s.Out)
		}
		for p, n := range partials {
			if n > 0 {
				return fmt.Errorf("%d partial flushes at content offset %d did not write an empty static block", n, p)
			}
		}
	}
	// streams end only at finish flushes
	at = 0
	fin := map[int]bool{len(data): true}
	for _, p := range finishes {
		fin[p] = true
	}
	for i, s := range res.Streams {
		at += len(s.Out)
		if !fin[at] {
			return fmt.Errorf("stream %d ends at content offset %d, where there was no finish flush", i, at)
		}
	}
	// what follows a full flush stands alone
	for _, s := range sufs {
		r := ref.Inflate(d.Buf[s.from:s.to], ref.Params{})
		if r.Kind != ref.OK {
			return fmt.Errorf("bytes after a full flush at %d cannot be decoded alone: %v %s", s.from, r.Kind, r.Why)
		}
		if err := diffBytes("bytes after a full flush decoded alone", r.Out, data[s.lo:s.hi]); err != nil {
			return err
		}
		cov.Class("suffixes after a full flush")
		cov.ClassIf(s.hi > s.lo, "non-empty suffixes after a full flush")
	}
	cov.Class(fmt.Sprintf("destination kind %d", c.Kind))
	return nil
}

func tail(b []byte, n int) []byte { return b[max(0, len(b)-n):] }

func genFlushCase(t *rapid.T, maxN int) *FlushCase {
	c := &FlushCase{H: *genHist(t, maxN), Kind: uni(t, 0, 3, "kind")}
	c.SErr = pick(t, "serr", 0, 0, 0, 1, 2)
	if len(c.H.Ops) == 0 || pct(t, 50, "more") {
		n := totalN(c.H.Data)
		for i := uni(t, 1, 6, "more"); i > 0; i-- {
			c.H.Ops = append(c.H.Ops, Op{Op: "w", N: pick(t, "mw", 0, 1, 2, 50, 300, 1000, n/2)})
			c.H.Ops = append(c.H.Ops, Op{Op: "f", T: pick(t, "mf", 0, 1, 1, 2, 2, 3, 3, 3, 4)})
		}
	}
	return c
}

// ---- C10 ----

// CatCase: streams from several producers, concatenated.
type CatCase struct {
	P  []Made
	F  int // 0: zlib and gzip mixed
	RF int
	R  DecOpts
}

const catRule = "1 to 12 conforming streams (built, own, standard library; empty contents included) are concatenated; non-trivial: at least two streams"

func init() {
	reg("C09", "histories", flushRule, 30000, 360000, func(t *rapid.T) *FlushCase { return genFlushCase(t, 20000) }, checkFlushes)
	reg("C09", "large", flushRule, 2500, 30000, func(t *rapid.T) *FlushCase { return genFlushCase(t, 200000) }, checkFlushes)

	reg("C10", "decode", catRule, 12000, 144000, func(t *rapid.T) *CatCase {
		c := &CatCase{F: uni(t, 0, 3, "f"), R: genDecOpts(t)}
		n := uni(t, 1, 12, "n")
		maxN := pick(t, "maxn", 5, 100, 100, 3000, 40000)
		for i := 0; i < n; i++ {
			f := ref.Format(c.F)
			if f == ref.Auto {
				f = pick(t, "pf", ref.Zlib, ref.Gzip)
			}
			m := genMade(t, f, maxN, 2)
			// one dictionary for all: none
			switch {
			case m.Built != nil:
				m.Built.Dict = nil
				if maxN < 200 && pct(t, 60, "tiny") {
					m.Built.S = m.Built.S[:1]
					m.Built.S[0].Blocks = []ref.BlockSpec{{T: pick(t, "tt", 0, 1, 2), N: uni(t, 0, 3, "tn"), S: rapid.Uint64().Draw(t, "ts"), A: 256}}
				}
			case m.Own != nil:
				m.Own.O.Dict = nil
			case m.Std != nil:
				m.Std.Dict = nil
			}
			c.P = append(c.P, m)
		}
		c.RF = c.F
		if c.F != int(ref.Raw) && pct(t, 50, "auto") {
			c.RF = 0
		}
		return c
	}, func(c *CatCase, cov *Cov) error {
		var in, content []byte
		n := 0
		for i := range c.P {
			a, b, _, f, err := c.P[i].make()
			if err != nil {
				return err
			}
			n += len(ref.Decode(a, ref.Options{Format: f}).Streams)
			in = append(in, a...)
			content = append(content, b...)
		}
		ro := ROpts{F: c.RF, ML: c.R.ML}
		res := refOK(in, ro.refOptions(), content)
		must(len(res.Streams) == n, "stream count")
		r := decompress(ro, in, c.R.Ch, len(content)+100)
		if err := r.expectClean(fmt.Sprintf("decompressing %d concatenated streams", n), content); err != nil {
			return err
		}
		cov.ClassIf(c.F == 0, "zlib and gzip mixed")
		cov.ClassIf(c.F == 1, "raw")
		cov.ClassIf(c.RF == 0, "auto-detecting")
		cov.ClassIf(n > 8, "more than 8 streams")
		for _, s := range res.Streams {
			cov.ClassIf(len(s.Out) == 0, "empty streams")
		}
		cov.Nontrivial(n > 1)
		return nil
	})
	reg("C10", "write", histRule+"; with finish flushes; each stream is decoded alone; non-trivial: at least two streams", 10000, 120000, func(t *rapid.T) *HistCase {
		c := genHist(t, 30000)
		n := totalN(c.Data)
		for i := uni(t, 1, 5, "fin"); i > 0; i-- {
			c.Ops = append(c.Ops, Op{Op: "w", N: pick(t, "mw", 0, 1, 2, 50, 300, 1000, n/3)})
			c.Ops = append(c.Ops, Op{Op: "f", T: pick(t, "mf", 2, 3, 4, 4, 4, 4)})
		}
		return c
	}, func(c *HistCase, cov *Cov) error {
		data := c.data()
		d, run, err := compress(c.O, data, c.Ops)
		if err != nil {
			return err
		}
		res, err := strict(c.O, d.Buf, data)
		if err != nil {
			return err
		}
		// expected segments: data between finish flushes, where non-empty
		var segs [][]byte
		last := 0
		for i, x := range run.Results {
			if x.Op == "f4" || x.Op == "close" {
				p := run.Written[i]
				if p > last || len(segs) == 0 && p == 0 && last == 0 {
					segs = append(segs, data[last:p])
				}
				last = p
			}
		}
		if len(res.Streams) < len(segs) {
			return fmt.Errorf("%d streams written, want %d", len(res.Streams), len(segs))
		}
		j := 0
		dict := c.O.dict()
		for i, s := range res.Streams {
			alone := d.Buf[s.Start:s.End]
			r := ref.Decode(alone, ref.Options{Format: c.O.format(), Dict: dict, HasDict: dict != nil})
			if r.Kind != ref.OK {
				return fmt.Errorf("stream %d alone: %v", i, r)
			}
			if len(r.Out) == 0 && (j >= len(segs) || len(segs[j]) > 0) {
				continue // an empty stream does not change the content
			}
			if j >= len(segs) {
				return fmt.Errorf("more non-empty streams than segments (%d)", len(segs))
			}
			if err := diffBytes(fmt.Sprintf("stream %d decoded alone", i), r.Out, segs[j]); err != nil {
				return err
			}
			j++
			// and by the decompressor itself
			rr := decompress(c.ropts(), alone, c.Ch, len(r.Out)+100)
			if err := rr.expectClean(fmt.Sprintf("stream %d decompressed alone", i), r.Out); err != nil {
				return err
			}
		}
		if j != len(segs) {
			return fmt.Errorf("%d segments found in the streams, want %d", j, len(segs))
		}
		rr := decompress(c.ropts(), d.Buf, c.Ch, len(data)+100)
		if err := rr.expectClean("decompressing all streams", data); err != nil {
			return err
		}
		cov.ClassIf(len(res.Streams) > 3, "more than 3 streams")
		cov.ClassIf(dict != nil, "with dictionary")
		cov.Nontrivial(len(res.Streams) > 1)
		return nil
	})
}

// ---- C11 ----

// AutoCase: streams read with and without a selected format.
type AutoCase struct {
	C     StreamsCase
	Align int // total length of the first stream is k*2^(ML+6)+Align where possible
	K     int
	ML    int
	Ch    Chunking
	Tl    []byte `json:",omitempty"`
	F     int    // another format to force
}

func (c *AutoCase) input() (in, content []byte, b *ref.Builder) {
	cc := c.C
	if c.K > 0 && len(cc.S) > 1 {
		// pad the first stream with a stored block
		s0 := cc.S[0]
		s0.Blocks = append([]ref.BlockSpec{{T: 0, S: 7, A: 256}}, s0.Blocks...)
		one := StreamsCase{S: []ref.StreamSpec{s0}, Dict: c.C.Dict}
		n := len(one.build().In)
		ml := c.ML
		if ml == 0 {
			ml = 9
		}
		want := c.K<<uint(ml+6) + c.Align
		if want > n && want-n <= 65535 {
			s0.Blocks[0].N = want - n
			cc.S = append([]ref.StreamSpec{s0}, c.C.S[1:]...)
		}
	}
	b = cc.build()
	return b.In, b.Content, b
}

func init() {
	reg("C11", "same", "1 to 4 conforming zlib and gzip streams are read with no format selected and, when all have one format, with it selected; the first stream's length is steered to multiples of the internal buffer size; non-trivial: some content", 35000, 420000, func(t *rapid.T) *AutoCase {
		c := &AutoCase{C: genStreams(t, pick(t, "f", ref.Auto, ref.Auto, ref.Zlib, ref.Gzip), 0, 4, false, true), ML: genML(t), Ch: genChunking(t)}
		if pct(t, 70, "align") {
			c.ML = pick(t, "aml", 1, 1, 2, 3, 4)
			c.K = uni(t, 1, 3, "ak")
			c.Align = uni(t, -3, 3, "aa")
		}
		return c
	}, func(c *AutoCase, cov *Cov) error {
		in, content, _ := c.input()
		ro := ROpts{ML: c.ML, Dict: c.C.Dict}
		res := refOK(in, ro.refOptions(), content)
		for i, s := range res.Streams {
			must(s.Format == c.C.S[i].F, "reference detects another format")
		}
		r := decompress(ro, in, c.Ch, len(content)+100)
		if err := r.expectClean("decompressing with auto-detection", content); err != nil {
			return err
		}
		same := true
		for _, s := range c.C.S {
			same = same && s.F == c.C.S[0].F
		}
		if same {
			ro.F = int(c.C.S[0].F)
			r := decompress(ro, in, c.Ch, len(content)+100)
			if err := r.expectClean("decompressing with the format selected", content); err != nil {
				return err
			}
		}
		cov.ClassIf(!same, "mixed formats")
		if len(res.Streams) > 1 && c.ML > 0 {
			switch m := res.Streams[0].End & (1<<uint(c.ML+6) - 1); {
			case m == 1<<uint(c.ML+6)-1:
				cov.Class("second header straddles the input buffer")
			case m == 0:
				cov.Class("second header at an input buffer boundary")
			}
		}
		cov.Nontrivial(len(content) > 0)
		return nil
	})
	reg("C11", "any", "any input (streams of any format, possibly mutated or followed by other bytes) read with no format and with each format selected, verdicts compared with the reference; non-trivial: the selected format is not the actual one, or raw input without a selected format", 45000, 540000, func(t *rapid.T) *AutoCase {
		c := &AutoCase{C: genStreams(t, anyFormat(t), 0, 2, false, false), ML: genML(t), Ch: genChunking(t)}
		c.F = uni(t, 0, 3, "force")
		if pct(t, 30, "tail") {
			c.Tl = genBytes(t, 40, "tl")
		}
		if pct(t, 30, "morestreams") {
			c.C.S = append(c.C.S, genStreams(t, anyFormat(t), 0, 2, false, false).S...)
		}
		return c
	}, func(c *AutoCase, cov *Cov) error {
		in, _, _ := c.input()
		in = append(in, c.Tl...)
		ro := ROpts{F: c.F, ML: c.ML}
		o := ro.refOptions()
		o.MaxOut = maxOutBad
		res := ref.Decode(in, o)
		r := decompress(ro, in, c.Ch, maxOutBad+100000)
		if err := compareRef(fmt.Sprintf("decompressing %v input with format %v", c.C.S[0].F, ref.Format(c.F)), r, res, len(in)); err != nil {
			return err
		}
		cov.Class(fmt.Sprintf("%v read as %v: %v", c.C.S[0].F, ref.Format(c.F), res.Kind))
		cov.Nontrivial(c.F != int(c.C.S[0].F) && c.F != 0 || c.F == 0 && c.C.S[0].F == ref.Raw)
		return nil
	})
}
