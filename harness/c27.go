package main

import (
	"bytes"
	"fmt"
	"io"
	"sync"

	"pgregory.net/rapid"

	flate "github.com/chronos-tachyon/flate"

	"flateverif/ref"
)

// ConfRound is a construction or a Reset, and some use.
type ConfRound struct {
	Opts []OptItem
	Data []Seg // compressor: content
	Ops  []Op  `json:",omitempty"`
	M    *Made `json:",omitempty"` // decompressor: input
	Fit  bool  // give its format and dictionary
	Ch   Chunking
}

// ConfCase is a configuration history.
type ConfCase struct {
	Reader bool
	R      []ConfRound
	Busy   bool `json:",omitempty"` // asked also by source, destination and tracers
	Share  bool // the options of the first round also configure another object
}

// conf is what the accessors must report.
type conf struct {
	w       WOpts
	method  int
	tracers []flate.Tracer
}

type confTracer struct {
	id   int
	n    int
	hook func(string)
}

func (c *confTracer) OnEvent(flate.Event) {
	c.n++
	if c.hook != nil {
		c.hook("by a tracer, on an event")
	}
}

// busySrc and busyDst ask for the configuration in the middle of every call.
type busySrc struct {
	*Src
	hook func(string)
}

func (s *busySrc) Read(p []byte) (int, error) {
	s.hook("by the source, in Read")
	return s.Src.Read(p)
}

type busyDst struct {
	io.Writer
	hook func(string)
}

func (d *busyDst) Write(p []byte) (int, error) {
	d.hook("by the destination, in Write")
	return d.Writer.Write(p)
}

func (d *busyDst) Flush() error {
	d.hook("by the destination, in Flush")
	return nil
}

func (d *busyDst) Sync() error {
	d.hook("by the destination, in Sync")
	return nil
}

// buildOptions builds options from slices which are spoilt afterwards.
func buildOptions(items []OptItem, pool []flate.Tracer) []flate.Option {
	var out []flate.Option
	for _, it := range items {
		switch it.K {
		case "d":
			d := it.dict()
			d = append([]byte(nil), d...)
			out = append(out, flate.WithDictionary(d))
			for i := range d {
				d[i] ^= 0x5a
			}
		case "t":
			trs := append([]flate.Tracer(nil), pool[:min(it.V, len(pool))]...)
			out = append(out, flate.WithTracers(trs...))
			for i := range trs {
				trs[i] = &confTracer{id: -1}
			}
		default:
			out = append(out, it.option())
		}
	}
	return out
}

type accessors struct {
	format  flate.Format
	method  flate.Method
	strat   flate.Strategy
	cl      flate.CompressLevel
	ml      flate.MemoryLevel
	wb      flate.WindowBits
	dict    []byte
	tracers []flate.Tracer
	under   any
}

func writerAccessors(fw *flate.Writer) accessors {
	return accessors{fw.Format(), fw.Method(), fw.Strategy(), fw.CompressLevel(), fw.MemoryLevel(), fw.WindowBits(), fw.Dict(), fw.Tracers(), fw.UnderlyingWriter()}
}

func readerAccessors(fr *flate.Reader) accessors {
	return accessors{format: fr.Format(), ml: fr.MemoryLevel(), wb: fr.WindowBits(), dict: fr.Dict(), tracers: fr.Tracers(), under: fr.UnderlyingReader()}
}

func (a accessors) check(c conf, reader bool, under any) error {
	f := c.w.F
	if !reader && f == 0 {
		f = int(ref.Zlib)
	}
	ml, wb := c.w.ML, c.w.wbits()
	if ml == 0 {
		ml = 9
	}
	cmp := func(what string, got, want int) error {
		if got != want {
			return fmt.Errorf("%s reports %d, want %d", what, got, want)
		}
		return nil
	}
	for _, err := range []error{cmp("Format", int(a.format), f), cmp("MemoryLevel", int(a.ml), ml), cmp("WindowBits", int(a.wb), wb)} {
		if err != nil {
			return err
		}
	}
	if !reader {
		for _, err := range []error{cmp("Method", int(a.method), c.method), cmp("Strategy", int(a.strat), c.w.St), cmp("CompressLevel", int(a.cl), c.w.level())} {
			if err != nil {
				return err
			}
		}
	}
	d := c.w.dict()
	if !bytes.Equal(a.dict, d) || (a.dict == nil) != (d == nil) {
		return fmt.Errorf("Dict reports %v: %w", a.dict != nil, diffBytes("dictionary", a.dict, d))
	}
	if len(a.tracers) != len(c.tracers) {
		return fmt.Errorf("Tracers reports %d, want %d", len(a.tracers), len(c.tracers))
	}
	for i, t := range c.tracers {
		if a.tracers[i] != t {
			return fmt.Errorf("Tracers reports another tracer at index %d", i)
		}
	}
	if a.under != under {
		return fmt.Errorf("the underlying reader or writer is reported as %T", a.under)
	}
	return nil
}

// spoil changes everything the accessors returned.
func (a accessors) spoil() {
	for i := range a.dict {
		a.dict[i] ^= 0x77
	}
	for i := range a.tracers {
		a.tracers[i] = &confTracer{id: -2}
	}
}

func checkConf(c *ConfCase, cov *Cov) error {
	var fw *flate.Writer
	var fr *flate.Reader
	var all []OptItem
	var pools [][]flate.Tracer
	var cur []flate.Tracer // in force
	for i := range c.R {
		r := &c.R[i]
		pool := []flate.Tracer{&confTracer{id: 3 * i}, &confTracer{id: 3*i + 1}, &confTracer{id: 3*i + 2}}
		pools = append(pools, pool)
		items := append([]OptItem{}, r.Opts...)
		var in []byte
		if c.Reader {
			b, _, dict, f, err := r.M.make()
			if err != nil {
				return err
			}
			in = b
			if r.Fit {
				items = append(items, OptItem{K: "f", V: int(f)}, OptItem{K: "d", D: dict})
			}
		}
		all = append(all, items...)
		for _, it := range items {
			if it.K == "t" {
				cur = pool[:it.V:it.V]
			}
		}
		w, method, _ := merged(all)
		want := conf{w: w, method: method, tracers: cur}
		opts := buildOptions(items, pool)
		what := fmt.Sprintf("round %d", i)
		verify := func(when string, under any) error {
			for k := 0; k < 2; k++ {
				var a accessors
				if c.Reader {
					a = readerAccessors(fr)
				} else {
					a = writerAccessors(fw)
				}
				if err := a.check(want, c.Reader, under); err != nil {
					if k == 1 {
						when += ", once the slices returned before have been changed"
					}
					return fmt.Errorf("%s, %s: %w", what, when, err)
				}
				a.spoil()
			}
			return nil
		}
		// the same in the middle of a call, on whatever goroutine
		var under any
		var mu sync.Mutex
		var hookErr error
		asked := 0
		hook := func(when string) {
			mu.Lock()
			defer mu.Unlock()
			if asked < 40 && hookErr == nil {
				asked++
				hookErr = verify("asked "+when, under)
			}
		}
		for _, p := range pools {
			for _, t := range p {
				t.(*confTracer).n = 0
				t.(*confTracer).hook = nil
				if c.Busy {
					t.(*confTracer).hook = hook
				}
			}
		}
		if c.Reader {
			var src io.Reader = r.Ch.source(in)
			if c.Busy {
				src = &busySrc{src.(*Src), hook}
			}
			under = src
			if fr == nil {
				fr = flate.NewReader(src, opts...)
			} else {
				fr.Reset(src, opts...)
			}
			if err := verify("before reading", under); err != nil {
				return err
			}
			ro := ROpts{F: w.F, ML: w.ML, WB: w.WB, Dict: w.Dict}
			res := ref.Decode(in, ro.refOptions())
			run := readAll(fr, r.Ch.Reads, len(res.Out)+100000)
			if err := compareRef(what, run, res, len(in)); err != nil {
				return fmt.Errorf("with %+v: %w", w, err)
			}
			if err := verify("after reading", under); err != nil {
				return err
			}
			fr.Close()
			if err := verify("after Close", under); err != nil {
				return err
			}
			cov.ClassIf(len(res.Streams) > 0, "decompressed")
		} else {
			data := expandWith(r.Data, w.dict())
			d := newDst()
			dst := d.writer(0)
			if c.Busy {
				dst = &busyDst{dst, hook}
			}
			under = dst
			if fw == nil {
				fw = flate.NewWriter(dst, opts...)
				if c.Share {
					// the same options for another compressor, used at once
					for _, t := range pool {
						t.(*confTracer).hook = nil
					}
					var b bytes.Buffer
					other := flate.NewWriter(&b, opts...)
					other.Write(data)
					if err := other.Close(); err != nil {
						return fmt.Errorf("%s: another compressor with the same options: %w", what, err)
					}
					for _, t := range pool {
						t.(*confTracer).n = 0
						if c.Busy {
							t.(*confTracer).hook = hook
						}
					}
					cov.Class("shared options")
				}
			} else {
				fw.Reset(dst, opts...)
			}
			if err := verify("before writing", under); err != nil {
				return err
			}
			run := runOps(fw, d, data, r.Ops, true, false)
			if err := verify("after writing", under); err != nil {
				return err
			}
			if err := fw.Close(); err != nil {
				return err
			}
			if err := run.firstErr(); err != nil {
				return err
			}
			if err := verify("after Close", under); err != nil {
				return err
			}
			if _, err := strict(w, d.Buf, data); err != nil {
				return fmt.Errorf("%s, with %+v: %w", what, w, err)
			}
			// built directly with these values, all spelled out
			e := newDst()
			direct := []flate.Option{flate.WithDictionary(w.dict()), flate.WithWindowBits(flate.WindowBits(w.wbits())), flate.WithMemoryLevel(flate.MemoryLevel(max(1, w.ML+9*b2i(w.ML == 0)))),
				flate.WithCompressLevel(flate.CompressLevel(w.level())), flate.WithStrategy(flate.Strategy(w.St)), flate.WithFormat(flate.Format(w.format()))}
			nw := flate.NewWriter(e.writer(0), direct...)
			if err := runOps(nw, e, data, r.Ops, true, true).firstErr(); err != nil {
				return err
			}
			if err := diffBytes(what+": output, against a compressor built directly with the same values", d.Buf, e.Buf); err != nil {
				return err
			}
		}
		if hookErr != nil {
			return hookErr
		}
		cov.ClassIf(asked > 0, "asked in the middle of a call")
		// events reach the tracers in force, and no others
		for _, p := range pools {
			for _, t := range p {
				t := t.(*confTracer)
				on := false
				for _, x := range cur {
					on = on || x == flate.Tracer(t)
				}
				if on != (t.n > 0) {
					return fmt.Errorf("%s: a tracer, in force: %v, received %d events", what, on, t.n)
				}
			}
		}
		cov.ClassIf(i > 0, "after Reset")
		cov.ClassIf(i > 0 && len(items) == 0, "Reset without options")
		cov.ClassIf(len(cur) > 0, "tracers")
		cov.ClassIf(w.dict() != nil, "dictionary")
		seen := map[string]bool{}
		for _, it := range items {
			cov.ClassIf(seen[it.K], "option given twice")
			seen[it.K] = true
		}
		cov.Nontrivial(len(all) > 1)
	}
	return nil
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// RangeCase is a value given to an option.
type RangeCase struct {
	K string
	V int
}

func checkRange(c *RangeCase, cov *Cov) error {
	ok := false
	var build func()
	switch c.K {
	case "format":
		ok, build = c.V <= 3, func() { flate.WithFormat(flate.Format(c.V)) }
	case "method":
		ok, build = c.V == 0, func() { flate.WithMethod(flate.Method(c.V)) }
	case "strategy":
		ok, build = c.V <= 3, func() { flate.WithStrategy(flate.Strategy(c.V)) }
	case "level":
		ok, build = c.V >= -1 && c.V <= 9, func() { flate.WithCompressLevel(flate.CompressLevel(c.V)) }
	case "memory":
		ok, build = c.V <= 9, func() { flate.WithMemoryLevel(flate.MemoryLevel(c.V)) }
	case "window":
		ok, build = c.V == 0 || c.V >= 8 && c.V <= 15, func() { flate.WithWindowBits(flate.WindowBits(c.V)) }
	case "dictionary":
		ok, build = c.V != 0, func() { flate.WithDictionary(make([]byte, c.V)) }
	case "no dictionary":
		ok, build = true, func() { flate.WithDictionary(nil) }
	default:
		panic(harnessBug("range kind"))
	}
	var p any
	func() {
		defer func() { p = recover() }()
		build()
	}()
	if ok && p != nil {
		return fmt.Errorf("%s %d is refused: %v", c.K, c.V, p)
	}
	if !ok && p == nil {
		return fmt.Errorf("%s %d is not refused", c.K, c.V)
	}
	cov.ClassIf(ok, "accepted")
	cov.ClassIf(!ok, "refused")
	cov.Nontrivial(true)
	return nil
}

func genConf(t *rapid.T, reader bool) *ConfCase {
	c := &ConfCase{Reader: reader, Share: pct(t, 20, "share"), Busy: pct(t, 50, "busy")}
	for n := pick(t, "rounds", 1, 2, 2, 3, 4); n > 0; n-- {
		r := ConfRound{}
		for k := pick(t, "nopts", 0, 1, 2, 3, 5, 8); k > 0; k-- {
			r.Opts = append(r.Opts, genOptItem(t, reader))
		}
		if reader {
			m := genMade(t, anyFormat(t), 3000, 2)
			r.M, r.Fit, r.Ch = &m, pct(t, 70, "fit"), genChunking(t)
		} else {
			r.Data = genData(t, 3000)
			r.Ops = genOps(t, totalN(r.Data), true)
		}
		c.R = append(c.R, r)
	}
	return c
}

func init() {
	regEnum("C27", "ranges", "every value of the underlying type given to every option; dictionaries of 0, 1 and more bytes; non-trivial: all", func(yield func(*RangeCase) bool) {
		for _, k := range []string{"format", "method", "strategy", "memory", "window"} {
			for v := 0; v <= 255; v++ {
				if !yield(&RangeCase{K: k, V: v}) {
					return
				}
			}
		}
		for v := -128; v <= 127; v++ {
			if !yield(&RangeCase{K: "level", V: v}) {
				return
			}
		}
		for _, v := range []int{0, 1, 2, 32768, 100000} {
			if !yield(&RangeCase{K: "dictionary", V: v}) {
				return
			}
		}
		yield(&RangeCase{K: "no dictionary"})
	}, checkRange)
	reg("C27", "writer", "option lists (repeats, overrides, explicit defaults) at construction and at up to three Resets of a compressor, from slices which are changed afterwards, with writes and flushes between; accessors before, during and after, output against a compressor built directly, events to the tracers in force only; non-trivial: at least two options", 12000, 300000, func(t *rapid.T) *ConfCase { return genConf(t, false) }, checkConf)
	reg("C27", "reader", "the same for a decompressor, with inputs of every producer; data and final error against the strict reference decoder with the options in force; non-trivial: at least two options", 12000, 300000, func(t *rapid.T) *ConfCase { return genConf(t, true) }, checkConf)
}
