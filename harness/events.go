package main

import (
	"fmt"
	"strings"
	"sync"

	flate "github.com/chronos-tachyon/flate"
	"pgregory.net/rapid"
)

// Ev is a deep copy of a tracer event, taken while the tracer runs.
type Ev struct {
	flate.Event
}

func copyEvent(e flate.Event) Ev {
	if e.Header != nil {
		h := *e.Header
		h.ExtraData.Records = nil
		for _, r := range e.Header.ExtraData.Records {
			h.ExtraData.Records = append(h.ExtraData.Records, flate.ExtraDataRecord{ID: r.ID, Bytes: append([]byte{}, r.Bytes...)})
		}
		e.Header = &h
	}
	if e.Block != nil {
		b := *e.Block
		e.Block = &b
	}
	if e.Trees != nil {
		t := *e.Trees
		t.CodeSizes = append(flate.SizeList{}, t.CodeSizes...)
		t.LiteralLengthSizes = append(flate.SizeList{}, t.LiteralLengthSizes...)
		t.DistanceSizes = append(flate.SizeList{}, t.DistanceSizes...)
		e.Trees = &t
	}
	if e.Footer != nil {
		f := *e.Footer
		e.Footer = &f
	}
	return Ev{e}
}

func (e Ev) String() string {
	var b strings.Builder
	fmt.Fprintf(&b, "type=%d in=%d/%d out=%d/%d n=%d f=%d", int(e.Type), e.InputBytesTotal, e.InputBytesStream, e.OutputBytesTotal, e.OutputBytesStream, e.NumStreams, int(e.Format))
	if h := e.Header; h != nil {
		t := "none"
		if !h.LastModified.IsZero() {
			t = fmt.Sprint(h.LastModified.Unix())
		}
		fmt.Fprintf(&b, " header{%q %q %s %d %d %v %d %d}", h.FileName, h.Comment, t, int(h.DataType), int(h.OSType), h.ExtraData.Records, int(h.WindowBits), int(h.CompressLevel))
	}
	if e.Block != nil {
		fmt.Fprintf(&b, " block{%d %v}", int(e.Block.Type), e.Block.IsFinal)
	}
	if t := e.Trees; t != nil {
		fmt.Fprintf(&b, " trees{%d %d %d %v %v %v}", t.CodeCount, t.LiteralLengthCount, t.DistanceCount, []byte(t.CodeSizes), []byte(t.LiteralLengthSizes), []byte(t.DistanceSizes))
	}
	if f := e.Footer; f != nil {
		fmt.Fprintf(&b, " footer{%08x %08x}", uint32(f.Adler32), uint32(f.CRC32))
	}
	return b.String()
}

// Recorder is a tracer which keeps copies of all events.
type Recorder struct {
	mu  sync.Mutex
	evs []Ev
	raw []flate.Event // all events as they came
	was []Ev
}

// OnEvent implements flate.Tracer.
func (r *Recorder) OnEvent(e flate.Event) {
	c := copyEvent(e)
	r.mu.Lock()
	r.evs = append(r.evs, c)
	r.raw, r.was = append(r.raw, e), append(r.was, c)
	r.mu.Unlock()
}

// changed reports an event which is no longer what it was when it came.
func (r *Recorder) changed() error {
	r.mu.Lock()
	defer r.mu.Unlock()
	for i, e := range r.raw {
		if a, b := r.was[i].String(), (Ev{e}).String(); a != b {
			return fmt.Errorf("event %d was %s, and was changed afterwards to %s", i, clip(a), clip(b))
		}
	}
	return nil
}

func (r *Recorder) take() []Ev {
	r.mu.Lock()
	defer r.mu.Unlock()
	out := r.evs
	r.evs = nil
	return out
}

func sameEvents(what string, got, want []Ev) error {
	for i := 0; i < len(got) && i < len(want); i++ {
		if g, w := got[i].String(), want[i].String(); g != w {
			return fmt.Errorf("%s: event %d is %s, want %s", what, i, clip(g), clip(w))
		}
	}
	if len(got) != len(want) {
		return fmt.Errorf("%s: %d events, want %d", what, len(got), len(want))
	}
	return nil
}

func clip(s string) string {
	if len(s) > 300 {
		return s[:300] + "..."
	}
	return s
}

// OptItem is one option as given by a caller.
type OptItem struct {
	K string // f format, s strategy, l level, m memory, w window, n method, d dictionary, t tracers
	V int
	D []Seg `json:",omitempty"`
}

func (o OptItem) dict() []byte { return WOpts{Dict: o.D}.dict() }

func (o OptItem) option(trs ...flate.Tracer) flate.Option {
	switch o.K {
	case "f":
		return flate.WithFormat(flate.Format(o.V))
	case "s":
		return flate.WithStrategy(flate.Strategy(o.V))
	case "l":
		return flate.WithCompressLevel(flate.CompressLevel(o.V))
	case "m":
		return flate.WithMemoryLevel(flate.MemoryLevel(o.V))
	case "w":
		return flate.WithWindowBits(flate.WindowBits(o.V))
	case "n":
		return flate.WithMethod(flate.Method(o.V))
	case "d":
		return flate.WithDictionary(o.dict())
	case "t":
		if o.V == 0 {
			return flate.WithTracers()
		}
		return flate.WithTracers(trs[:min(o.V, len(trs))]...)
	}
	panic(harnessBug("option kind " + o.K))
}

func optionList(items []OptItem, trs ...flate.Tracer) (out []flate.Option) {
	for _, it := range items {
		out = append(out, it.option(trs...))
	}
	return
}

func genOptItem(t *rapid.T, reader bool) OptItem {
	switch k := pick(t, "ok", "f", "s", "l", "m", "w", "n", "d", "t"); k {
	case "f":
		if reader {
			return OptItem{K: k, V: uni(t, 0, 3, "of")}
		}
		return OptItem{K: k, V: pick(t, "of", 0, 1, 2, 3, 3)}
	case "s":
		return OptItem{K: k, V: uni(t, 0, 3, "os")}
	case "l":
		return OptItem{K: k, V: uni(t, -1, 9, "ol")}
	case "m":
		return OptItem{K: k, V: genML(t)}
	case "w":
		return OptItem{K: k, V: genWB(t)}
	case "n":
		return OptItem{K: k, V: 0}
	case "d":
		o := OptItem{K: k}
		if pct(t, 60, "od") {
			o.D = genDict(t)
		}
		return o
	default:
		return OptItem{K: k, V: uni(t, 0, 2, "ot")}
	}
}

func genOptItems(t *rapid.T, reader bool, label string) (out []OptItem) {
	n := pick(t, label, 0, 1, 1, 2, 3, 5)
	for i := 0; i < n; i++ {
		out = append(out, genOptItem(t, reader))
	}
	return
}

// merged is what a list of options amounts to.
func merged(items []OptItem) (w WOpts, method int, tracers int) {
	w.CL = 99
	for _, it := range items {
		switch it.K {
		case "f":
			w.F = it.V
		case "s":
			w.St = it.V
		case "l":
			w.CL = it.V
		case "m":
			w.ML = it.V
		case "w":
			w.WB = it.V
		case "d":
			w.Dict = it.D
			if it.dict() == nil {
				w.Dict = nil
			}
		case "n":
			method = it.V
		case "t":
			tracers = it.V
		}
	}
	return
}
