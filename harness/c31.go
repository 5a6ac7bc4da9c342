package main

import (
	"bytes"
	"fmt"
	"io"
	"sync"

	"pgregory.net/rapid"

	flate "github.com/chronos-tachyon/flate"

	"flateverif/ref"
)

// SlicesCase is a compressor whose caller uses its slices for something else as
// soon as a call has returned.
type SlicesCase struct {
	H    HistCase
	Hd   []Hdr // set before the operations At
	At   []int
	Late bool // the extra data is changed in the middle of the stream, not at once
	Look bool // another goroutine reads the slice while Write is at work
	Cap  int  // capacity beyond what is written
	Soon bool // the dictionary is changed as soon as the option has been made, not later
}

func canary(i int) byte { return byte(i*7 + 0xa5) }

// spoilHeader changes all that can be reached from a header.
func spoilHeader(h *flate.Header) {
	for i := range h.ExtraData.Records {
		r := &h.ExtraData.Records[i]
		for j := range r.Bytes {
			r.Bytes[j] ^= 0x5a
		}
		r.ID[0] ^= 1
		if i%2 == 0 {
			r.Bytes = make([]byte, 300)
		}
	}
}

// run performs the history; careful: with memory that is used for nothing else.
func (c *SlicesCase) run(careful bool) ([]byte, []error, error) {
	var out bytes.Buffer
	opts := c.H.O.options()
	d := append([]byte(nil), c.H.O.dict()...)
	if d != nil && c.H.O.dict() != nil {
		opts = append(opts, flate.WithDictionary(d))
	}
	spoil := func() {
		for i := range d {
			d[i] ^= 0x33
		}
	}
	if !careful && c.Soon {
		spoil()
	}
	fw := flate.NewWriter(&out, opts...)
	if !careful && !c.Soon {
		spoil()
	}
	data := c.H.data()
	slab := make([]byte, len(data)+c.Cap)
	var late []*flate.Header
	var results []error
	write := func(n int) error {
		n = min(max(0, n), len(data))
		p := data[:n]
		data = data[n:]
		if careful {
			_, err := fw.Write(append([]byte(nil), p...))
			results = append(results, err)
			return nil
		}
		for i := range slab {
			slab[i] = canary(i)
		}
		copy(slab, p)
		var wg sync.WaitGroup
		stop := make(chan struct{})
		if c.Look {
			wg.Add(1)
			go func() {
				defer wg.Done()
				x := byte(0)
				for {
					for _, b := range slab {
						x ^= b
					}
					select {
					case <-stop:
						lookSink = x
						return
					default:
					}
				}
			}()
		}
		_, err := fw.Write(slab[:n])
		close(stop)
		wg.Wait()
		results = append(results, err)
		if !bytes.Equal(slab[:n], p) {
			return fmt.Errorf("Write changed the caller's slice of %d bytes: %w", n, diffBytes("slice", slab[:n], p))
		}
		for i := n; i < len(slab); i++ {
			if slab[i] != canary(i) {
				return fmt.Errorf("Write changed the caller's memory %d bytes beyond the slice of %d bytes", i-n, n)
			}
		}
		for i := range slab {
			slab[i] ^= 0xff
		}
		return nil
	}
	for i := 0; i <= len(c.H.Ops); i++ {
		for k, h := range c.Hd {
			if c.At[k] != i {
				continue
			}
			hd := h.header()
			for j := range hd.ExtraData.Records { // of its own
				r := &hd.ExtraData.Records[j]
				r.Bytes = append([]byte(nil), r.Bytes...)
			}
			results = append(results, fw.SetHeader(hd))
			if !careful {
				if c.Late {
					late = append(late, &hd)
				} else {
					spoilHeader(&hd)
				}
			}
		}
		if i == len(c.H.Ops) {
			break
		}
		switch op := c.H.Ops[i]; op.Op {
		case "w":
			if err := write(op.N); err != nil {
				return nil, nil, err
			}
		case "f":
			results = append(results, fw.Flush(flushTypes[op.T%5]))
		}
		if i%2 == 1 {
			for _, h := range late {
				spoilHeader(h)
			}
			late = nil
		}
	}
	if err := write(len(data)); err != nil {
		return nil, nil, err
	}
	results = append(results, fw.Close())
	return out.Bytes(), results, nil
}

var lookSink byte

func checkSlices(c *SlicesCase, cov *Cov) error {
	want, wr, err := c.run(true)
	if err != nil {
		return err
	}
	got, gr, err := c.run(false)
	if err != nil {
		return err
	}
	for i := range wr {
		if (wr[i] == nil) != (gr[i] == nil) {
			return fmt.Errorf("result %d is %v, want %v", i, gr[i], wr[i])
		}
	}
	if err := diffBytes("output when the caller uses its slices again", got, want); err != nil {
		return err
	}
	extra := false
	for _, h := range c.Hd {
		ok, _ := h.valid()
		extra = extra || ok && h.extraLen() > 0
	}
	cov.ClassIf(extra && c.H.O.format() == ref.Gzip, "extra data")
	cov.ClassIf(len(c.H.O.Dict) > 0, "dictionary")
	cov.ClassIf(c.Look, "read by another goroutine during Write")
	cov.Nontrivial(totalN(c.H.Data) > 0)
	return nil
}

func genSlices(t *rapid.T) *SlicesCase {
	c := &SlicesCase{H: *genHist(t, 20000), Look: pct(t, 30, "look"), Late: pct(t, 40, "late"), Soon: pct(t, 50, "soon"), Cap: pick(t, "cap", 0, 1, 8, 300, 70000)}
	if pct(t, 50, "headers") {
		c.H.O.F = int(ref.Gzip)
		for i := uni(t, 1, 2, "nh"); i > 0; i-- {
			c.Hd = append(c.Hd, genHdr(t))
			c.At = append(c.At, pick(t, "at", 0, uni(t, 0, len(c.H.Ops), "at")))
		}
	}
	return c
}

// IntoCase is a decompressor whose caller looks after its slices.
type IntoCase struct {
	M     Made
	ML    int
	Ch    Chunking
	Cap   int
	Keep  bool // slices are kept as they are; otherwise they are overwritten at once
	Early int  // Close after that many bytes
	Dict  int  // the dictionary is changed: 1 as soon as the option has been made, 2 after construction
}

func checkInto(c *IntoCase, cov *Cov) error {
	in, content, dict, f, err := c.M.make()
	if err != nil {
		return err
	}
	opts := ROpts{F: int(f), ML: c.ML}.options()
	d := append([]byte(nil), WOpts{Dict: dict}.dict()...)
	if len(d) > 0 {
		opts = append(opts, flate.WithDictionary(d))
	}
	spoil := func(when int) {
		for i := range d {
			if c.Dict == when {
				d[i] ^= 0x33
			}
		}
	}
	spoil(1)
	fr := flate.NewReader(c.Ch.source(in), opts...)
	spoil(2)
	defer fr.Close()
	type kept struct{ p, was []byte }
	var all []kept
	got := 0
	reads := c.Ch.Reads
	if len(reads) == 0 {
		reads = []int{4096}
	}
	var slab []byte
	check := func(when string) error {
		for i, k := range all {
			if !bytes.Equal(k.p, k.was) {
				return fmt.Errorf("%s, the slice given to Read number %d has changed: %w", when, i, diffBytes("slice", k.p, k.was))
			}
		}
		return nil
	}
	mem := 0
	for i := 0; got < c.Early; i++ {
		n := max(1, reads[i%len(reads)])
		if i > 200 {
			n = max(n, 1000)
		}
		if c.Keep || len(slab) < n+c.Cap+8 {
			slab = make([]byte, n+c.Cap+8)
		}
		for j := range slab {
			slab[j] = canary(j)
		}
		k, err := fr.Read(slab[8 : 8+n])
		if k > n || k < 0 {
			return fmt.Errorf("Read of %d bytes returned %d", n, k)
		}
		for j := range slab {
			if (j < 8 || j >= 8+n) && slab[j] != canary(j) {
				return fmt.Errorf("Read of %d bytes stored something at offset %d of it", n, j-8)
			}
		}
		if got+k > len(content) {
			return fmt.Errorf("more than %d bytes of content", len(content))
		}
		if err := diffBytes("content", slab[8:8+k], content[got:got+k]); err != nil {
			return fmt.Errorf("after %d bytes: %w", got, err)
		}
		got += k
		if c.Keep && mem < 8<<20 {
			mem += 2 * len(slab)
			all = append(all, kept{slab, append([]byte(nil), slab...)})
		} else if !c.Keep {
			for j := range slab {
				slab[j] ^= 0xff
			}
		}
		if err != nil {
			if err != io.EOF || got != len(content) {
				return fmt.Errorf("after %d of %d bytes: %w", got, len(content), err)
			}
			break
		}
	}
	if err := check("at the end"); err != nil {
		return err
	}
	fr.Close()
	if err := check("after Close"); err != nil {
		return err
	}
	cov.ClassIf(c.Keep, "kept slices")
	cov.ClassIf(!c.Keep, "slices used again")
	cov.ClassIf(got < len(content), "closed early")
	cov.ClassIf(len(d) > 0 && c.Dict > 0, "dictionary changed")
	cov.Nontrivial(got > 0)
	return nil
}

func genInto(t *rapid.T) *IntoCase {
	return &IntoCase{M: genMade(t, anyFormat(t), 20000, 3), ML: genML(t), Ch: genChunking(t), Cap: pick(t, "cap", 0, 1, 8, 300, 70000), Keep: pct(t, 60, "keep"), Dict: uni(t, 0, 2, "dict"), Early: pick(t, "early", 1<<30, 1<<30, uni(t, 0, 20000, "e"))}
}

func init() {
	const w = "a write/flush history with headers and dictionaries; the caller's slices (data, dictionary, extra data) are overwritten once a call has returned, looked at by another goroutine during the call, and compared afterwards, up to their capacity; output compared with that of a careful caller; non-trivial: some content"
	const r = "the slices given to Read are compared (up to their capacity, and again at the end and after Close) or overwritten at once; non-trivial: some data was read"
	reg("C31", "write", w, 20000, 300000, genSlices, checkSlices)
	reg("C31", "write-race", w+"; with the race detector", 1500, 20000, genSlices, checkSlices).Mode = "race"
	reg("C31", "read", r, 30000, 500000, genInto, checkInto)
	reg("C31", "read-race", r+"; with the race detector", 2000, 30000, genInto, checkInto).Mode = "race"
}
