package main

import (
	"bytes"
	"fmt"
	"io"
	"syscall"
	"time"

	"pgregory.net/rapid"

	flate "github.com/chronos-tachyon/flate"

	"flateverif/ref"
)

// WorkCase is something done to a unit of content again and again; the CPU time
// is compared with that for sixteen times as many.
type WorkCase struct {
	Read  bool
	O     WOpts
	RML   int
	Unit  []Seg
	Piece int   // bytes per Write or Read
	One   bool  // all in one Write
	Flush []int // after each unit, cyclically; -1: none
	Reset int   // Close and Reset after that many units; 0: never
	Join  int   // units per stream (decompressor)
	Src   int   // bytes per read of the source; 0: as asked
	Name  string
	Store bool // decompressor: tiny stored blocks
	Long  bool // decompressor: the units are the file name in the header
	Tr    bool
}

const (
	workFactor = 16
	workSlack  = 3                     // linear code is near 1, quadratic code at 16
	workBase   = 25 * time.Millisecond // of CPU time for the smaller amount
	workMax    = 4 << 20               // bytes for the smaller amount
)

func cpuTime() time.Duration {
	var r syscall.Rusage
	must(syscall.Getrusage(syscall.RUSAGE_SELF, &r) == nil, "getrusage")
	return time.Duration(r.Utime.Nano() + r.Stime.Nano())
}

// run handles n units and returns the CPU time it took.
func (c *WorkCase) run(unit []byte, n int) (time.Duration, error) {
	heartbeat()
	m := &MemCase{Read: c.Read, O: c.O, RML: c.RML, Reps: n, Join: c.Join, Src: c.Src, Name: c.Name, Many: c.Store}
	if c.Store {
		m.O.St = 1
	}
	if c.Long {
		name := bytes.ReplaceAll(unit, []byte{0}, []byte{'0'})
		m.Name, m.Reps, m.Join = string(bytes.Repeat(name, n)), 1, 1
		m.O.F = int(ref.Gzip)
	}
	events := 0
	var trs []flate.Tracer
	if c.Tr {
		trs = append(trs, flate.TracerFunc(func(flate.Event) { events++ }))
	}
	if c.Read {
		m.O.Dict = nil
		src, size := m.source(unit)
		ro := ROpts{F: int(m.O.format()), ML: c.RML}
		fr := flate.NewReader(src, ro.options(trs...)...)
		defer fr.Close()
		buf := make([]byte, max(1, c.Piece))
		t0 := cpuTime()
		got := 0
		for {
			k, err := fr.Read(buf)
			got += k
			if err == io.EOF && got == size {
				return cpuTime() - t0, nil
			}
			if err != nil || got > size {
				return 0, fmt.Errorf("after %d of %d bytes: %w", got, size, err)
			}
		}
	}
	all := unit
	if c.One {
		all = bytes.Repeat(unit, n)
	}
	opts := c.O.options(trs...)
	t0 := cpuTime()
	fw := flate.NewWriter(io.Discard, opts...)
	put := func(p []byte) error {
		k := len(p)
		if !c.One {
			k = max(1, c.Piece)
		}
		for len(p) > 0 {
			k = min(k, len(p))
			if _, err := fw.Write(p[:k]); err != nil {
				return fmt.Errorf("Write: %w", err)
			}
			p = p[k:]
		}
		return nil
	}
	if c.One {
		if err := put(all); err != nil {
			return 0, err
		}
		n = 0
	}
	for i := 0; i < n; i++ {
		if err := put(unit); err != nil {
			return 0, err
		}
		if len(c.Flush) > 0 {
			if t := c.Flush[i%len(c.Flush)]; t >= 0 {
				if err := fw.Flush(flushTypes[t]); err != nil {
					return 0, fmt.Errorf("Flush: %w", err)
				}
			}
		}
		if c.Reset > 0 && (i+1)%c.Reset == 0 {
			if err := fw.Close(); err != nil {
				return 0, fmt.Errorf("Close: %w", err)
			}
			fw.Reset(io.Discard)
		}
	}
	if err := fw.Close(); err != nil {
		return 0, fmt.Errorf("Close: %w", err)
	}
	return cpuTime() - t0, nil
}

func checkWork(c *WorkCase, cov *Cov) error {
	unit := expandWith(c.Unit, c.O.dict())
	if len(unit) == 0 {
		return nil
	}
	// eight at least: the first unit may differ from the others
	n := max(8, 16384/len(unit))
	var small time.Duration
	for {
		t, err := c.run(unit, n)
		if err != nil {
			return err
		}
		small = t
		if t >= workBase || 2*n*len(unit) > workMax {
			break
		}
		n *= 2
	}
	if small < workBase/5 {
		cov.Class("too fast to tell")
		return nil
	}
	big, err := c.run(unit, n*workFactor)
	if err != nil {
		return err
	}
	limit := func() time.Duration { return small * workFactor * workSlack }
	for i := 0; i < 3 && big > limit(); i++ {
		a, err := c.run(unit, n)
		if err != nil {
			return err
		}
		b, err := c.run(unit, n*workFactor)
		if err != nil {
			return err
		}
		small, big = max(small, a), min(big, b)
	}
	if big > limit() {
		return fmt.Errorf("%d units of %d bytes take at least %v of CPU time, %d units at most %v: %d times as much for %d times as many", n*workFactor, len(unit), big, n, small, big/small, workFactor)
	}
	cov.ClassIf(c.Read, "decompressor")
	cov.ClassIf(!c.Read, "compressor")
	cov.ClassIf(c.Read && c.Long, "a long file name")
	cov.ClassIf(big > limit()/2, "more than 1/2 of the limit")
	cov.ClassIf(c.One, "a single Write")
	cov.ClassIf(n*workFactor >= 100000, "100000 units or more")
	cov.ClassIf(n*workFactor*len(unit) >= 16<<20, "16 MiB or more")
	cov.Nontrivial(small >= workBase)
	return nil
}

func genWork(t *rapid.T) *WorkCase {
	c := &WorkCase{Read: pct(t, 45, "read"), O: genWOpts(t), Tr: pct(t, 25, "tr")}
	lim := pick(t, "unit", 40, 1000, 20000, 100000)
	for i := uni(t, 1, 2, "segs"); i > 0; i-- {
		s := genSeg(t, lim)
		s.N = max(1, s.N)
		c.Unit = append(c.Unit, s)
	}
	c.Piece = pick(t, "piece", 1000, 4096, 32768, 65536, uni(t, 1, 100, "pn"), uni(t, 1, 200000, "pn"))
	if c.Read {
		c.RML = genML(t)
		c.O.Dict = nil
		c.Join = pick(t, "join", 1<<30, 1<<30, 1, 2, 10, 1000)
		c.Src = pick(t, "src", 0, 0, 0, 1000, 100, 10)
		if c.O.format() == ref.Gzip {
			c.Name = pick(t, "name", "", "a file name")
		}
		c.Store = pct(t, 15, "store")
		c.Long = !c.Store && pct(t, 10, "long")
		return c
	}
	switch uni(t, 0, 4, "mode") {
	case 0:
		c.One = true
	case 1, 2:
		k := uni(t, 1, 3, "nfl")
		for i := 0; i < k; i++ {
			c.Flush = append(c.Flush, uni(t, -1, 4, "fl"))
		}
	case 3:
		c.Reset = uni(t, 1, 4, "every")
	}
	return c
}

func init() {
	reg("C29", "linear", "a unit of content is compressed or decompressed n times (n chosen so that it takes 25 ms of CPU time) and 16n times, in one or many streams, with flushes or resets, from a source and to a destination which do nothing; the CPU time may grow by a factor of 48 at most; the comparison is repeated three times before it counts; non-trivial: the smaller amount takes 25 ms", 240, 4000, genWork, checkWork)
}
