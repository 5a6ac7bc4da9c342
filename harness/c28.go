package main

import (
	"bytes"
	stdflate "compress/flate"
	"encoding/binary"
	"fmt"
	"hash/adler32"
	"hash/crc32"
	"io"
	"math"
	"runtime"

	"pgregory.net/rapid"

	flate "github.com/chronos-tachyon/flate"

	"flateverif/ref"
)

// MemCase is a long transfer during which the live heap is measured.
type MemCase struct {
	Read  bool // decompress
	O     WOpts
	RML   int
	RWB   int
	Data  []Seg  // content of one round
	Reps  int    // rounds
	Piece int    // bytes per Write, or per Read
	One   bool   // one Write (with all rounds)
	Flush []int  // flush types after each round, cyclically; -1: none
	Reset int    // Reset after that many rounds; 0: never
	Join  int    // rounds per stream (decompressor)
	Src   int    // bytes per read of the source; 0: as asked
	Turns int    // decompressor, with Reset: uses of it; 0: 6
	Name  string // gzip: file name in the header
	Many  bool   // many small things
}

// Limits in bytes; what is measured is far below.  They grow with the options
// only.
func (c *MemCase) limit() int64 {
	ml := c.O.ML
	if c.Read {
		ml = c.RML
	}
	if ml == 0 {
		ml = 9
	}
	if c.Read {
		return 512<<10 + 8<<uint(ml+7) + 4<<15
	}
	return 1<<20 + 8<<uint(ml+11)
}

const memGrowth = 512 << 10

type memMeter struct {
	base   int64
	limit  int64
	n      int
	peak   int64
	first  int64
	last   int64
	where  string
	growth bool
}

// liveHeap waits for goroutines behind the API to come to rest: what they
// allocate during a collection counts as live.
func liveHeap() int64 {
	runtime.GC() // sync.Pool keeps its victims for one cycle
	least, prev := int64(math.MaxInt64), int64(-1)
	for i := 0; i < 8; i++ {
		runtime.GC()
		var m runtime.MemStats
		runtime.ReadMemStats(&m)
		x := int64(m.HeapAlloc)
		least = min(least, x)
		if d := x - prev; prev >= 0 && -4096 < d && d < 4096 {
			break
		}
		prev = x
	}
	return least
}

func (m *memMeter) measure(where string) error {
	x := liveHeap() - m.base
	m.n++
	if x > m.peak {
		m.peak = x
	}
	if x > m.limit {
		return fmt.Errorf("%s, %d bytes are live, more than %d", where, x, m.limit)
	}
	return nil
}

// memSink counts, and measures now and then, also in the middle of a Write.
type memSink struct {
	m     *memMeter
	calls int
	n     int
	err   error
}

func (s *memSink) Write(p []byte) (int, error) {
	s.n += len(p)
	s.calls++
	if s.calls >= 64 && s.calls&(s.calls-1) == 0 && s.err == nil {
		s.err = s.m.measure(fmt.Sprintf("at write %d of the destination, after %d bytes", s.calls, s.n))
	}
	return len(p), nil
}

func checkMemory(c *MemCase, cov *Cov) error {
	chunk := c.data()
	if len(chunk) == 0 {
		return nil
	}
	m := &memMeter{limit: c.limit()}
	var err error
	var total int
	if c.Read {
		total, err = c.readAll(chunk, m)
	} else {
		total, err = c.writeAll(chunk, m)
	}
	if err != nil {
		return err
	}
	cov.ClassIf(c.Read, "decompressor")
	cov.ClassIf(!c.Read, "compressor")
	cov.ClassIf(c.Reset > 0, "with resets")
	cov.ClassIf(c.One, "a single Write")
	cov.ClassIf(c.Read && c.Join < c.Reps, "several streams")
	cov.ClassIf(!c.Read && len(c.Flush) > 0, "with flushes")
	for i := int64(1); i <= 3; i++ {
		cov.ClassIf(m.peak > m.limit*i/4, fmt.Sprintf("more than %d/4 of the limit", i))
	}
	cov.ClassIf(total >= 4<<20, "4 MiB or more")
	cov.ClassIf(c.Turns >= 1000, "1000 uses of a decompressor or more")
	if c.Many {
		cov.Nontrivial(max(c.Reps, c.Turns) >= 20000)
	} else {
		cov.Nontrivial(int64(total) > 2*memGrowth)
	}
	return nil
}

func (c *MemCase) data() []byte { return expandWith(c.Data, c.O.dict()) }

// phases calls f at the points where the heap is compared: after a fifth and
// at the end.
func (m *memMeter) compare(i, n int) error {
	switch i {
	case n / 5:
		m.first = liveHeap()
	case n - 1:
		m.last = liveHeap()
		if m.first != 0 && m.last-m.first > memGrowth {
			return fmt.Errorf("the live heap grew by %d bytes between rounds %d and %d of %d", m.last-m.first, n/5, i, n)
		}
	}
	return nil
}

func (c *MemCase) writeAll(chunk []byte, m *memMeter) (int, error) {
	all := chunk
	if c.One {
		all = bytes.Repeat(chunk, c.Reps)
	}
	opts := c.O.options()
	m.base = liveHeap()
	sink := &memSink{m: m}
	fw := flate.NewWriter(sink, opts...)
	rounds := c.Reps
	if c.One {
		rounds = 1
	}
	piece := max(1, c.Piece)
	if c.One {
		piece = len(all)
	}
	for i := 0; i < rounds; i++ {
		for p := all; len(p) > 0; {
			n := min(piece, len(p))
			if _, err := fw.Write(p[:n]); err != nil {
				return 0, fmt.Errorf("Write: %w", err)
			}
			p = p[n:]
		}
		if len(c.Flush) > 0 {
			if t := c.Flush[i%len(c.Flush)]; t >= 0 {
				if err := fw.Flush(flushTypes[t]); err != nil {
					return 0, fmt.Errorf("Flush: %w", err)
				}
			}
		}
		if c.Reset > 0 && (i+1)%c.Reset == 0 {
			if err := fw.Close(); err != nil {
				return 0, fmt.Errorf("Close: %w", err)
			}
			fw.Reset(sink)
		}
		if sink.err != nil {
			return 0, sink.err
		}
		if err := m.compare(i, rounds); err != nil {
			return 0, err
		}
	}
	if err := fw.Close(); err != nil {
		return 0, fmt.Errorf("Close: %w", err)
	}
	if err := m.measure("after Close"); err != nil {
		return 0, err
	}
	runtime.KeepAlive(fw)
	runtime.KeepAlive(all)
	return c.Reps * len(chunk), nil
}

// memSource produces streams of c.Join rounds each, without holding them.
type memSource struct {
	head, body, tail []byte
	join, left       int
	cur              []byte
	state            int
	max              int
}

func (s *memSource) Read(p []byte) (int, error) {
	for len(s.cur) == 0 {
		switch {
		case s.left == 0:
			return 0, io.EOF
		case s.state == 0:
			s.cur = s.head
		case s.state <= s.join:
			s.cur = s.body
		default:
			s.cur = s.tail
			s.left--
			s.state = -1
		}
		s.state++
	}
	if s.max > 0 && len(p) > s.max {
		p = p[:s.max]
	}
	n := copy(p, s.cur)
	s.cur = s.cur[n:]
	return n, nil
}

func (c *MemCase) source(chunk []byte) (*memSource, int) {
	// One round: blocks which end on a byte boundary and refer to nothing
	// before them.
	var b bytes.Buffer
	w, err := stdflate.NewWriter(&b, pickLevel(c.O.CL))
	must(err == nil, "NewWriter")
	w.Write(chunk)
	w.Flush()
	if c.Many && len(chunk) < 10 && c.O.St == 1 {
		// fixed block which ends on a byte boundary, by an empty stored one
		b.Reset()
		b.Write([]byte{2, 0, 0, 0, 0xff, 0xff})
		b.Write([]byte{0, byte(len(chunk)), 0, ^byte(len(chunk)), 0xff})
		b.Write(chunk)
	}
	join := max(1, min(c.Join, c.Reps))
	s := &memSource{body: b.Bytes(), join: join, max: c.Src}
	a, k := adler32.New(), crc32.NewIEEE()
	for i := 0; i < join; i++ {
		a.Write(chunk)
		k.Write(chunk)
	}
	fin := []byte{3, 0}
	switch c.O.format() {
	case ref.Raw:
		s.tail = fin
	case ref.Zlib:
		s.head = []byte{0x78, 0x9c}
		s.tail = binary.BigEndian.AppendUint32(fin, a.Sum32())
	case ref.Gzip:
		s.head = []byte{0x1f, 0x8b, 8, 0, 0, 0, 0, 0, 0, 255}
		if c.Name != "" {
			s.head[3] = 8
			s.head = append(append(s.head, c.Name...), 0)
		}
		s.tail = binary.LittleEndian.AppendUint32(fin, k.Sum32())
		s.tail = binary.LittleEndian.AppendUint32(s.tail, uint32(join*len(chunk)))
	}
	n := max(1, c.Reps/join)
	s.left = n
	return s, n * join * len(chunk)
}

func pickLevel(l int) int {
	if l < 0 || l > 9 {
		return 6
	}
	return l
}

func (c *MemCase) readAll(chunk []byte, m *memMeter) (int, error) {
	ro := ROpts{F: c.O.F, ML: c.RML, WB: c.RWB}
	if c.O.F == 0 {
		ro.F = int(ref.Zlib)
	}
	src, size := c.source(chunk)
	copied := *src
	src0 := &copied
	buf := make([]byte, max(1, c.Piece))
	opts := ro.options()
	m.base = liveHeap()
	fr := flate.NewReader(src, opts...)
	defer fr.Close()
	before := runtime.NumGoroutine()
	rounds := 1
	if c.Reset > 0 {
		rounds = 6
		if c.Turns > 0 {
			rounds = c.Turns
		}
	}
	got, mark := 0, 0
	const marks = 10
	for i := 0; i < rounds; i++ {
		n := 0
		stop := size
		if c.Reset > 0 && i%2 == 0 {
			stop = size / 2 // reset in the middle
		}
		for n < stop {
			k, err := fr.Read(buf)
			n += k
			for mark < (got+n)*marks/(size*rounds) && mark < marks {
				if err := m.compare(mark, marks); err != nil {
					return 0, err
				}
				mark++
				if mark%4 == 0 {
					if err := m.measure(fmt.Sprintf("after %d bytes", got+n)); err != nil {
						return 0, err
					}
				}
			}
			if err != nil {
				return 0, fmt.Errorf("after %d of %d bytes: %w", n, size, err)
			}
		}
		got += n
		if stop == size {
			if k, err := fr.Read(buf); k != 0 || err != io.EOF {
				return 0, fmt.Errorf("after the end: %d, %v", k, err)
			}
		}
		if c.Reset > 0 {
			again := *src0
			src = &again
			fr.Reset(src)
		}
	}
	if g := runtime.NumGoroutine(); g > before+1 {
		return 0, fmt.Errorf("%d goroutines, %d before", g, before)
	}
	if err := m.measure("at the end"); err != nil {
		return 0, err
	}
	runtime.KeepAlive(buf)
	return got, nil
}

func genMem(t *rapid.T) *MemCase {
	c := &MemCase{Read: pct(t, 45, "read"), O: genWOpts(t)}
	for len(c.Data) == 0 {
		c.Data = []Seg{genSeg(t, 200000)}
		c.Data[0].N = max(c.Data[0].N, 1)
	}
	if pct(t, 60, "big") {
		c.Data[0].N = uni(t, 20000, 200000, "bign")
	}
	if pct(t, 30, "more") {
		c.Data = append(c.Data, genSeg(t, 20000))
	}
	n := totalN(c.Data)
	c.Reps = min(max(3<<20/n, 10), 1500)
	if n*c.Reps > 3<<20 {
		c.Reps = max(10, 3<<20/n)
	}
	c.Piece = pick(t, "piece", 1000, 4096, 32768, 65536, uni(t, 300, 200000, "pn"))
	if c.Read {
		c.RML = genML(t)
		c.O.Dict = nil
		c.Reps = min(c.Reps*3, 4000)
		c.Join = pick(t, "join", 1<<20, 1<<20, 1, 2, 10, 50)
		c.Src = pick(t, "src", 0, 0, 1000, 100)
		if pct(t, 25, "reset") {
			c.Reset = 1
			c.Reps = max(1, c.Reps/4)
		}
		return c
	}
	switch uni(t, 0, 4, "mode") {
	case 0:
		c.One = true
	case 1, 2:
		k := uni(t, 1, 3, "nfl")
		for i := 0; i < k; i++ {
			c.Flush = append(c.Flush, uni(t, -1, 4, "fl"))
		}
	case 3:
		c.Reset = uni(t, 1, 4, "every")
	}
	return c
}

// genManySmall is about what is kept per stream, block, flush, write or use.
func genManySmall(t *rapid.T) *MemCase {
	c := &MemCase{Read: pct(t, 50, "read"), O: genWOpts(t), Many: true}
	c.Data = []Seg{genSeg(t, 40)}
	c.Data[0].N = uni(t, 1, 40, "n")
	c.Piece = pick(t, "piece", 1000, 4096, uni(t, 1, 60, "pn"))
	if c.Read {
		c.RML = genML(t)
		c.O.Dict = nil
		c.Reps = uni(t, 80000, 120000, "reps")
		c.Src = pick(t, "src", 0, 0, 1000, 100)
		c.Name = pick(t, "name", "", "x", "a file name")
		c.Join = pick(t, "join", 1<<20, 1, 1, 2, 10, 1000)
		if pct(t, 25, "turns") {
			c.Turns = uni(t, 10000, 20000, "nturns") * 2
			c.Reset = 1
			c.Join = pick(t, "join1", 1, 1, 3)
			c.Reps = uni(t, 1, 3, "reps1")
		}
		return c
	}
	c.Reps = uni(t, 60000, 90000, "reps")
	switch uni(t, 0, 3, "mode") {
	case 0, 1:
		c.Flush = []int{uni(t, 0, 4, "fl")}
		if pct(t, 50, "fl2") {
			c.Flush = append(c.Flush, uni(t, -1, 4, "fl"))
		}
	case 2:
		c.Reset = uni(t, 1, 4, "every")
		c.Reps = uni(t, 10000, 20000, "reps2") * c.Reset
	}
	return c
}

func init() {
	reg("C28", "many-small", "a compressor or a decompressor handles 20 000 to 120 000 tiny streams, blocks, flushes, writes or uses after Reset; the live heap after a fifth of them is compared with that at the end; non-trivial: at least 20 000", 120, 3000, genManySmall, checkMemory)
	reg("C28", "memory", "a compressor or a decompressor is made to process 3 to 10 MiB in one or many streams, with flushes or resets, from a source and to a destination which hold nothing; the live heap is measured on the way, also in the middle of a Write; non-trivial: at least 1 MiB was processed", 320, 6000, genMem, checkMemory)
}
