package main

import (
	"bytes"
	"fmt"
	"math"
	"sort"

	"pgregory.net/rapid"

	flate "github.com/chronos-tachyon/flate"

	"flateverif/ref"
)

// FindCase: content in which the last L bytes are a copy of what stands Dist
// bytes before them, in the stream or in the dictionary.
type FindCase struct {
	O    WOpts
	Pre  int // bytes before the first of the two
	L    int // length of the copy
	Dist int // distance from one to the other
	Dict int // -1: no dictionary; otherwise the first one starts so many bytes before the end of a dictionary
	Rest int // bytes of the dictionary before it
	A    int // size of the alphabet
	S    uint64
	W    []int // sizes of the writes, cyclically
	Fl   []Op  // flushes: T is the type, N the content offset
	Str  int   // for a dictionary: streams finished before
}

func (c *FindCase) build() (dict, with, without []byte) {
	r := ref.Rng(c.S)
	rnd := func(n int) []byte {
		b := make([]byte, max(0, n))
		for i := range b {
			b[i] = byte(r.N(c.A))
		}
		return b
	}
	x, y := rnd(c.L), rnd(c.L)
	if c.Dict >= 0 {
		dict = append(rnd(c.Rest), x...)
		dict = append(dict, rnd(c.Dict-c.L)...)
		with = rnd(c.Dist - c.Dict)
	} else if c.O.St == 2 {
		x = bytes.Repeat([]byte{byte(c.S)}, c.L)
		with = rnd(c.Pre)
	} else {
		with = append(rnd(c.Pre), x...)
		with = append(with, rnd(c.Dist-c.L)...)
	}
	without = append(append([]byte{}, with...), y...)
	with = append(with, x...)
	return
}

func (c *FindCase) ops(n int) []Op {
	var ops []Op
	at := 0
	write := func(to int) {
		for i := 0; at < to; i++ {
			k := to - at
			if len(c.W) > 0 {
				k = min(k, max(1, c.W[i%len(c.W)]))
			}
			ops = append(ops, Op{Op: "w", N: k})
			at += k
		}
	}
	for i := 0; i < c.Str; i++ {
		ops = append(ops, Op{Op: "f", T: fFinish})
	}
	for _, f := range c.Fl {
		if f.N >= at && f.N < n {
			write(f.N)
			ops = append(ops, Op{Op: "f", T: f.T})
		}
	}
	write(n)
	return ops
}

func checkFound(c *FindCase, cov *Cov) error {
	dict, with, without := c.build()
	size := func(data []byte) (int, error) {
		opts := c.O.options()
		if dict != nil {
			opts = append(opts, flate.WithDictionary(dict))
		}
		d := newDst()
		run := runOps(flate.NewWriter(d.writer(0), opts...), d, data, c.ops(len(data)), true, true)
		if err := run.firstErr(); err != nil {
			return 0, err
		}
		r := ref.Decode(d.Buf, ref.Options{Format: c.O.format(), Dict: dict, HasDict: dict != nil})
		if r.Kind != ref.OK || !bytes.Equal(r.Out, data) {
			return 0, fmt.Errorf("the output does not decode to the content: %v", r)
		}
		return len(d.Buf), nil
	}
	a, err := size(with)
	if err != nil {
		return err
	}
	b, err := size(without)
	if err != nil {
		return err
	}
	if b-a < c.L/2 {
		if c.O.St == 2 {
			return fmt.Errorf("a run of %d bytes saves only %d bytes (%d instead of %d)", c.L, b-a, a, b)
		}
		return fmt.Errorf("a copy of %d bytes at a distance of %d saves only %d bytes (%d instead of %d)", c.L, c.Dist, b-a, a, b)
	}
	if c.O.St == 2 {
		n, err := size(with[:len(with)-c.L])
		if err != nil {
			return err
		}
		if a-n > c.L/12+40 {
			return fmt.Errorf("a run of %d bytes takes %d bytes", c.L, a-n)
		}
		cov.Class("run, run-length strategy")
	}
	cov.Class(fmt.Sprintf("saved %d0%%", 10*(b-a)/c.L))
	cov.ClassIf(dict != nil, "in the dictionary")
	cov.ClassIf(c.Dist > 1<<uint(c.O.wbits()-1), "in the farther half of the window")
	cov.ClassIf(c.Dist == 1<<uint(c.O.wbits()), "at the edge of the window")
	cov.ClassIf(len(c.Fl) > 0, "with flushes")
	cov.ClassIf(len(with) > 3<<uint(c.O.wbits()), "long after the start")
	cov.ClassIf(c.Str > 0, "in a later stream")
	cov.Nontrivial(true)
	return nil
}

func genFind(t *rapid.T) *FindCase {
	c := &FindCase{O: genWOpts(t), Dict: -1, S: rapid.Uint64().Draw(t, "s"), A: pick(t, "a", 64, 64, 96, 128)}
	c.O.Dict = nil
	c.O.St = pick(t, "st", 0, 0, 0, 0, 2, 3)
	if c.O.CL == 0 {
		c.O.CL = uni(t, 1, 9, "cl")
	}
	// enough memory for the window: four entries of the hash table per byte
	ml := c.O.ML
	if ml == 0 {
		ml = 8
	}
	if c.O.wbits() > ml+9 {
		c.O.WB = uni(t, 8, min(15, ml+9), "wb")
	}
	w := 1 << uint(c.O.wbits())
	c.L = uni(t, min(300, w/2), min(w, 6000), "l")
	switch uni(t, 0, 3, "dclass") {
	case 0:
		c.Dist = w
	case 1:
		c.Dist = w - uni(t, 0, min(300, w-c.L), "d")
	default:
		c.Dist = uni(t, c.L, w, "d")
	}
	if c.O.St == 2 {
		c.Dist = 1
	}
	if c.O.St != 2 && c.O.format() != ref.Gzip && pct(t, 30, "dict") {
		c.Dict = uni(t, c.L, c.Dist, "dd")
		c.Rest = pick(t, "rest", 0, uni(t, 0, 2000, "r"), uni(t, 0, 70000, "r"))
		c.Str = pick(t, "str", 0, 0, 1, 3)
	} else {
		c.Pre = pick(t, "pre", 0, uni(t, 0, 3000, "p"), uni(t, 0, 100000, "p"), uni(t, 0, 200000, "p"))
	}
	for i := uni(t, 0, 2, "nw"); i > 0; i-- {
		c.W = append(c.W, pick(t, "w", 1<<uni(t, 0, 16, "wk"), uni(t, 1, 5000, "wn"), uni(t, 1, 100, "wn")))
	}
	at := 0
	for i := uni(t, 0, 4, "nf"); i > 0 && c.Str == 0; i-- {
		f := Op{Op: "f", T: uni(t, 0, 2, "ft")}
		if c.Dict < 0 && at < c.Pre && pct(t, 30, "strong") {
			f.T = uni(t, 3, 4, "ft") // forgets what came before
			f.N = uni(t, at, c.Pre, "fn")
		} else {
			f.N = at + uni(t, 200, 1+200+c.Pre+c.Dist+c.L, "fn")
		}
		at = f.N
		c.Fl = append(c.Fl, f)
	}
	return c
}

// EntropyCase: independent symbols of uneven frequencies.
type EntropyCase struct {
	O WOpts
	N int
	K int // symbols
	Q int // per mille: each symbol is so much as frequent as the one before
	S uint64
	W []int
}

func checkEntropy(c *EntropyCase, cov *Cov) error {
	r := ref.Rng(c.S)
	var syms [256]byte
	for i := range syms {
		syms[i] = byte(i)
	}
	for i := 255; i > 0; i-- {
		j := r.N(i + 1)
		syms[i], syms[j] = syms[j], syms[i]
	}
	cum := make([]float64, c.K)
	sum, p := 0.0, 1.0
	for i := range cum {
		sum += p
		cum[i] = sum
		p *= float64(c.Q) / 1000
	}
	data := make([]byte, c.N)
	var count [256]int
	for i := range data {
		x := float64(r.N(1<<30)) / (1 << 30) * sum
		k := sort.SearchFloat64s(cum, x)
		data[i] = syms[min(k, c.K-1)]
		count[data[i]]++
	}
	h := 0.0
	for _, n := range count {
		if n > 0 {
			h += float64(n) * math.Log2(float64(c.N)/float64(n))
		}
	}
	var ops []Op
	for i, at := 0, 0; len(c.W) > 0 && at < c.N; i++ {
		ops = append(ops, Op{Op: "w", N: c.W[i%len(c.W)]})
		at += c.W[i%len(c.W)]
	}
	d, _, err := compress(c.O, data, ops)
	if err != nil {
		return err
	}
	if _, err := strict(c.O, d.Buf, data); err != nil {
		return err
	}
	perSym := float64(len(d.Buf)-18) * 8 / float64(c.N)
	if perSym > h/float64(c.N)+1 {
		return fmt.Errorf("%d independent bytes with an entropy of %.2f bits each became %d bytes, %.2f bits each", c.N, h/float64(c.N), len(d.Buf), perSym)
	}
	cov.Class(fmt.Sprintf("entropy of %.0f bits", h/float64(c.N)))
	cov.ClassIf(perSym > h/float64(c.N)+0.4, "0.4 bits or more above the entropy")
	cov.Nontrivial(true)
	return nil
}

// checkEffort: a higher level does not give up what a lower one saves.
func checkEffort(c *HistCase, cov *Cov) error {
	data := c.data()
	least, at := 0, 0
	for cl := 1; cl <= 9; cl++ {
		o := c.O
		o.CL = cl
		d, run, err := compress(o, data, c.Ops)
		if err == nil {
			err = run.firstErr()
		}
		if err != nil {
			return err
		}
		n := len(d.Buf)
		if cl > 1 && n > least+least/50+64 {
			return fmt.Errorf("%d bytes take %d bytes at level %d, and %d at level %d", len(data), least, at, n, cl)
		}
		if cl == 1 || n < least {
			least, at = n, cl
		}
	}
	cov.ClassIf(least < len(data)/2, "shrinks to less than half")
	cov.Nontrivial(len(data) > 1000)
	return nil
}

func init() {
	reg("C33", "effort", "the same content and operations at all levels above 0; none may take 2 % and 64 bytes more than a lower one; non-trivial: more than 1000 bytes", 500, 10000, func(t *rapid.T) *HistCase { return genHist(t, 60000) }, checkEffort)
	reg("C33", "entropy", "16 KiB or more of independent bytes with frequencies from flat to steep, Huffman-only strategy, memory level 5 and up; the output may take one bit per byte more than the entropy; non-trivial: all", 1500, 20000, func(t *rapid.T) *EntropyCase {
		c := &EntropyCase{O: genWOpts(t), S: rapid.Uint64().Draw(t, "s")}
		c.O.Dict = nil
		c.O.St = 1
		c.O.ML = uni(t, 5, 9, "ml")
		if c.O.CL == 0 {
			c.O.CL = uni(t, 1, 9, "cl")
		}
		c.N = uni(t, 16384, 80000, "n")
		c.K = uni(t, 2, 256, "k")
		c.Q = uni(t, 500, 1000, "q")
		for i := uni(t, 0, 2, "nw"); i > 0; i-- {
			c.W = append(c.W, pick(t, "w", 1<<uni(t, 4, 16, "wk"), uni(t, 10, 5000, "wn")))
		}
		return c
	}, checkEntropy)

	reg("C33", "copy", "content that ends with a copy of what stands at a generated distance, up to the whole window, before it, in the stream or in the dictionary (for the run-length strategy: with a run); the same content with fresh bytes in place of the copy must take at least half the length of the copy more; random bytes of 6 to 7 bits, writes of any size, flushes that keep the history; non-trivial: all", 3000, 50000, genFind, checkFound)
}
