package ref

import (
	"encoding/binary"
	"hash/adler32"
	"hash/crc32"
)

// Rng is splitmix64: the expansion of a generated seed into bulk content.
type Rng uint64

// Next returns 64 bits.
func (r *Rng) Next() uint64 {
	*r += 0x9e3779b97f4a7c15
	z := uint64(*r)
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// N returns 0..n-1.
func (r *Rng) N(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.Next() % uint64(n))
}

// Pct is true p percent of the time.
func (r *Rng) Pct(p int) bool { return r.N(100) < p }

// BitWriter writes DEFLATE bit order.
type BitWriter struct {
	B   []byte
	acc uint64
	n   uint
}

// Put writes n bits, least significant first.
func (w *BitWriter) Put(v uint64, n int) {
	for i := 0; i < n; i++ {
		w.acc |= (v >> uint(i) & 1) << w.n
		w.n++
		if w.n == 8 {
			w.B = append(w.B, byte(w.acc))
			w.acc, w.n = 0, 0
		}
	}
}

// Code writes a Huffman code, most significant bit first.
func (w *BitWriter) Code(c Code) {
	for i := c.N - 1; i >= 0; i-- {
		w.Put(uint64(c.V>>uint(i)&1), 1)
	}
}

// Align pads to a byte boundary with bits of pad.
func (w *BitWriter) Align(pad uint64) {
	for w.n != 0 {
		w.Put(pad&1, 1)
		pad >>= 1
	}
}

// Bits returns the number of bits written.
func (w *BitWriter) Bits() int { return len(w.B)*8 + int(w.n) }

// Code is a canonical code word.
type Code struct {
	V uint32
	N int
}

// Canon assigns canonical codes (RFC 1951 3.2.2); oversubscribed sizes give
// meaningless but bounded code words.
func Canon(sizes []byte) []Code {
	var count [16]int
	for _, s := range sizes {
		count[s]++
	}
	count[0] = 0
	var next [17]uint32
	code := uint32(0)
	for l := 1; l <= 15; l++ {
		code = (code + uint32(count[l-1])) << 1
		next[l] = code
	}
	out := make([]Code, len(sizes))
	for i, s := range sizes {
		if s != 0 {
			out[i] = Code{next[s] & (1<<s - 1), int(s)}
			next[s]++
		}
	}
	return out
}

// TreeSizes returns n code sizes of a complete prefix code with sizes <= limit
// (n >= 2 and n <= 1<<limit), in random order.
func TreeSizes(r *Rng, n, limit, skew int) []byte {
	leaves := []byte{1, 1}
	for len(leaves) < n {
		// choose a leaf that can still be split
		i := r.N(len(leaves))
		if skew > 0 && r.Pct(skew) {
			// prefer the deepest splittable leaf: long codes
			best := -1
			for j := 0; j < 8; j++ {
				k := r.N(len(leaves))
				if int(leaves[k]) < limit && (best < 0 || leaves[k] > leaves[best]) {
					best = k
				}
			}
			if last := len(leaves) - 1; r.Pct(60) && int(leaves[last]) < limit {
				best = last
			}
			if best >= 0 {
				i = best
			}
		}
		for int(leaves[i]) >= limit {
			i = (i + 1) % len(leaves)
		}
		leaves[i]++
		leaves = append(leaves, leaves[i])
	}
	for i := len(leaves) - 1; i > 0; i-- {
		j := r.N(i + 1)
		leaves[i], leaves[j] = leaves[j], leaves[i]
	}
	return leaves
}

// BlockSpec describes one block to build.
type BlockSpec struct {
	T    int    // 0 stored, 1 static, 2 dynamic
	N    int    // stored bytes or tokens
	S    uint64 // seed for everything not fixed below
	M    int    // percentage of matches
	DM   int    // distance mode: 0 any, 1 one, 2 short, 3 farthest, 4 around the window limit, 5 farthest of the current output only
	LM   int    // length mode: 0 any, 1 short, 2 long, 3 only 258
	A    int    // literal alphabet size (1..256)
	Skew int    // tree skew (0..100)
	X    int    // extra unused symbols (0..100 percent)
	Slk  int    // slack in HLIT/HDIST/HCLEN: 0 minimal, 1 random, 2 maximal
	RL   int    // run-length style: 0 mixed, 1 none, 2 greedy
	// V plants a violation in this block (0 none); see Violations.
	V int
	P int // position of the violation, as a percentage of the tokens
}

// The violations a block can carry.
const (
	VNone         = iota
	VBlockType    // reserved BTYPE 11
	VStoredLen    // NLEN is not ^LEN
	VOverLL       // oversubscribed literal/length code
	VOverD        // oversubscribed distance code
	VOverCL       // oversubscribed code length code
	VHLIT         // HLIT 287 or 288
	VHDIST        // HDIST 31 or 32
	VRepFirst     // code length 16 first
	VRepPast      // repeat past the end
	VLLSym        // symbol 286/287 (static)
	VDSym         // symbol 30/31 (static)
	VDistHistory  // distance beyond the history
	VDistWindow   // distance beyond the window limit
	VUnassignedD  // unused bit pattern of a one-code distance tree
	VNoD          // match with an empty distance code
	VIncompleteLL // incomplete literal/length code (lenient)
	VIncompleteCL // incomplete code length code (lenient)
	VNoEOB        // no end-of-block code (lenient)
	NumViolations
)

// HdrSpec describes a container header to build.
type HdrSpec struct {
	Flags  int // gzip: FTEXT 1, FHCRC 2, FEXTRA 4, FNAME 8, FCOMMENT 16
	MTIME  uint32
	XFL    int
	OS     int
	Extra  []byte
	Name   []byte
	Comm   []byte
	CINFO  int // zlib
	FLEVEL int
}

// StreamSpec describes a stream to build.
type StreamSpec struct {
	F      Format
	H      HdrSpec
	Blocks []BlockSpec
	Win    int // distances used are at most this (default 32768)
	Pad    uint64
	// V is a container-level violation; see CViolations.
	V int
}

// Container-level violations and check-value alterations.
const (
	CNone   = iota
	CFCHECK // zlib header check bits
	CCM     // compression method not 8
	CDict   // FDICT mismatch: announces another dictionary
	CID     // gzip identification
	CFlags  // gzip reserved flags
	CHCRC   // gzip header CRC
	CSum    // trailer checksum
	CISIZE  // gzip length
	CWindow // CINFO beyond 32K
	NumCViolations
)

// Builder accumulates streams.
type Builder struct {
	In      []byte // bytes of the streams
	Content []byte // content of all streams up to the first violation
	Dict    []byte
	HasDict bool
	hist    []byte
}

// Add builds one stream.
func (b *Builder) Add(s StreamSpec) {
	win := s.Win
	if win == 0 {
		win = 32768
	}
	switch s.F {
	case Zlib:
		b.In = append(b.In, zlibHeader(s, b.Dict, b.HasDict)...)
	case Gzip:
		b.In = append(b.In, gzipHeader(s)...)
	}
	base := len(b.Dict)
	b.hist = append([]byte{}, b.Dict...)
	w := &BitWriter{}
	blocks := s.Blocks
	if len(blocks) == 0 {
		blocks = []BlockSpec{{T: 1}}
	}
	for i, bs := range blocks {
		b.block(w, bs, i == len(blocks)-1, win)
	}
	w.Align(s.Pad)
	b.In = append(b.In, w.B...)
	data := b.hist[base:]
	b.Content = append(b.Content, data...)
	switch s.F {
	case Zlib:
		a := adler32.Checksum(data)
		if s.V == CSum {
			a ^= 1 << (s.Pad >> 8 & 31)
		}
		b.In = binary.BigEndian.AppendUint32(b.In, a)
	case Gzip:
		c, n := crc32.ChecksumIEEE(data), uint32(len(data))
		if s.V == CSum {
			c ^= 1 << (s.Pad >> 8 & 31)
		}
		if s.V == CISIZE {
			n ^= 1 << (s.Pad >> 8 & 31)
		}
		b.In = binary.LittleEndian.AppendUint32(b.In, c)
		b.In = binary.LittleEndian.AppendUint32(b.In, n)
	}
}

func zlibHeader(s StreamSpec, dict []byte, hasDict bool) []byte {
	cm, ci := 8, s.H.CINFO&7
	if s.V == CCM {
		cm = int(s.Pad>>8) & 7
	}
	if s.V == CWindow {
		ci |= 8
	}
	h := []byte{byte(ci<<4 | cm), byte(s.H.FLEVEL&3) << 6}
	fdict := hasDict
	id := adler32.Checksum(dict)
	if s.V == CDict {
		if hasDict && s.Pad>>8&1 != 0 {
			fdict = false
		} else {
			fdict = true
			id ^= 1 << (s.Pad >> 9 & 31)
		}
	}
	if fdict {
		h[1] |= 0x20
	}
	m := (int(h[0])<<8 | int(h[1])) % 31
	h[1] += byte((31 - m) % 31)
	if s.V == CFCHECK {
		h[1] = h[1]&0xe0 | (h[1]+1+byte(s.Pad>>8%30))&0x1f
		if (int(h[0])<<8|int(h[1]))%31 == 0 {
			h[1] ^= 1
		}
	}
	if fdict {
		h = binary.BigEndian.AppendUint32(h, id)
	}
	return h
}

func nz(b []byte) []byte {
	o := append([]byte{}, b...)
	for i := range o {
		if o[i] == 0 {
			o[i] = 1
		}
	}
	return o
}

func gzipHeader(s StreamSpec) []byte {
	f := byte(s.H.Flags & 31)
	if s.V == CFlags {
		f |= 0x20 << (s.Pad >> 8 % 3)
	}
	if s.V == CHCRC {
		f |= 2
	}
	h := []byte{0x1f, 0x8b, 8, f}
	if s.V == CID {
		h[s.Pad>>8&1] ^= 1 << (s.Pad >> 9 & 7)
	}
	if s.V == CCM {
		h[2] ^= 1 << (s.Pad >> 9 & 7)
	}
	h = binary.LittleEndian.AppendUint32(h, s.H.MTIME)
	h = append(h, byte(s.H.XFL), byte(s.H.OS))
	if f&4 != 0 {
		x := s.H.Extra
		if len(x) > 65535 {
			x = x[:65535]
		}
		h = binary.LittleEndian.AppendUint16(h, uint16(len(x)))
		h = append(h, x...)
	}
	if f&8 != 0 {
		h = append(append(h, nz(s.H.Name)...), 0)
	}
	if f&16 != 0 {
		h = append(append(h, nz(s.H.Comm)...), 0)
	}
	if f&2 != 0 {
		c := uint16(crc32.ChecksumIEEE(h))
		if s.V == CHCRC {
			c ^= 1 << (s.Pad >> 8 & 15)
		}
		h = binary.LittleEndian.AppendUint16(h, c)
	}
	return h
}

type tok struct {
	lit       int // 0..255, or -1
	len, dist int
	raw       bool // violating token: dist may be anything in 1..32768
}

func lenSym(n int) (sym, extra, bits int) {
	for i := 28; i >= 0; i-- {
		if n >= LenBase[i] {
			return 257 + i, n - LenBase[i], LenExtra[i]
		}
	}
	panic("length")
}

func distSym(d int) (sym, extra, bits int) {
	for i := 29; i >= 0; i-- {
		if d >= DBase[i] {
			return i, d - DBase[i], DExtra[i]
		}
	}
	panic("distance")
}

func (b *Builder) pickLen(r *Rng, mode int) int {
	switch mode {
	case 1:
		return 3 + r.N(8)
	case 2:
		return 100 + r.N(159)
	case 3:
		return 258
	}
	if r.Pct(30) {
		i := r.N(29)
		n := LenBase[i] + r.N(1<<LenExtra[i])
		if n > 258 {
			n = 258
		}
		return n
	}
	return 3 + r.N(256)
}

func (b *Builder) pickDist(r *Rng, mode, limit, outLen int) int {
	switch mode {
	case 1:
		return 1
	case 2:
		return 1 + r.N(min(limit, 20))
	case 3:
		return limit
	case 4:
		return max(1, limit-r.N(4))
	case 5:
		if outLen > 0 && outLen <= limit {
			return max(1, outLen-r.N(2))
		}
	}
	for try := 0; ; try++ {
		i := r.N(30)
		if DBase[i] <= limit {
			d := DBase[i] + r.N(1<<DExtra[i])
			if d > limit {
				d = limit
			}
			return d
		}
	}
}

func (b *Builder) block(w *BitWriter, s BlockSpec, final bool, win int) {
	r := Rng(s.S)
	fb := uint64(0)
	if final {
		fb = 1
	}
	if s.V == VBlockType {
		w.Put(fb, 1)
		w.Put(3, 2)
		// what follows looks like a static block
		s.T, s.V = 1, 0
		b.huffBody(w, s, &r, win)
		return
	}
	w.Put(fb, 1)
	w.Put(uint64(s.T), 2)
	if s.T == 0 {
		w.Align(r.Next())
		n := min(s.N, 65535)
		data := make([]byte, n)
		a := max(1, min(s.A, 256))
		off := r.N(256)
		for i := range data {
			data[i] = byte(off + r.N(a))
		}
		c := uint16(n) ^ 0xffff
		if s.V == VStoredLen {
			c ^= 1 << uint(r.N(16))
		}
		w.Put(uint64(n), 16)
		w.Put(uint64(c), 16)
		w.B = append(w.B, data...)
		b.hist = append(b.hist, data...)
		return
	}
	b.huffBody(w, s, &r, win)
}

// DLimit is the number of history bytes a match may reach.
func (b *Builder) limit(win int) int { return min(len(b.hist), win) }

func (b *Builder) huffBody(w *BitWriter, s BlockSpec, r *Rng, win int) {
	// tokens
	a := max(1, min(s.A, 256))
	off := r.N(256)
	var toks []tok
	n := s.N
	at := -1
	switch s.V {
	case VLLSym, VDSym, VDistHistory, VDistWindow, VUnassignedD, VNoD:
		at = n * min(s.P, 100) / 100
		n++
	}
	base := len(b.hist)
	for i := 0; i < n; i++ {
		if i == at {
			switch s.V {
			case VDistHistory:
				if lim := len(b.hist); lim < 32768 {
					d := lim + 1 + r.N(3)*r.N(min(4, 32768-lim))
					toks = append(toks, tok{lit: -1, len: b.pickLen(r, s.LM), dist: min(d, 32768), raw: true})
					continue
				}
			case VDistWindow:
				if win < 32768 && len(b.hist) > win {
					d := win + 1
					if r.Pct(50) {
						d = win + 1 + r.N(min(32768, len(b.hist))-win)
					}
					toks = append(toks, tok{lit: -1, len: b.pickLen(r, s.LM), dist: min(d, 32768), raw: true})
					continue
				}
			default:
				toks = append(toks, tok{lit: -2})
				continue
			}
		}
		if lim := b.limit(win); lim > 0 && r.Pct(s.M) && len(b.hist) < 4<<20 {
			t := tok{lit: -1, len: b.pickLen(r, s.LM), dist: b.pickDist(r, s.DM, lim, len(b.hist)-len(b.Dict))}
			for j := 0; j < t.len; j++ {
				b.hist = append(b.hist, b.hist[len(b.hist)-t.dist])
			}
			toks = append(toks, t)
			continue
		}
		c := byte(off + r.N(a))
		b.hist = append(b.hist, c)
		toks = append(toks, tok{lit: int(c)})
	}
	_ = base
	var ll, dd []byte
	if s.T == 1 {
		ll, dd = FixedLL(), FixedD()
	} else {
		var ok bool
		ll, dd, ok = b.trees(w, s, r, toks)
		if !ok {
			// the violation is in the tree description; some bits follow
			for i := 0; i < 8; i++ {
				w.Put(r.Next(), 32)
			}
			return
		}
	}
	cl, cd := Canon(ll), Canon(dd)
	for _, t := range toks {
		switch {
		case t.lit >= 0:
			w.Code(cl[t.lit])
		case t.lit == -2:
			switch {
			case s.V == VLLSym && s.T == 1:
				w.Code(cl[286+r.N(2)])
			case s.V == VDSym && s.T == 1:
				w.Code(cl[257+r.N(8)])
				w.Code(cd[30+r.N(2)])
			case s.V == VUnassignedD || s.V == VNoD:
				// a short length symbol, then the bit pattern 1
				sym := 257
				for sym < 285 && (sym >= len(cl) || cl[sym].N == 0) {
					sym++
				}
				if sym < len(cl) && cl[sym].N != 0 {
					w.Code(cl[sym])
					w.Put(r.Next(), LenExtra[sym-257])
					w.Put(1, 1)
				}
			}
		default:
			sym, e, n := lenSym(t.len)
			w.Code(cl[sym])
			w.Put(uint64(e), n)
			sym, e, n = distSym(t.dist)
			w.Code(cd[sym])
			w.Put(uint64(e), n)
		}
	}
	if len(cl) > 256 && cl[256].N != 0 {
		w.Code(cl[256])
	}
}

// trees chooses and writes code sizes; ok is false when the description itself
// is in violation, so that no symbols should follow.
func (b *Builder) trees(w *BitWriter, s BlockSpec, r *Rng, toks []tok) (ll, dd []byte, ok bool) {
	useL, useD := make([]bool, 286), make([]bool, 30)
	useL[256] = s.V != VNoEOB
	for _, t := range toks {
		if t.lit >= 0 {
			useL[t.lit] = true
		} else if t.lit == -1 {
			x, _, _ := lenSym(t.len)
			useL[x] = true
			x, _, _ = distSym(t.dist)
			useD[x] = true
		} else {
			useL[257+r.N(29)] = true
		}
	}
	oneD := s.V == VUnassignedD
	noD := s.V == VNoD
	cntD := count(useD)
	if cntD > 1 && oneD || cntD > 0 && noD {
		// cannot plant: distances are in use
		oneD, noD = false, false
	}
	extra := func(use []bool) {
		for i := range use {
			if !use[i] && r.Pct(s.X) {
				use[i] = true
			}
		}
	}
	extra(useL)
	if s.V == VNoEOB {
		useL[256] = false
	}
	if count(useL) < 2 {
		for count(useL) < 2 {
			useL[r.N(256)] = true
		}
	}
	if !oneD && !noD {
		extra(useD)
	}
	ll = make([]byte, 286)
	assign(ll, useL, TreeSizes(r, count(useL), 15, s.Skew))
	dd = make([]byte, 30)
	switch c := count(useD); {
	case noD, c == 0 && r.Pct(50):
		// no distance code at all
	case c == 0:
		dd[r.N(30)] = 1 // one code, never used
	case c == 1:
		for i := range useD {
			if useD[i] {
				dd[i] = 1
			}
		}
	default:
		assign(dd, useD, TreeSizes(r, c, 15, s.Skew))
	}
	if oneD && count(useD) == 0 {
		dd = make([]byte, 30)
		dd[r.N(30)] = 1
	}
	switch s.V {
	case VOverLL:
		shorten(ll, r)
	case VOverD:
		if nzCount(dd) < 2 {
			dd[0], dd[1], dd[2] = 1, 1, 1
		} else {
			shorten(dd, r)
		}
	case VIncompleteLL:
		lengthen(ll, r)
	}
	hl, hd := 257, 1
	for i := range ll {
		if ll[i] != 0 {
			hl = max(hl, i+1)
		}
	}
	for i := range dd {
		if dd[i] != 0 {
			hd = max(hd, i+1)
		}
	}
	switch s.Slk {
	case 1:
		hl += r.N(286 - hl + 1)
		hd += r.N(30 - hd + 1)
	case 2:
		hl, hd = 286, 30
	}
	if s.V == VHLIT {
		hl = 287 + r.N(2)
		ll = append(ll, 0, 0)
	}
	if s.V == VHDIST {
		hd = 31 + r.N(2)
		dd = append(dd, 0, 0)
	}
	all := append(append([]byte{}, ll[:hl]...), dd[:hd]...)
	type x struct{ sym, extra, bits int }
	var xs []x
	for i := 0; i < len(all); {
		v := all[i]
		run := 1
		for i+run < len(all) && all[i+run] == v {
			run++
		}
		if v == 0 && run >= 3 && s.RL != 1 && (s.RL == 2 || r.Pct(85)) {
			if run >= 11 && (s.RL == 2 || r.Pct(85)) {
				k := min(run, 138)
				if s.RL == 0 && r.Pct(30) {
					k = 11 + r.N(k-10)
				}
				xs = append(xs, x{18, k - 11, 7})
				i += k
				continue
			}
			k := min(run, 10)
			if s.RL == 0 && r.Pct(30) {
				k = 3 + r.N(k-2)
			}
			xs = append(xs, x{17, k - 3, 3})
			i += k
			continue
		}
		if i > 0 && all[i-1] == v && run >= 3 && s.RL != 1 && (s.RL == 2 || r.Pct(85)) {
			k := min(run, 6)
			if s.RL == 0 && r.Pct(30) {
				k = 3 + r.N(k-2)
			}
			xs = append(xs, x{16, k - 3, 2})
			i += k
			continue
		}
		xs = append(xs, x{int(v), 0, 0})
		i++
	}
	if s.V == VRepFirst {
		xs = append([]x{{16, r.N(4), 2}}, xs...)
	}
	if s.V == VRepPast {
		// drop whole items from the end, then repeat past the end
		left := 1 + r.N(2)
		for tot := 0; tot < left && len(xs) > 1; {
			l := xs[len(xs)-1]
			xs = xs[:len(xs)-1]
			switch l.sym {
			case 16, 17:
				tot += l.extra + 3
			case 18:
				tot += l.extra + 11
			default:
				tot++
			}
			left = max(left, tot)
		}
		if left < 6 {
			xs = append(xs, x{16, 3, 2})
		} else if left < 10 {
			xs = append(xs, x{17, 7, 3})
		} else {
			xs = append(xs, x{18, 127, 7})
			if left >= 138 {
				xs = append(xs, x{18, 127, 7})
			}
		}
	}
	useX := make([]bool, 19)
	for _, e := range xs {
		useX[e.sym] = true
	}
	for i := range useX {
		if !useX[i] && r.Pct(s.X/2) {
			useX[i] = true
		}
	}
	for count(useX) < 2 {
		useX[r.N(19)] = true
	}
	sx := make([]byte, 19)
	assign(sx, useX, TreeSizes(r, count(useX), 7, s.Skew))
	switch s.V {
	case VOverCL:
		shorten(sx, r)
	case VIncompleteCL:
		lengthenMax(sx, r, 7)
	}
	hx := 4
	for i, o := range CLOrder {
		if sx[o] != 0 {
			hx = max(hx, i+1)
		}
	}
	switch s.Slk {
	case 1:
		hx += r.N(19 - hx + 1)
	case 2:
		hx = 19
	}
	w.Put(uint64(hl-257), 5)
	w.Put(uint64(hd-1), 5)
	w.Put(uint64(hx-4), 4)
	for i := 0; i < hx; i++ {
		w.Put(uint64(sx[CLOrder[i]]), 3)
	}
	cx := Canon(sx)
	for _, e := range xs {
		w.Code(cx[e.sym])
		w.Put(uint64(e.extra), e.bits)
	}
	switch s.V {
	case VRepFirst, VRepPast, VOverCL, VOverLL, VOverD, VHLIT, VHDIST:
		return ll, dd, false
	}
	return ll, dd, true
}

func count(b []bool) (n int) {
	for _, x := range b {
		if x {
			n++
		}
	}
	return
}

func nzCount(b []byte) (n int) {
	for _, x := range b {
		if x != 0 {
			n++
		}
	}
	return
}

func assign(sizes []byte, use []bool, t []byte) {
	j := 0
	for i := range sizes {
		if use[i] {
			sizes[i] = t[j]
			j++
		}
	}
}

// shorten makes a complete code oversubscribed.
func shorten(sizes []byte, r *Rng) {
	i := r.N(len(sizes))
	for k := 0; k < len(sizes); k++ {
		if s := sizes[i]; s > 1 {
			sizes[i]--
			return
		}
		i = (i + 1) % len(sizes)
	}
	for i := range sizes {
		if sizes[i] == 0 {
			sizes[i] = 1
			return
		}
	}
}

func lengthen(sizes []byte, r *Rng) { lengthenMax(sizes, r, 15) }

// lengthenMax makes a complete code incomplete.
func lengthenMax(sizes []byte, r *Rng, lim byte) {
	i := r.N(len(sizes))
	for k := 0; k < len(sizes); k++ {
		if s := sizes[i]; s > 0 && s < lim {
			sizes[i]++
			return
		}
		i = (i + 1) % len(sizes)
	}
}
