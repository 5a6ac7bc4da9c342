// Package ref is an independent reference for RFC 1950/1951/1952, written from
// the RFCs: a strict decoder that reports structure and the place of the first
// violation, and (build.go) a token-level builder of conforming streams.
package ref

import "fmt"

// Kind is the verdict on an input.
type Kind int

const (
	// OK: well-formed and complete.
	OK Kind = iota
	// Truncated: the input ended before the stream did.
	Truncated
	// Corrupt: the input violates the standard.
	Corrupt
)

func (k Kind) String() string { return [...]string{"ok", "truncated", "corrupt"}[k] }

// Block describes one decoded DEFLATE block.
type Block struct {
	Type               int // 0 stored, 1 static, 2 dynamic
	Final              bool
	StartBit, EndBit   int // bit offsets within the DEFLATE data
	OutStart, OutEnd   int
	HLIT, HDIST, HCLEN int // as counts (257.., 1.., 4..)
	CL                 []byte
	LL, D              []byte
	Literals, Matches  int
	DictMatches        int // matches that reach into the dictionary
	MinDist, MaxDist   int
	MinLen, MaxLen     int
	UsedDCodes         int
	NumLL, NumD        int  // number of nonzero code sizes
	Incomplete         bool // some code is incomplete beyond what the RFC allows
	Trees              bool // the codes are valid
}

// Deflate is the result of decoding one raw DEFLATE stream.
type Deflate struct {
	Out    []byte // data, or the data before the first violation / the cut
	MinOut int    // what a decoder must deliver
	Blocks []Block
	EndBit int // bit position after the last bit examined
	Kind   Kind
	Why    string
	Part   *Block // the block in which decoding stopped, if its header was read

	// Lenient is set when the input uses something on which decoders
	// legitimately differ (incomplete codes, a code without end-of-block,
	// distances beyond a declared but not enforced window).  A decoder may
	// then instead stop with a corrupt-input error with at least AltOut
	// bytes delivered.
	Lenient bool
	AltOut  int
	AltWhy  string
}

// Params are the decoding parameters.
type Params struct {
	Dict     []byte
	Window   int // maximum distance a decoder must support / accept; 0 means 32768
	Declared int // declared window (zlib); distances beyond it are Lenient; 0 means none
	MaxOut   int // stop (Kind Corrupt, Why "limit") beyond that; 0 means none
}

type bits struct {
	b   []byte
	pos int
}

func (r *bits) left() int { return len(r.b)*8 - r.pos }

func (r *bits) bit() (int, bool) {
	if r.pos >= len(r.b)*8 {
		return 0, false
	}
	v := int(r.b[r.pos>>3]>>(uint(r.pos)&7)) & 1
	r.pos++
	return v, true
}

func (r *bits) get(n int) (int, bool) {
	if r.left() < n {
		r.pos = len(r.b) * 8
		return 0, false
	}
	v := 0
	for i := 0; i < n; i++ {
		b, _ := r.bit()
		v |= b << uint(i)
	}
	return v, true
}

// huff is a canonical code in the "count / symbol" form.
type huff struct {
	count [16]int
	sym   []int
	n     int
	left  int // >0 incomplete, <0 oversubscribed
}

func newHuff(sizes []byte) *huff {
	h := &huff{}
	for _, s := range sizes {
		h.count[s]++
	}
	h.n = len(sizes) - h.count[0]
	h.count[0] = 0
	left := 1
	for l := 1; l <= 15; l++ {
		left <<= 1
		left -= h.count[l]
		if left < 0 {
			h.left = left
			return h
		}
	}
	h.left = left
	var offs [16]int
	for l := 1; l < 15; l++ {
		offs[l+1] = offs[l] + h.count[l]
	}
	h.sym = make([]int, h.n)
	for s, l := range sizes {
		if l != 0 {
			h.sym[offs[l]] = s
			offs[l]++
		}
	}
	return h
}

// decode returns the symbol, or -1 for an unassigned code, or -2 at end of input.
func (h *huff) decode(r *bits) int {
	code, first, index := 0, 0, 0
	maxLen := 0
	for l := 15; l >= 1; l-- {
		if h.count[l] != 0 {
			maxLen = l
			break
		}
	}
	for l := 1; l <= maxLen; l++ {
		b, ok := r.bit()
		if !ok {
			return -2
		}
		code |= b
		c := h.count[l]
		if code-c < first {
			return h.sym[index+(code-first)]
		}
		index += c
		first += c
		first <<= 1
		code <<= 1
	}
	return -1
}

// LenBase etc. are the RFC 1951 section 3.2.5 tables.
var (
	LenBase  = [29]int{3, 4, 5, 6, 7, 8, 9, 10, 11, 13, 15, 17, 19, 23, 27, 31, 35, 43, 51, 59, 67, 83, 99, 115, 131, 163, 195, 227, 258}
	LenExtra = [29]int{0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 1, 1, 2, 2, 2, 2, 3, 3, 3, 3, 4, 4, 4, 4, 5, 5, 5, 5, 0}
	DBase    = [30]int{1, 2, 3, 4, 5, 7, 9, 13, 17, 25, 33, 49, 65, 97, 129, 193, 257, 385, 513, 769, 1025, 1537, 2049, 3073, 4097, 6145, 8193, 12289, 16385, 24577}
	DExtra   = [30]int{0, 0, 0, 0, 1, 1, 2, 2, 3, 3, 4, 4, 5, 5, 6, 6, 7, 7, 8, 8, 9, 9, 10, 10, 11, 11, 12, 12, 13, 13}
	CLOrder  = [19]int{16, 17, 18, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1, 15}
)

// FixedLL and FixedD are the fixed code sizes.
func FixedLL() []byte {
	s := make([]byte, 288)
	for i := range s {
		switch {
		case i < 144:
			s[i] = 8
		case i < 256:
			s[i] = 9
		case i < 280:
			s[i] = 7
		default:
			s[i] = 8
		}
	}
	return s
}

// FixedD returns the fixed distance code sizes.
func FixedD() []byte {
	s := make([]byte, 32)
	for i := range s {
		s[i] = 5
	}
	return s
}

// Inflate decodes one DEFLATE stream at the start of in.
func Inflate(in []byte, p Params) *Deflate {
	win := p.Window
	if win == 0 {
		win = 32768
	}
	d := &Deflate{}
	r := &bits{b: in}
	hist := append([]byte(nil), p.Dict...)
	base := len(hist)
	finish := func(k Kind, why string, a ...interface{}) *Deflate {
		d.Kind = k
		d.Why = fmt.Sprintf(why, a...)
		d.Out = hist[base:]
		d.EndBit = r.pos
		if k == OK || d.MinOut < 0 {
			d.MinOut = len(d.Out)
		}
		return d
	}
	lenient := func(why string) {
		if !d.Lenient {
			d.Lenient = true
			d.AltOut = len(hist) - base
			d.AltWhy = why
		}
	}
	d.MinOut = -1
	for {
		d.Part = nil
		b := Block{StartBit: r.pos, OutStart: len(hist) - base, MinDist: 1 << 30, MinLen: 1 << 30}
		v, ok := r.get(3)
		if !ok {
			return finish(Truncated, "block header")
		}
		b.Final = v&1 != 0
		b.Type = v >> 1
		d.Part = &b
		done := func() {
			d.Part = nil
			b.EndBit = r.pos
			b.OutEnd = len(hist) - base
			d.Blocks = append(d.Blocks, b)
		}
		switch b.Type {
		case 3:
			return finish(Corrupt, "reserved block type")
		case 0:
			r.pos = (r.pos + 7) &^ 7
			n, ok := r.get(16)
			if !ok {
				return finish(Truncated, "stored LEN")
			}
			c, ok := r.get(16)
			if !ok {
				return finish(Truncated, "stored NLEN")
			}
			if n != c^0xffff {
				return finish(Corrupt, "stored LEN/NLEN mismatch")
			}
			off := r.pos / 8
			if avail := len(in) - off; avail < n {
				hist = append(hist, in[off:]...)
				r.pos = len(in) * 8
				return finish(Truncated, "stored data")
			}
			hist = append(hist, in[off:off+n]...)
			r.pos += 8 * n
			b.Literals = n
			done()
		default:
			var hl, hd *huff
			if b.Type == 1 {
				b.LL, b.D = FixedLL(), FixedD()
				hl, hd = newHuff(b.LL), newHuff(b.D)
			} else {
				v, ok := r.get(14)
				if !ok {
					return finish(Truncated, "dynamic header")
				}
				b.HLIT, b.HDIST, b.HCLEN = 257+v&31, 1+(v>>5)&31, 4+(v>>10)&15
				if b.HLIT > 286 {
					return finish(Corrupt, "HLIT %d", b.HLIT)
				}
				if b.HDIST > 30 {
					return finish(Corrupt, "HDIST %d", b.HDIST)
				}
				b.CL = make([]byte, 19)
				for i := 0; i < b.HCLEN; i++ {
					v, ok := r.get(3)
					if !ok {
						return finish(Truncated, "code length code")
					}
					b.CL[CLOrder[i]] = byte(v)
				}
				hc := newHuff(b.CL)
				if hc.left < 0 {
					return finish(Corrupt, "oversubscribed code length code")
				}
				if hc.left > 0 {
					b.Incomplete = true
					lenient("incomplete code length code")
				}
				total := b.HLIT + b.HDIST
				sizes := make([]byte, 0, total)
				for len(sizes) < total {
					s := hc.decode(r)
					if s == -2 {
						return finish(Truncated, "code lengths")
					}
					if s < 0 {
						return finish(Corrupt, "unassigned code length code")
					}
					if s < 16 {
						sizes = append(sizes, byte(s))
						continue
					}
					var fill byte
					var n, nb, bs int
					switch s {
					case 16:
						if len(sizes) == 0 {
							return finish(Corrupt, "repeat without previous length")
						}
						fill, nb, bs = sizes[len(sizes)-1], 2, 3
					case 17:
						nb, bs = 3, 3
					case 18:
						nb, bs = 7, 11
					}
					n, ok = r.get(nb)
					if !ok {
						return finish(Truncated, "code length repeat")
					}
					n += bs
					if len(sizes)+n > total {
						return finish(Corrupt, "repeat past end")
					}
					for ; n > 0; n-- {
						sizes = append(sizes, fill)
					}
				}
				b.LL, b.D = sizes[:b.HLIT:b.HLIT], sizes[b.HLIT:]
				hl, hd = newHuff(b.LL), newHuff(b.D)
				if hl.left < 0 {
					return finish(Corrupt, "oversubscribed literal/length code")
				}
				if hd.left < 0 {
					return finish(Corrupt, "oversubscribed distance code")
				}
				b.NumLL, b.NumD = hl.n, hd.n
				if hl.left > 0 {
					b.Incomplete = true
					lenient("incomplete literal/length code")
				}
				if hd.left > 0 && !(hd.n == 0 || (hd.n == 1 && hd.count[1] == 1)) {
					b.Incomplete = true
					lenient("incomplete distance code")
				}
				if b.LL[256] == 0 {
					lenient("no end-of-block code")
				}
			}
			b.Trees = true
			usedD := map[int]bool{}
			for {
				s := hl.decode(r)
				if s == -2 {
					return finish(Truncated, "literal/length symbol")
				}
				if s < 0 {
					return finish(Corrupt, "unassigned literal/length code")
				}
				if s < 256 {
					hist = append(hist, byte(s))
					b.Literals++
					if p.MaxOut > 0 && len(hist)-base > p.MaxOut {
						return finish(Corrupt, "limit")
					}
					continue
				}
				if s == 256 {
					break
				}
				if s > 285 {
					return finish(Corrupt, "literal/length symbol %d", s)
				}
				e, ok := r.get(LenExtra[s-257])
				if !ok {
					return finish(Truncated, "length extra bits")
				}
				n := LenBase[s-257] + e
				if s == 284 && e == 31 {
					lenient("length 258 via symbol 284")
				}
				ds := hd.decode(r)
				if ds == -2 {
					return finish(Truncated, "distance symbol")
				}
				if ds < 0 {
					return finish(Corrupt, "unassigned distance code")
				}
				if ds > 29 {
					return finish(Corrupt, "distance symbol %d", ds)
				}
				usedD[ds] = true
				e, ok = r.get(DExtra[ds])
				if !ok {
					return finish(Truncated, "distance extra bits")
				}
				dist := DBase[ds] + e
				if dist > win {
					return finish(Corrupt, "distance %d beyond window %d", dist, win)
				}
				if dist > len(hist) {
					return finish(Corrupt, "distance %d beyond history %d", dist, len(hist))
				}
				if p.Declared > 0 && dist > p.Declared {
					lenient("distance beyond declared window")
				}
				if dist > len(hist)-base {
					b.DictMatches++
				}
				for i := 0; i < n; i++ {
					hist = append(hist, hist[len(hist)-dist])
				}
				b.Matches++
				b.MinDist, b.MaxDist = min(b.MinDist, dist), max(b.MaxDist, dist)
				b.MinLen, b.MaxLen = min(b.MinLen, n), max(b.MaxLen, n)
				if p.MaxOut > 0 && len(hist)-base > p.MaxOut {
					return finish(Corrupt, "limit")
				}
			}
			b.UsedDCodes = len(usedD)
			done()
		}
		if b.Final {
			return finish(OK, "")
		}
	}
}
