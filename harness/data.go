package main

import (
	"flateverif/ref"

	"pgregory.net/rapid"
)

// Seg is a recipe for a stretch of content.  The bulk is expanded from a
// generated seed, so cases stay small and shrink well.
type Seg struct {
	K string // kind
	N int    // length
	A int    // parameter
	S uint64 // seed
}

var words = []string{"the ", "of ", "and ", "compress", "ion ", "window", " literal", "\n", ", ", "Huffman ", "0123456789", "é", "stream", "ing ", "a", "e"}

// expand produces the content of a list of segments.
func expand(segs []Seg) []byte { return expandWith(segs, nil) }

// expandWith is expand with history (a dictionary) that copies may refer to.
func expandWith(segs []Seg, hist []byte) []byte {
	base := len(hist)
	out := append([]byte{}, hist...)
	for _, s := range segs {
		r := ref.Rng(s.S)
		n := max(0, s.N)
		end := len(out) + n
		switch s.K {
		case "rand": // A symbols starting anywhere
			a := min(max(1, s.A), 256)
			off := r.N(256)
			for len(out) < end {
				out = append(out, byte(off+r.N(a)))
			}
		case "run": // one byte
			for len(out) < end {
				out = append(out, byte(s.A))
			}
		case "text":
			for len(out) < end {
				out = append(out, words[r.N(len(words))]...)
			}
			out = out[:end]
		case "copy": // from A bytes back
			for len(out) < end {
				if len(out) == 0 {
					out = append(out, byte(r.Next()))
					continue
				}
				d := max(1, s.A)
				if d > len(out) {
					d = 1 + d%len(out)
				}
				out = append(out, out[len(out)-d])
			}
		case "period": // a random block of A bytes, repeated
			p := max(1, s.A)
			start := len(out)
			for len(out) < end {
				if len(out)-start < p {
					out = append(out, byte(r.Next()))
				} else {
					out = append(out, out[len(out)-p])
				}
			}
		case "sparse": // like period, with a changed byte now and then
			p := max(1, s.A)
			start := len(out)
			for len(out) < end {
				if len(out)-start < p || r.N(40) == 0 {
					out = append(out, byte(r.Next()))
				} else {
					out = append(out, out[len(out)-p])
				}
			}
		case "fib": // symbol frequencies growing like the Fibonacci numbers
			k := min(max(2, s.A), 30)
			off := r.N(256 - k)
			w := make([]int, k)
			a, b, tot := 1, 1, 0
			for i := range w {
				w[i] = a
				tot += a
				a, b = b, a+b
			}
			buf := make([]byte, 0, tot)
			for i, x := range w {
				for j := 0; j < x && len(buf) < 1<<20; j++ {
					buf = append(buf, byte(off+i))
				}
			}
			for i := len(buf) - 1; i > 0; i-- {
				j := r.N(i + 1)
				buf[i], buf[j] = buf[j], buf[i]
			}
			for i := 0; len(out) < end; i++ {
				out = append(out, buf[i%len(buf)])
			}
		case "geo": // symbol frequencies growing geometrically
			q, tot := 1.0, 0
			var buf []byte
			perm := byte(r.N(256))
			for i := 0; i < 200 && tot < s.N; i++ {
				x := min(1+int(q), s.N-tot)
				for j := 0; j < x; j++ {
					buf = append(buf, perm+byte(i*7))
				}
				tot += x
				q *= float64(max(110, s.A)) / 100
			}
			for i := len(buf) - 1; i > 0; i-- {
				j := r.N(i + 1)
				buf[i], buf[j] = buf[j], buf[i]
			}
			out = append(out, buf...)
		case "dyad": // symbol i has probability about 2^-(1+i*A/8), over many symbols
			for len(out) < end {
				z := r.Next()
				i := 0
				for z&1 == 0 && i < 40 {
					z >>= 1
					i++
				}
				k := i
				if s.A > 0 {
					// several symbols per level, unevenly many
					k = i*s.A + r.N(1+(i*s.A)%11)
				}
				out = append(out, byte(k))
			}
		case "ramp": // counters of A bytes: few or no repeats
			v := r.Next()
			for len(out) < end {
				v++
				for j := 0; j < min(max(1, s.A), 8) && len(out) < end; j++ {
					out = append(out, byte(v>>(8*j)))
				}
			}
		case "levels": // A groups of symbols, the groups differing in frequency: many distinct code sizes
			g := min(max(1, s.A), 12)
			for len(out) < end {
				i := 0
				for i < g-1 && r.N(100) < 45 {
					i++
				}
				n := 1 + (i*i*7+int(s.S%5))%37
				out = append(out, byte(i*21+r.N(n)))
			}
		}
	}
	return out[base:]
}

func totalN(segs []Seg) (n int) {
	for _, s := range segs {
		n += s.N
	}
	return
}

func ints(lo, hi int) *rapid.Generator[int] { return rapid.IntRange(lo, hi) }

func draw(t *rapid.T, lo, hi int, label string) int { return rapid.IntRange(lo, hi).Draw(t, label) }

// uni draws uniformly (rapid's own integer generators favour small values).
func uni(t *rapid.T, lo, hi int, label string) int {
	if hi <= lo {
		return lo
	}
	x := rapid.Uint64().Draw(t, label)
	r := ref.Rng(x)
	return lo + r.N(hi-lo+1)
}

func pick[T any](t *rapid.T, label string, xs ...T) T {
	return xs[uni(t, 0, len(xs)-1, label)]
}

func pct(t *rapid.T, p int, label string) bool { return uni(t, 0, 99, label) < p }

// genSize draws a length: tiny, small, medium, around a power of two, or large.
func genSize(t *rapid.T, maxN int, label string) int {
	n := 0
	switch k := uni(t, 0, 99, label+"class"); {
	case k < 18:
		n = uni(t, 0, 16, label)
	case k < 45:
		n = uni(t, 0, 600, label)
	case k < 70:
		n = uni(t, 0, 9000, label)
	case k < 87:
		n = 1<<uni(t, 7, 17, label+"k") + uni(t, -3, 3, label)
	default:
		n = uni(t, 0, maxN, label)
	}
	return min(max(n, 0), maxN)
}

var segKinds = []string{"rand", "rand", "run", "text", "text", "copy", "copy", "period", "sparse", "fib", "dyad", "ramp", "levels"}

func genSeg(t *rapid.T, maxN int) Seg {
	s := Seg{K: segKinds[uni(t, 0, len(segKinds)-1, "kind")], N: genSize(t, maxN, "n")}
	s.S = rapid.Uint64().Draw(t, "seed")
	switch s.K {
	case "rand":
		s.A = pick(t, "alpha", 256, 256, 256, 2, 3, 4, 16, 64, 100, 200, 255)
	case "run":
		s.A = uni(t, 0, 255, "byte")
	case "copy":
		s.A = genDistance(t)
	case "period", "sparse":
		s.A = genDistance(t)
	case "fib":
		s.A = uni(t, 5, 26, "k")
	case "dyad":
		s.A = uni(t, 0, 12, "a")
	case "ramp":
		s.A = uni(t, 1, 5, "a")
	case "levels":
		s.A = uni(t, 1, 12, "a")
	}
	return s
}

// genDistance favours the neighbourhoods of powers of two.
func genDistance(t *rapid.T) int {
	switch uni(t, 0, 4, "dclass") {
	case 0:
		return uni(t, 1, 10, "d")
	case 1, 2:
		return max(1, 1<<uni(t, 2, 15, "dk")+uni(t, -2, 3, "d"))
	case 3:
		return uni(t, 1, 40000, "d")
	}
	return uni(t, 1, 600, "d")
}

// genData draws content of at most maxN bytes.
func genData(t *rapid.T, maxN int) []Seg {
	n := pick(t, "segs", 0, 1, 1, 1, 2, 2, 3, 4, 6)
	var segs []Seg
	left := maxN
	for i := 0; i < n; i++ {
		s := genSeg(t, left)
		left -= s.N
		segs = append(segs, s)
		if left <= 0 {
			break
		}
	}
	return segs
}

// genDict draws a non-empty dictionary recipe.
func genDict(t *rapid.T) []Seg {
	s := genSeg(t, 70000)
	if pct(t, 15, "zerodict") {
		s.K, s.A = "run", 0
	}
	s.N = max(1, s.N)
	if pct(t, 40, "smalldict") {
		s.N = uni(t, 1, 400, "dictn")
	}
	if s.K == "run" || pct(t, 60, "onedictseg") {
		return []Seg{s}
	}
	return []Seg{s, genSeg(t, 5000)}
}
