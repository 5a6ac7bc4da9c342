package main

import (
	"bytes"
	"fmt"
	"strings"

	"pgregory.net/rapid"

	"flateverif/ref"
)

// SELF: the reference decoder, the stream builder and the Go standard library
// checked against each other.  Not a property; run by setup_cmd.

type selfCase struct {
	C   StreamsCase
	Mut []Mut
}

// Mut is one mutation of an input.
type Mut struct {
	K string // flip, set, del, ins, dup, trunc, zero
	P int    // position, per mille of the length, plus O
	O int
	V int
}

func genMuts(t *rapid.T, n int) []Mut {
	var ms []Mut
	for i := 0; i < n; i++ {
		ms = append(ms, Mut{
			K: pick(t, "mk", "flip", "flip", "flip", "set", "del", "ins", "dup", "trunc", "zero", "ones"),
			P: pick(t, "mp", 0, 0, 0, 1000, uni(t, 0, 1000, "mpp")),
			O: uni(t, 0, 40, "mo"),
			V: uni(t, 0, 255, "mv"),
		})
	}
	return ms
}

func mutate(in []byte, ms []Mut) []byte {
	b := append([]byte{}, in...)
	for _, m := range ms {
		if len(b) == 0 {
			return b
		}
		i := len(b) * m.P / 1000
		if m.P >= 500 {
			i -= m.O
		} else {
			i += m.O
		}
		i = min(max(0, i), len(b)-1)
		switch m.K {
		case "flip":
			b[i] ^= 1 << (m.V & 7)
		case "set":
			b[i] = byte(m.V)
		case "del":
			j := min(len(b), i+1+m.V%8)
			b = append(b[:i:i], b[j:]...)
		case "ins":
			n := append([]byte{}, b[:i]...)
			n = append(n, byte(m.V), byte(m.V*7))
			b = append(n, b[i:]...)
		case "dup":
			j := min(len(b), i+1+m.V)
			n := append([]byte{}, b[:j]...)
			b = append(n, b[i:]...)
		case "trunc":
			b = b[:i]
		case "zero":
			for j := i; j < len(b) && j < i+1+m.V%16; j++ {
				b[j] = 0
			}
		case "ones":
			for j := i; j < len(b) && j < i+1+m.V%16; j++ {
				b[j] = 255
			}
		}
	}
	return b
}

func stdStringsOK(s []ref.StreamSpec) bool {
	for _, x := range s {
		if x.F == ref.Gzip && (x.H.Flags&8 != 0 && len(x.H.Name) > 500 || x.H.Flags&16 != 0 && len(x.H.Comm) > 500) {
			return false
		}
	}
	return true
}

func init() {
	reg("SELF", "valid", "built streams: builder, reference and standard library agree", 6000, 60000, func(t *rapid.T) *selfCase {
		return &selfCase{C: genStreams(t, pick(t, "f", ref.Raw, ref.Zlib, ref.Gzip), 0, 3, true, true)}
	}, func(c *selfCase, cov *Cov) error {
		b := c.C.build()
		f := c.C.S[0].F
		res := ref.Decode(b.In, ref.Options{Format: f, Dict: b.Dict, HasDict: b.HasDict})
		if res.Kind != ref.OK || res.Lenient {
			return fmt.Errorf("reference: %v", res)
		}
		if err := diffBytes("reference content", res.Out, b.Content); err != nil {
			return err
		}
		if !(f == ref.Gzip && b.HasDict) && stdStringsOK(c.C.S) {
			out, n, err := stdDecode(f, b.In, b.Dict)
			if err != nil || !bytes.Equal(out, b.Content) || n != len(c.C.S) {
				return fmt.Errorf("standard library: %v, %v, %d streams", err, diffBytes("content", out, b.Content), n)
			}
		}
		for _, s := range res.Streams {
			for _, k := range s.D.Blocks {
				cov.Class([]string{"stored", "static", "dynamic"}[k.Type])
				cov.ClassIf(k.MaxDist == 32768, "distance 32768")
				cov.ClassIf(k.Type == 2 && k.NumD == 0, "no distance codes")
				cov.ClassIf(k.Type == 2 && k.NumD == 1, "one distance code")
			}
		}
		cov.Nontrivial(len(b.Content) > 0)
		return nil
	})
	reg("SELF", "broken", "planted violations and mutations: reference and standard library agree on accept/reject and on the data", 12000, 100000, func(t *rapid.T) *selfCase {
		c := &selfCase{C: genStreams(t, pick(t, "f", ref.Raw, ref.Zlib, ref.Gzip), pick(t, "win", 0, 0, 256, 1024), 2, false, true)}
		if pct(t, 60, "plant") {
			plant(t, &c.C)
		} else {
			c.Mut = genMuts(t, uni(t, 1, 3, "nm"))
		}
		return c
	}, func(c *selfCase, cov *Cov) error {
		b := c.C.build()
		f := c.C.S[0].F
		in := mutate(b.In, c.Mut)
		res := ref.Decode(in, ref.Options{Format: f, Dict: b.Dict, HasDict: b.HasDict})
		if f == ref.Gzip && b.HasDict || !stdStringsOK(c.C.S) {
			return nil
		}
		out, _, err := stdDecode(f, in, b.Dict)
		cov.Class("reference " + res.Kind.String())
		cov.Class("why " + whyClass(res.Why))
		if res.Lenient {
			cov.Class("lenient: " + res.AltWhy)
			return nil
		}
		if (err == nil) != (res.Kind == ref.OK) {
			if res.Why == "zlib dictionary not used" || res.Why == "gzip reserved flags" {
				return nil // the standard library is lenient here
			}
			return fmt.Errorf("reference %v; standard library: %v", res, err)
		}
		// the standard library may withhold or stop early, but never differ
		if !bytes.HasPrefix(res.Out, out) && !bytes.HasPrefix(out, res.Out) {
			return fmt.Errorf("reference %v; %v", res, diffBytes("standard library", out, res.Out))
		}
		cov.Nontrivial(err != nil)
		return nil
	})
}

// whyClass strips the numbers from a reason.
func whyClass(s string) string {
	if strings.Contains(s, "beyond") {
		s = "distance beyond history/window"
	}
	return s
}

// plant puts one violation into a case.
func plant(t *rapid.T, c *StreamsCase) {
	s := &c.S[uni(t, 0, len(c.S)-1, "ps")]
	if s.F != ref.Raw && pct(t, 30, "container") {
		s.V = uni(t, 1, ref.NumCViolations-1, "cv")
		return
	}
	b := &s.Blocks[uni(t, 0, len(s.Blocks)-1, "pb")]
	b.V = uni(t, 1, ref.NumViolations-1, "v")
	b.P = uni(t, 0, 100, "vp")
	switch b.V {
	case ref.VStoredLen:
		b.T = 0
	case ref.VLLSym, ref.VDSym:
		b.T = 1
	case ref.VDistHistory, ref.VDistWindow, ref.VBlockType:
		b.T = pick(t, "vt", 1, 2)
	default:
		b.T = 2
	}
	if b.V == ref.VUnassignedD || b.V == ref.VNoD {
		b.M = 0
	}
}
