package ref

import (
	"encoding/binary"
	"fmt"
	"hash/adler32"
	"hash/crc32"
)

// Format of a stream.
type Format int

// The formats, numbered as in the package under test.
const (
	Auto Format = iota
	Raw
	Zlib
	Gzip
)

func (f Format) String() string { return [...]string{"auto", "raw", "zlib", "gzip"}[f] }

// Header holds the container header fields.
type Header struct {
	// zlib
	CINFO, FLEVEL int
	FDICT         bool
	DictID        uint32
	// gzip
	FTEXT, FHCRC, FEXTRA, FNAME, FCOMMENT bool
	MTIME                                 uint32
	XFL, OS                               byte
	Extra                                 []byte
	Name, Comment                         []byte
	HCRC                                  uint16
	Len                                   int // bytes
}

// Stream is one container stream.
type Stream struct {
	Format     Format
	Start, End int // byte offsets in the input
	Hdr        Header
	HdrOK      bool
	D          *Deflate
	Out        []byte
	Adler, CRC uint32
}

// Result is the verdict on a whole input.
type Result struct {
	Streams []Stream // the last one may be incomplete
	Out     []byte
	MinOut  int
	Kind    Kind
	Why     string
	Pos     int // byte offset (rounded up) just after what was examined at the violation
	Lenient bool
	AltOut  int
	AltWhy  string
}

// Options for Decode.
type Options struct {
	Format  Format
	Dict    []byte
	HasDict bool
	Window  int  // reader's limit; 0 means 32768
	Single  bool // stop after the first stream
	MaxOut  int
}

// Decode decodes a whole input as a sequence of streams.
func Decode(in []byte, o Options) *Result {
	res := &Result{}
	pos := 0
	if o.Window == 0 {
		o.Window = 32768
	}
	for pos < len(in) {
		st := Stream{Start: pos, Format: o.Format}
		kind, why, end := decodeOne(in, pos, &st, o, len(res.Out))
		before := len(res.Out)
		res.Out = append(res.Out, st.Out...)
		res.MinOut = len(res.Out)
		if st.D != nil {
			res.MinOut = before + st.D.MinOut
			if st.D.Lenient && !res.Lenient {
				res.Lenient = true
				res.AltOut = before + st.D.AltOut
				res.AltWhy = st.D.AltWhy
			}
		}
		st.End = end
		res.Streams = append(res.Streams, st)
		pos = end
		res.Pos = end
		if kind != OK {
			res.Kind, res.Why = kind, why
			return res
		}
		if o.Single {
			break
		}
	}
	return res
}

func decodeOne(in []byte, pos int, st *Stream, o Options, already int) (Kind, string, int) {
	b := in[pos:]
	if st.Format == Auto {
		st.Format = Raw
		if len(b) >= 2 {
			if b[0] == 0x1f && b[1] == 0x8b {
				st.Format = Gzip
			} else if b[0]&15 == 8 && (int(b[0])<<8|int(b[1]))%31 == 0 {
				st.Format = Zlib
			}
		}
	}
	p := Params{Dict: o.Dict, Window: o.Window}
	if o.MaxOut > 0 {
		p.MaxOut = max(1, o.MaxOut-already)
	}
	hl := 0
	h := &st.Hdr
	switch st.Format {
	case Zlib:
		if len(b) < 2 {
			return Truncated, "zlib header", len(in)
		}
		if (int(b[0])<<8|int(b[1]))%31 != 0 {
			return Corrupt, "zlib FCHECK", pos + 2
		}
		if b[0]&15 != 8 {
			return Corrupt, "zlib CM", pos + 2
		}
		h.CINFO = int(b[0] >> 4)
		h.FLEVEL = int(b[1] >> 6)
		h.FDICT = b[1]&0x20 != 0
		if 1<<uint(8+h.CINFO) > o.Window {
			return Corrupt, "zlib window", pos + 2
		}
		hl = 2
		if h.FDICT {
			if len(b) < 6 {
				return Truncated, "zlib DICTID", len(in)
			}
			h.DictID = binary.BigEndian.Uint32(b[2:])
			hl = 6
			if !o.HasDict {
				return Corrupt, "zlib dictionary needed", pos + 6
			}
			if adler32.Checksum(o.Dict) != h.DictID {
				return Corrupt, "zlib dictionary mismatch", pos + 6
			}
		} else if o.HasDict {
			return Corrupt, "zlib dictionary not used", pos + 2
		}
		p.Declared = 1 << uint(8+h.CINFO)
		h.Len = hl
	case Gzip:
		k, why, n := parseGzip(b, h)
		if k != OK {
			return k, why, pos + n
		}
		hl = n
	}
	st.HdrOK = true
	d := Inflate(b[hl:], p)
	st.D = d
	st.Out = d.Out
	st.Adler = adler32.Checksum(d.Out)
	st.CRC = crc32.ChecksumIEEE(d.Out)
	end := pos + hl + (d.EndBit+7)/8
	if d.Kind != OK {
		return d.Kind, d.Why, end
	}
	t := in[end:]
	switch st.Format {
	case Zlib:
		if len(t) < 4 {
			return Truncated, "zlib trailer", len(in)
		}
		if binary.BigEndian.Uint32(t) != st.Adler {
			return Corrupt, "zlib Adler-32", end + 4
		}
		end += 4
	case Gzip:
		if len(t) < 8 {
			return Truncated, "gzip trailer", len(in)
		}
		if binary.LittleEndian.Uint32(t) != st.CRC {
			return Corrupt, "gzip CRC-32", end + 8
		}
		if binary.LittleEndian.Uint32(t[4:]) != uint32(len(st.Out)) {
			return Corrupt, "gzip ISIZE", end + 8
		}
		end += 8
	}
	return OK, "", end
}

func parseGzip(b []byte, h *Header) (Kind, string, int) {
	if len(b) < 10 {
		return Truncated, "gzip header", len(b)
	}
	if b[0] != 0x1f || b[1] != 0x8b {
		return Corrupt, "gzip ID", 10
	}
	if b[2] != 8 {
		return Corrupt, "gzip CM", 10
	}
	flg := b[3]
	if flg&0xe0 != 0 {
		return Corrupt, "gzip reserved flags", 10
	}
	h.FTEXT, h.FHCRC, h.FEXTRA, h.FNAME, h.FCOMMENT = flg&1 != 0, flg&2 != 0, flg&4 != 0, flg&8 != 0, flg&16 != 0
	h.MTIME = binary.LittleEndian.Uint32(b[4:])
	h.XFL, h.OS = b[8], b[9]
	i := 10
	if h.FEXTRA {
		if len(b) < i+2 {
			return Truncated, "gzip XLEN", len(b)
		}
		n := int(binary.LittleEndian.Uint16(b[i:]))
		i += 2
		if len(b) < i+n {
			return Truncated, "gzip extra", len(b)
		}
		h.Extra = append([]byte{}, b[i:i+n]...)
		i += n
	}
	str := func(dst *[]byte) bool {
		for j := i; j < len(b); j++ {
			if b[j] == 0 {
				*dst = append([]byte{}, b[i:j]...)
				i = j + 1
				return true
			}
		}
		return false
	}
	if h.FNAME && !str(&h.Name) {
		return Truncated, "gzip name", len(b)
	}
	if h.FCOMMENT && !str(&h.Comment) {
		return Truncated, "gzip comment", len(b)
	}
	if h.FHCRC {
		if len(b) < i+2 {
			return Truncated, "gzip HCRC", len(b)
		}
		h.HCRC = binary.LittleEndian.Uint16(b[i:])
		if h.HCRC != uint16(crc32.ChecksumIEEE(b[:i])) {
			return Corrupt, "gzip HCRC", i + 2
		}
		i += 2
	}
	h.Len = i
	return OK, "", i
}

func (r *Result) String() string {
	return fmt.Sprintf("%v(%s) out=%d minout=%d streams=%d lenient=%v(%s)", r.Kind, r.Why, len(r.Out), r.MinOut, len(r.Streams), r.Lenient, r.AltWhy)
}
