package main

import (
	"bytes"
	"compress/gzip"
	"fmt"
	"hash/crc32"
	"io"
	"strings"
	"time"

	"pgregory.net/rapid"

	flate "github.com/chronos-tachyon/flate"

	"flateverif/ref"
)

// Rec is an extra-data record.
type Rec struct {
	A, B int
	D    []byte `json:",omitempty"`
}

// Hdr is a header to give to SetHeader.
type Hdr struct {
	Name  []byte `json:",omitempty"`
	Comm  []byte `json:",omitempty"`
	HasT  bool
	Sec   int64
	Nsec  int
	Zone  int
	DT    int
	OS    int
	Recs  []Rec `json:",omitempty"`
	Pad   int   // one more record of that many bytes
	WB    int
	CL    int
	Empty bool // a non-nil empty list of records
}

func (h Hdr) header() flate.Header {
	out := flate.Header{FileName: string(h.Name), Comment: string(h.Comm), DataType: flate.DataType(h.DT), OSType: flate.OSType(h.OS),
		WindowBits: flate.WindowBits(h.WB), CompressLevel: flate.CompressLevel(h.CL)}
	if h.HasT {
		out.LastModified = time.Unix(h.Sec, int64(h.Nsec)).In(time.FixedZone("x", h.Zone*900))
	}
	for _, r := range h.Recs {
		out.ExtraData.Records = append(out.ExtraData.Records, flate.ExtraDataRecord{ID: [2]byte{byte(r.A), byte(r.B)}, Bytes: r.D})
	}
	if h.Pad > 0 {
		p := make([]byte, h.Pad)
		r := ref.Rng(h.Pad)
		for i := range p {
			p[i] = byte(r.Next())
		}
		out.ExtraData.Records = append(out.ExtraData.Records, flate.ExtraDataRecord{ID: [2]byte{'P', 0}, Bytes: p})
	}
	if h.Empty && out.ExtraData.Records == nil {
		out.ExtraData.Records = []flate.ExtraDataRecord{}
	}
	return out
}

func (h Hdr) extraLen() int {
	n := 0
	for _, r := range h.Recs {
		n += 4 + len(r.D)
	}
	if h.Pad > 0 {
		n += 4 + h.Pad
	}
	return n
}

const maxOSType = int(flate.OSTypeAcornRISCOS)

// valid says whether the header can be represented; unsure: the statement
// leaves it open.
func (h Hdr) valid() (ok, unsure bool) {
	if len(h.Name) >= 256 || len(h.Comm) >= 256 || bytes.ContainsAny(h.Name, "\x00/\\") || bytes.IndexByte(h.Comm, 0) >= 0 {
		return false, false
	}
	if h.OS < 0 || h.OS > maxOSType {
		return false, false
	}
	if h.extraLen() > 65535 {
		return false, false
	}
	if h.HasT && !h.header().LastModified.IsZero() {
		if h.Sec < 0 || h.Sec > 1<<32-1 {
			return false, false
		}
		if h.Sec == 1<<32-1 {
			return true, true
		}
	}
	return true, false
}

func genName(t *rapid.T, maxN int, bad string) []byte {
	n := 0
	switch uni(t, 0, 3, "namec") {
	case 0, 1:
		n = uni(t, 0, 30, "namen")
	case 2:
		n = uni(t, 0, maxN, "namen")
	case 3:
		n = maxN - uni(t, 0, 2, "namen")
	}
	r := ref.Rng(rapid.Uint64().Draw(t, "names"))
	full := r.Pct(50)
	out := make([]byte, 0, n)
	for len(out) < n {
		c := byte(1 + r.N(255))
		if !full {
			c = byte(32 + r.N(95))
		}
		if strings.IndexByte(bad, c) >= 0 {
			continue
		}
		out = append(out, c)
	}
	return out
}

func genHdr(t *rapid.T) Hdr {
	h := Hdr{}
	if pct(t, 60, "name") {
		h.Name = genName(t, 255, "\x00/\\")
	}
	if pct(t, 60, "comm") {
		h.Comm = genName(t, 255, "\x00")
	}
	if pct(t, 60, "time") {
		h.HasT = true
		h.Sec = pick(t, "sec", int64(0), 1, 1<<31-1, 1<<31, 1<<32-2, int64(rapid.Uint64().Draw(t, "secu")%(1<<32-1)), int64(rapid.Uint64().Draw(t, "secu")%(1<<32-1)))
		h.Nsec = pick(t, "nsec", 0, 1, 999999999, 500000000)
		h.Zone = uni(t, -40, 40, "zone")
	}
	h.DT = pick(t, "dt", 0, 0, 1, 2)
	h.OS = uni(t, 0, maxOSType, "os")
	if pct(t, 60, "recs") {
		for i := uni(t, 0, 4, "nrec"); i > 0; i-- {
			h.Recs = append(h.Recs, Rec{uni(t, 0, 255, "ra"), uni(t, 0, 255, "rb"), genBytes(t, pick(t, "rl", 10, 300, 5000), "rd")})
		}
		if pct(t, 15, "fill") {
			if left := 65535 - h.extraLen() - 4; left > 0 {
				h.Pad = pick(t, "pad", left, left-1, left/2)
			}
		}
		h.Empty = pct(t, 20, "empty")
	}
	if pct(t, 20, "ignored") {
		h.WB, h.CL = uni(t, 0, 15, "hwb"), uni(t, -1, 9, "hcl")
	}
	return h
}

// spoil makes a header unrepresentable.
func spoil(t *rapid.T, h Hdr) Hdr {
	ins := func(b []byte, c byte) []byte {
		i := uni(t, 0, len(b), "at")
		out := append([]byte{}, b[:i]...)
		out = append(out, c)
		return append(out, b[i:]...)
	}
	long := func(b []byte) []byte {
		for len(b) < 256 {
			b = append(b, 'x')
		}
		return append(b, bytes.Repeat([]byte{'y'}, pick(t, "longer", 0, 1, 300))...)
	}
	switch uni(t, 0, 8, "spoil") {
	case 0:
		h.Name = ins(h.Name, 0)
	case 1:
		h.Name = ins(h.Name, '/')
	case 2:
		h.Name = ins(h.Name, '\\')
	case 3:
		h.Comm = ins(h.Comm, 0)
	case 4:
		h.Name = long(h.Name)
	case 5:
		h.Comm = long(h.Comm)
	case 6:
		h.HasT = true
		h.Sec = pick(t, "badsec", int64(-1), -1000000000, 1<<32, 1<<32+5, 1<<40)
		h.Nsec = pick(t, "nsec", 0, 999999999)
	case 7:
		h.OS = pick(t, "bados", maxOSType+1, 100, 255)
	case 8:
		h.Pad = 0
		h.Pad = 65535 - h.extraLen() - 4 + pick(t, "over", 1, 2, 100, 70000)
		if h.Pad <= 0 {
			h.Recs = nil
			h.Pad = 65532
		}
	}
	return h
}

// HdrStep: set headers (some refused), then write a stream.
type HdrStep struct {
	Set  []Hdr
	Data []Seg
	Cut  int  // write sizes
	Mid  *Hdr `json:",omitempty"` // set in the middle of the stream: applies to the next one
}

// HdrCase is a sequence of gzip streams with headers.
type HdrCase struct {
	O     WOpts
	Steps []HdrStep
	R     DecOpts
	Reset int // before this step (>0) the compressor is reset instead of finished
}

const (
	utUnknown = int(flate.UnknownData)
	utBinary  = int(flate.BinaryData)
	utText    = int(flate.TextData)
)

func sameHeader(got flate.Header, h Hdr, text bool) error {
	if got.FileName != string(h.Name) {
		return fmt.Errorf("file name %q, want %q", got.FileName, h.Name)
	}
	if got.Comment != string(h.Comm) {
		return fmt.Errorf("comment %q, want %q", got.Comment, h.Comm)
	}
	if h.HasT && h.Sec != 0 && !h.header().LastModified.IsZero() {
		if got.LastModified.Unix() != h.Sec {
			return fmt.Errorf("modification time %v (%d), want %d", got.LastModified, got.LastModified.Unix(), h.Sec)
		}
	} else if !got.LastModified.IsZero() && got.LastModified.Unix() != 0 {
		return fmt.Errorf("modification time %v, want none", got.LastModified)
	}
	if h.DT != utUnknown && int(got.DataType) != h.DT {
		return fmt.Errorf("data type %v, want %v", got.DataType, flate.DataType(h.DT))
	}
	if h.DT == utUnknown {
		want := flate.BinaryData
		if text {
			want = flate.TextData
		}
		if got.DataType != want {
			return fmt.Errorf("detected data type %v; the same stream written alone by a new compressor gives %v", got.DataType, want)
		}
	}
	if h.OS != 0 && int(got.OSType) != h.OS {
		return fmt.Errorf("OS %v, want %v", got.OSType, flate.OSType(h.OS))
	}
	want := h.header().ExtraData.Records
	if len(got.ExtraData.Records) != len(want) {
		return fmt.Errorf("%d extra-data records, want %d", len(got.ExtraData.Records), len(want))
	}
	for i, r := range want {
		g := got.ExtraData.Records[i]
		if g.ID != r.ID || !bytes.Equal(g.Bytes, r.Bytes) {
			return fmt.Errorf("extra-data record %d is %v (%d bytes), want %v (%d bytes)", i, g.ID, len(g.Bytes), r.ID, len(r.Bytes))
		}
	}
	return nil
}

// osByte is RFC 1952's table.
var osBytes = map[flate.OSType]byte{flate.OSTypeFAT: 0, flate.OSTypeAmiga: 1, flate.OSTypeVMS: 2, flate.OSTypeUnix: 3, flate.OSTypeVMCMS: 4,
	flate.OSTypeAtariTOS: 5, flate.OSTypeHPFS: 6, flate.OSTypeMacintosh: 7, flate.OSTypeZSystem: 8, flate.OSTypeCPM: 9, flate.OSTypeTOPS20: 10,
	flate.OSTypeNTFS: 11, flate.OSTypeQDOS: 12, flate.OSTypeAcornRISCOS: 13}

func latin1(b []byte) string {
	var sb strings.Builder
	for _, c := range b {
		sb.WriteRune(rune(c))
	}
	return sb.String()
}

func (s *HdrStep) write(w *flate.Writer, data []byte, from int) error {
	n := s.Cut
	if n <= 0 {
		n = len(data)
	}
	for i := from; i < len(data); {
		j := min(len(data), i+n)
		if _, err := w.Write(data[i:j]); err != nil {
			return err
		}
		i = j
	}
	return nil
}

// control returns the position of the first control character that is not white space.
func control(b []byte) int {
	for i, c := range b {
		if c < 9 || c > 13 && c < 32 || c == 127 {
			return i
		}
	}
	return -1
}

func checkHeaders(c *HdrCase, cov *Cov) error {
	d := newDst()
	o := c.O
	o.F = int(ref.Gzip)
	fw := flate.NewWriter(d.writer(0), o.options()...)
	cur := Hdr{}
	var want []Hdr
	var texts []bool
	var content []byte
	var whole []byte // bytes before a reset
	var bounds []int
	for i, s := range c.Steps {
		if i > 0 && i == c.Reset {
			if err := fw.Close(); err != nil {
				return err
			}
			whole = append(whole, d.Buf...)
			d = newDst()
			fw.Reset(d.writer(0))
		}
		for _, h := range s.Set {
			err := fw.SetHeader(h.header())
			ok, unsure := h.valid()
			if unsure {
				ok = err == nil
			}
			if ok != (err == nil) {
				return fmt.Errorf("step %d: SetHeader(%s) returned %v", i, describeHdr(h), err)
			}
			if ok {
				cur = h
			} else {
				cov.Class("refused headers")
			}
		}
		data := expand(s.Data)
		first := data
		if s.Mid != nil && len(data) > 1 {
			first = data[:len(data)/2]
		}
		// the same stream alone in a new compressor
		d2 := newDst()
		fw2 := flate.NewWriter(d2.writer(0), o.options()...)
		for _, w := range []*flate.Writer{fw, fw2} {
			if err := s.write(w, first, 0); err != nil {
				return err
			}
			if s.Mid != nil && len(data) > 1 {
				if err := w.Flush(flate.BlockFlush); err != nil {
					return err
				}
				if w == fw {
					if err := fw.SetHeader(s.Mid.header()); err != nil {
						return fmt.Errorf("step %d: SetHeader in the middle of a stream: %w", i, err)
					}
				}
				if err := s.write(w, data, len(first)); err != nil {
					return err
				}
			}
		}
		if err := fw2.Close(); err != nil {
			return err
		}
		if err := fw.Flush(flate.FinishFlush); err != nil {
			return err
		}
		r2 := ref.Decode(d2.Buf, ref.Options{Format: ref.Gzip, Dict: o.dict(), HasDict: o.dict() != nil})
		if r2.Kind != ref.OK {
			return fmt.Errorf("step %d alone: %v", i, r2)
		}
		// what the classification must be, however the data is buffered
		if len(data) > 0 {
			piece := len(first)
			if s.Cut > 0 {
				piece = min(piece, s.Cut)
			}
			ftext := r2.Streams[0].Hdr.FTEXT
			if at := control(data); at < 0 && !ftext {
				return fmt.Errorf("step %d: %d bytes without control characters are marked as binary", i, len(data))
			} else if at >= 0 && at < min(piece, 256) && ftext {
				return fmt.Errorf("step %d: content with byte %#x at %d is marked as text", i, data[at], at)
			}
			cov.ClassIf(control(data) < 0, "all text")
			cov.ClassIf(control(data) > 0, "some control characters")
		}
		if len(data) > 0 || i == 0 || i == c.Reset {
			want = append(want, cur)
			texts = append(texts, r2.Streams[0].Hdr.FTEXT)
			content = append(content, data...)
			bounds = append(bounds, len(content))
		}
		if s.Mid != nil && len(data) > 1 {
			cur = *s.Mid
		}
	}
	if err := fw.Close(); err != nil {
		return err
	}
	in := append(whole, d.Buf...)
	// strictly, by the reference
	res, err := strict(o, in, content)
	if err != nil {
		return err
	}
	if len(res.Streams) != len(want) {
		return fmt.Errorf("%d streams, want %d", len(res.Streams), len(want))
	}
	for i, s := range res.Streams {
		h := want[i]
		sh := s.Hdr
		var xd flate.ExtraData
		xd.Records = refRecords(sh.Extra)
		g := flate.Header{FileName: string(sh.Name), Comment: string(sh.Comment), ExtraData: xd, DataType: flate.BinaryData}
		if sh.FTEXT {
			g.DataType = flate.TextData
		}
		if sh.MTIME != 0 {
			g.LastModified = time.Unix(int64(sh.MTIME), 0)
		}
		for k, v := range osBytes {
			if v == sh.OS {
				g.OSType = k
			}
		}
		if err := sameHeader(g, h, texts[i]); err != nil {
			return fmt.Errorf("header of stream %d in the output: %w", i, err)
		}
		if sh.FHCRC {
			cov.Class("headers with CRC")
		}
	}
	// by this package's decompressor
	var got []flate.Header
	var one flate.Header
	tr := flate.TracerFunc(func(e flate.Event) {
		if e.Type == flate.StreamHeaderEvent {
			got = append(got, *e.Header)
		}
	})
	ro := c.R.ropts(ref.Gzip, o.Dict)
	r := decompress(ro, in, c.R.Ch, len(content)+100, tr, flate.CaptureHeader(&one))
	if err := r.expectClean("decompressing", content); err != nil {
		return err
	}
	if len(got) != len(want) {
		return fmt.Errorf("%d header events, want %d", len(got), len(want))
	}
	for i := range got {
		if err := sameHeader(got[i], want[i], texts[i]); err != nil {
			return fmt.Errorf("header of stream %d by the decompressor: %w", i, err)
		}
	}
	if err := sameHeader(one, want[len(want)-1], texts[len(want)-1]); err != nil {
		return fmt.Errorf("header by CaptureHeader: %w", err)
	}
	// by the standard library
	if o.dict() == nil {
		br := bytes.NewReader(in)
		for i := range want {
			z, err := gzip.NewReader(br)
			if err != nil {
				return fmt.Errorf("standard library: stream %d: %w", i, err)
			}
			z.Multistream(false)
			h := want[i]
			if z.Name != latin1(h.Name) || z.Comment != latin1(h.Comm) {
				return fmt.Errorf("standard library: stream %d: name %q comment %q, want %q %q", i, z.Name, z.Comment, h.Name, h.Comm)
			}
			if h.HasT && h.Sec != 0 && z.ModTime.Unix() != h.Sec {
				return fmt.Errorf("standard library: stream %d: time %v, want %d", i, z.ModTime, h.Sec)
			}
			x := h.header().ExtraData
			if !bytes.Equal(z.Extra, refExtra(x.Records)) {
				return fmt.Errorf("standard library: stream %d: extra %x", i, z.Extra)
			}
			if h.OS != 0 && z.OS != osBytes[flate.OSType(h.OS)] {
				return fmt.Errorf("standard library: stream %d: OS byte %d for %v", i, z.OS, flate.OSType(h.OS))
			}
			if _, err := io.Copy(io.Discard, z); err != nil {
				return fmt.Errorf("standard library: stream %d: %w", i, err)
			}
		}
	}
	for i, h := range want {
		cov.ClassIf(len(h.Name) > 0, "names")
		cov.ClassIf(len(h.Name) == 255 || len(h.Comm) == 255, "names or comments of 255 bytes")
		cov.ClassIf(h.extraLen() > 60000, "extra data over 60000 bytes")
		cov.ClassIf(texts[i], "text")
		cov.ClassIf(i > 0 && texts[i] != texts[i-1] && h.DT == 0, "classification changes between streams")
		cov.Nontrivial(len(h.Name)+len(h.Comm)+h.extraLen() > 0 || h.HasT)
	}
	return nil
}

func describeHdr(h Hdr) string {
	return fmt.Sprintf("name %d bytes, comment %d bytes, time %v/%d, OS %d, extra %d bytes", len(h.Name), len(h.Comm), h.HasT, h.Sec, h.OS, h.extraLen())
}

// refRecords splits an extra field into its leading whole records.
func refRecords(b []byte) (out []flate.ExtraDataRecord) {
	for len(b) >= 4 {
		n := int(b[2]) | int(b[3])<<8
		if len(b) < 4+n {
			break
		}
		out = append(out, flate.ExtraDataRecord{ID: [2]byte{b[0], b[1]}, Bytes: b[4 : 4+n]})
		b = b[4+n:]
	}
	return
}

func refExtra(rs []flate.ExtraDataRecord) []byte {
	var out []byte
	for _, r := range rs {
		out = append(out, r.ID[0], r.ID[1], byte(len(r.Bytes)), byte(len(r.Bytes)>>8))
		out = append(out, r.Bytes...)
	}
	return out
}

func init() {
	reg("C12", "own", "sequences of SetHeader (representable and not) and streams; headers are read back by the reference, this decompressor and compress/gzip; non-trivial: a name, comment, time or extra data set", 15000, 180000, func(t *rapid.T) *HdrCase {
		c := &HdrCase{O: genWOpts(t), R: genDecOpts(t)}
		c.O.F = int(ref.Gzip)
		n := uni(t, 1, 4, "nsteps")
		for i := 0; i < n; i++ {
			s := HdrStep{Data: []Seg{{K: pick(t, "hk", "text", "text", "rand", "run"), A: pick(t, "ha", 256, int('a'), 0), N: pick(t, "hn", 0, 1, 5, 100, 5000, 20000), S: rapid.Uint64().Draw(t, "hs")}}}
			if s.Data[0].K == "text" && pct(t, 30, "late") {
				// binary only after a while
				s.Data = append(s.Data, Seg{K: "run", A: 0, N: 3})
			} else if s.Data[0].K == "text" && pct(t, 40, "border byte") {
				// a byte at the edge of what counts as text
				b := Seg{K: "run", A: pick(t, "bb", 8, 9, 13, 14, 31, 32, 126, 127, 128, 255), N: 1}
				if pct(t, 50, "bfirst") {
					s.Data = append([]Seg{b}, s.Data...)
				} else {
					s.Data = append(s.Data, b)
				}
			}
			s.Cut = pick(t, "cut", 0, 1, 7, 512, 4096)
			if len(s.Data) > 0 && s.Data[0].N > 5000 && s.Cut < 7 {
				s.Cut = 100
			}
			for j := pick(t, "nset", 0, 1, 1, 1, 2, 3); j > 0; j-- {
				h := genHdr(t)
				if pct(t, 40, "spoilit") {
					h = spoil(t, h)
				}
				s.Set = append(s.Set, h)
			}
			if pct(t, 15, "mid") {
				h := genHdr(t)
				s.Mid = &h
			}
			c.Steps = append(c.Steps, s)
		}
		c.Reset = pick(t, "reset", 0, 0, 0, 1, 2)
		return c
	}, checkHeaders)

	reg("C12", "foreign", "gzip headers with any combination of optional fields, any names, extra fields and OS bytes; non-trivial: at least one optional field", 18000, 216000, func(t *rapid.T) *DecCase {
		c := genDec(t, ref.Gzip, 0, 3, false)
		for i := range c.C.S {
			c.C.S[i].Blocks = c.C.S[i].Blocks[:1]
			c.C.S[i].H = genHdrSpec(t, ref.Gzip)
			c.C.S[i].H.OS = pick(t, "os", c.C.S[i].H.OS, uni(t, 0, 255, "osu"))
			c.C.S[i].H.MTIME = uint32(rapid.Uint64().Draw(t, "mt")) >> uint(pick(t, "ms", 0, 1, 31, 32))
		}
		return c
	}, func(c *DecCase, cov *Cov) error {
		b := c.C.build()
		ro := c.ropts()
		res := refOK(b.In, ro.refOptions(), b.Content)
		var got []flate.Header
		tr := flate.TracerFunc(func(e flate.Event) {
			if e.Type == flate.StreamHeaderEvent {
				got = append(got, *e.Header)
			}
		})
		r := decompress(ro, b.In, c.Ch, len(b.Content)+100, tr)
		if err := r.expectClean("decompressing", b.Content); err != nil {
			return err
		}
		if len(got) != len(res.Streams) {
			return fmt.Errorf("%d header events for %d streams", len(got), len(res.Streams))
		}
		for i, s := range res.Streams {
			h, g := s.Hdr, got[i]
			bad := func(f string, a, b any) error {
				return fmt.Errorf("stream %d: %s reported as %v, is %v", i, f, a, b)
			}
			if g.FileName != string(h.Name) {
				return bad("file name", g.FileName, h.Name)
			}
			if g.Comment != string(h.Comment) {
				return bad("comment", g.Comment, h.Comment)
			}
			if h.MTIME == 0 && !g.LastModified.IsZero() || h.MTIME != 0 && g.LastModified.Unix() != int64(h.MTIME) {
				return bad("modification time", g.LastModified, h.MTIME)
			}
			want := flate.BinaryData
			if h.FTEXT {
				want = flate.TextData
			}
			if g.DataType != want {
				return bad("data type", g.DataType, want)
			}
			os := flate.OSTypeUnknown
			for k, v := range osBytes {
				if v == h.OS {
					os = k
				}
			}
			if g.OSType != os {
				return bad("OS", g.OSType, os)
			}
			lv := flate.DefaultCompression
			if h.XFL == 2 {
				lv = 9
			} else if h.XFL == 4 {
				lv = 1
			}
			if g.CompressLevel != lv {
				return bad("compression level", g.CompressLevel, lv)
			}
			rec := refRecords(h.Extra)
			if len(rec) != len(g.ExtraData.Records) {
				return bad("extra data", g.ExtraData.Records, rec)
			}
			for j := range rec {
				if rec[j].ID != g.ExtraData.Records[j].ID || !bytes.Equal(rec[j].Bytes, g.ExtraData.Records[j].Bytes) {
					return bad("extra data record", g.ExtraData.Records[j], rec[j])
				}
			}
			cov.Nontrivial(h.FEXTRA || h.FNAME || h.FCOMMENT || h.FHCRC || h.MTIME != 0)
			cov.ClassIf(h.FHCRC, "with header CRC")
			cov.ClassIf(h.FHCRC && crc32.ChecksumIEEE(b.In[s.Start:s.Start+h.Len-2])>>16 != 0, "CRC wider than 16 bits")
			cov.ClassIf(len(h.Name) > 255, "names over 255 bytes")
			cov.ClassIf(len(h.Extra) > 1000, "extra over 1000 bytes")
		}
		return nil
	})
}
