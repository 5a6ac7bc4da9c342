package main

import (
	"encoding/json"
	"fmt"
	"strconv"
	"strings"

	"pgregory.net/rapid"

	flate "github.com/chronos-tachyon/flate"

	"flateverif/ref"
)

// EnumCase is one value of one type, or one string to parse as one type.
type EnumCase struct {
	T string // type
	V int    // value
	S string `json:",omitempty"`
	P bool   // parse S
}

type enumType struct {
	name    string
	lo, hi  int // valid range
	bits    int
	signed  bool
	def     int
	names   []string // text forms from lo on; nil: numbers
	goNames []string
	holes   func(int) bool
	asNum   bool // JSON number
	valid   func(int) bool
	str     func(int) string
	gostr   func(int) string
	json    func(int) ([]byte, error)
	parse   func(start int, s string) (int, error)
	aliases map[string]int
	consts  map[string]int // the named constants of a numeric type
}

// goValue is the value that a Go expression for a numeric type denotes.
func (e *enumType) goValue(g string) (int, bool) {
	g = strings.TrimPrefix(g, "flate.")
	if v, ok := e.consts[g]; ok {
		return v, true
	}
	h, ok := strings.CutPrefix(g, e.name+"(")
	if !ok {
		return 0, false
	}
	h, ok = strings.CutSuffix(h, ")")
	v, err := strconv.ParseInt(h, 0, 16)
	return int(v), ok && err == nil
}

type enumLike interface {
	fmt.Stringer
	fmt.GoStringer
	json.Marshaler
}

func enumOps[T any, P interface {
	*T
	Parse(string) error
}](e *enumType, conv func(int) T, back func(T) int) {
	e.parse = func(start int, s string) (int, error) {
		v := conv(start)
		err := P(&v).Parse(s)
		return back(v), err
	}
}

func enumBase[T enumLike](e *enumType, conv func(int) T) *enumType {
	e.str = func(i int) string { return conv(i).String() }
	e.gostr = func(i int) string { return conv(i).GoString() }
	e.json = func(i int) ([]byte, error) { return json.Marshal(conv(i)) }
	return e
}

func numNames(first string, lo, hi int) (out []string) {
	out = append(out, first)
	for i := lo; i <= hi; i++ {
		out = append(out, strconv.Itoa(i))
	}
	return
}

var enumTypes = func() map[string]*enumType {
	m := map[string]*enumType{}
	add := func(e *enumType) { m[e.name] = e }

	e := enumBase(&enumType{name: "Format", hi: 3, names: []string{"auto", "raw", "zlib", "gzip"}, goNames: []string{"DefaultFormat", "RawFormat", "ZlibFormat", "GZIPFormat"}, aliases: map[string]int{"default": 0}}, func(i int) flate.Format { return flate.Format(i) })
	enumOps[flate.Format](e, func(i int) flate.Format { return flate.Format(i) }, func(v flate.Format) int { return int(v) })
	e.valid = func(i int) bool { return flate.Format(i).IsValid() }
	add(e)

	e = enumBase(&enumType{name: "Strategy", hi: 3, names: []string{"default", "huffman-only", "huffman-rle", "fixed"}, goNames: []string{"DefaultStrategy", "HuffmanOnlyStrategy", "HuffmanRLEStrategy", "FixedStrategy"}}, func(i int) flate.Strategy { return flate.Strategy(i) })
	enumOps[flate.Strategy](e, func(i int) flate.Strategy { return flate.Strategy(i) }, func(v flate.Strategy) int { return int(v) })
	e.valid = func(i int) bool { return flate.Strategy(i).IsValid() }
	add(e)

	e = enumBase(&enumType{name: "CompressLevel", lo: -1, hi: 9, signed: true, def: -1, names: append([]string{"default", "none"}, numNames("1", 2, 9)...), asNum: true}, func(i int) flate.CompressLevel { return flate.CompressLevel(i) })
	e.aliases = map[string]int{"0": 0}
	e.consts = map[string]int{"DefaultCompression": -1, "NoCompression": 0, "FastestCompression": 1, "BestCompression": 9}
	enumOps[flate.CompressLevel](e, func(i int) flate.CompressLevel { return flate.CompressLevel(i) }, func(v flate.CompressLevel) int { return int(v) })
	e.valid = func(i int) bool { return flate.CompressLevel(i).IsValid() }
	add(e)

	e = enumBase(&enumType{name: "MemoryLevel", hi: 9, names: numNames("default", 1, 9), asNum: true}, func(i int) flate.MemoryLevel { return flate.MemoryLevel(i) })
	e.aliases = map[string]int{"0": 0}
	e.consts = map[string]int{"DefaultMemory": 0, "SmallestMemory": 1, "FastestMemory": 9}
	enumOps[flate.MemoryLevel](e, func(i int) flate.MemoryLevel { return flate.MemoryLevel(i) }, func(v flate.MemoryLevel) int { return int(v) })
	e.valid = func(i int) bool { return flate.MemoryLevel(i).IsValid() }
	add(e)

	e = enumBase(&enumType{name: "WindowBits", hi: 15, names: append([]string{"default", "", "", "", "", "", "", ""}, numNames("8", 9, 15)...), holes: func(i int) bool { return i >= 1 && i <= 7 }, asNum: true}, func(i int) flate.WindowBits { return flate.WindowBits(i) })
	e.consts = map[string]int{"DefaultWindowBits": 0, "MinWindowBits": 8, "MaxWindowBits": 15}
	enumOps[flate.WindowBits](e, func(i int) flate.WindowBits { return flate.WindowBits(i) }, func(v flate.WindowBits) int { return int(v) })
	e.valid = func(i int) bool { return flate.WindowBits(i).IsValid() }
	add(e)

	e = enumBase(&enumType{name: "Method", hi: 0, goNames: []string{"DeflateMethod"}, names: []string{"deflate"}}, func(i int) flate.Method { return flate.Method(i) })
	e.valid = func(i int) bool { return flate.Method(i).IsValid() }
	add(e)

	e = enumBase(&enumType{name: "OSType", hi: maxOSType,
		goNames: []string{"OSTypeUnknown", "OSTypeFAT", "OSTypeAmiga", "OSTypeVMS", "OSTypeUnix", "OSTypeVMCMS", "OSTypeAtariTOS", "OSTypeHPFS", "OSTypeMacintosh", "OSTypeZSystem", "OSTypeCPM", "OSTypeTOPS20", "OSTypeNTFS", "OSTypeQDOS", "OSTypeAcornRISCOS"},
		names:   []string{"unknown", "FAT filesystem", "Amiga", "VMS", "Unix", "VM/CMS", "Atari TOS", "HPFS filesystem", "Macintosh", "Z-System", "CP/M", "TOPS-20", "NTFS filesystem", "QDOS", "Acorn RISCOS"}}, func(i int) flate.OSType { return flate.OSType(i) })
	e.valid = func(i int) bool { return flate.OSType(i).IsValid() }
	add(e)

	e = enumBase(&enumType{name: "DataType", hi: 2, goNames: []string{"UnknownData", "BinaryData", "TextData"}, names: []string{"unknown", "binary", "text"}}, func(i int) flate.DataType { return flate.DataType(i) })
	e.valid = func(i int) bool { return flate.DataType(i).IsValid() }
	add(e)

	e = enumBase(&enumType{name: "EventType", hi: int(flate.StreamCloseEvent), goNames: []string{"StreamBeginEvent", "StreamHeaderEvent", "BlockBeginEvent", "BlockTreesEvent", "BlockEndEvent", "StreamEndEvent", "StreamCloseEvent"},
		names: []string{"stream-begin", "stream-header", "block-begin", "block-trees", "block-end", "stream-end", "stream-close"}}, func(i int) flate.EventType { return flate.EventType(i) })
	add(e)

	e = enumBase(&enumType{name: "BlockType", hi: 3, goNames: []string{"InvalidBlock", "StoredBlock", "StaticBlock", "DynamicBlock"}, names: []string{"invalid", "stored", "static", "dynamic"}}, func(i int) flate.BlockType { return flate.BlockType(i) })
	add(e)

	e = enumBase(&enumType{name: "FlushType", hi: int(flate.FinishFlush), goNames: []string{"BlockFlush", "PartialFlush", "SyncFlush", "FullFlush", "FinishFlush"}, names: []string{"block", "partial", "sync", "full", "finish"}}, func(i int) flate.FlushType { return flate.FlushType(i) })
	e.valid = func(i int) bool { return flate.FlushType(i).IsValid() }
	add(e)
	return m
}()

// namedConsts are the constants of the numeric types, as they are compiled.
var namedConsts = map[string]int{
	"DefaultCompression": int(flate.DefaultCompression), "NoCompression": int(flate.NoCompression), "FastestCompression": int(flate.FastestCompression), "BestCompression": int(flate.BestCompression),
	"DefaultMemory": int(flate.DefaultMemory), "SmallestMemory": int(flate.SmallestMemory), "FastestMemory": int(flate.FastestMemory),
	"DefaultWindowBits": int(flate.DefaultWindowBits), "MinWindowBits": int(flate.MinWindowBits), "MaxWindowBits": int(flate.MaxWindowBits),
}

func (e *enumType) inRange(v int) bool {
	return v >= e.lo && v <= e.hi && (e.holes == nil || !e.holes(v))
}

func (e *enumType) text(v int) string { return e.names[v-e.lo] }

func recase(s string, seed uint64) string {
	r := ref.Rng(seed)
	return strings.Map(func(c rune) rune {
		switch {
		case c >= 'a' && c <= 'z' && r.Pct(50):
			return c - 32
		case c >= 'A' && c <= 'Z' && r.Pct(50):
			return c + 32
		}
		return c
	}, s)
}

func checkEnum(c *EnumCase, cov *Cov) error {
	e := enumTypes[c.T]
	must(e != nil, "enum type")
	if c.P {
		return checkParse(e, c, cov)
	}
	ok := e.inRange(c.V)
	if e.valid != nil {
		if got := e.valid(c.V); got != ok {
			return fmt.Errorf("%s(%d).IsValid() is %v", e.name, c.V, got)
		}
	}
	if !ok {
		cov.Class("out of range")
		cov.Nontrivial(true)
		return nil
	}
	s, g := e.str(c.V), e.gostr(c.V)
	if s != e.text(c.V) {
		return fmt.Errorf("%s(%d) has the text form %q, want %q", e.name, c.V, s, e.text(c.V))
	}
	if e.goNames != nil && g != e.goNames[c.V-e.lo] {
		return fmt.Errorf("%s(%d) has the Go name %q, want %q", e.name, c.V, g, e.goNames[c.V-e.lo])
	}
	if e.consts != nil {
		if v, ok := e.goValue(g); !ok || v != c.V {
			return fmt.Errorf("%s(%d) has the Go form %q", e.name, c.V, g)
		}
		for name, v := range e.consts {
			if got := namedConsts[name]; got != v {
				return fmt.Errorf("%s is %d, want %d", name, got, v)
			}
		}
	}
	j, err := e.json(c.V)
	if err != nil {
		return fmt.Errorf("%s(%d) does not marshal: %w", e.name, c.V, err)
	}
	if e.asNum {
		var n int
		if err := json.Unmarshal(j, &n); err != nil || n != c.V {
			return fmt.Errorf("%s(%d) marshals to %s", e.name, c.V, j)
		}
	} else {
		var t string
		if err := json.Unmarshal(j, &t); err != nil || t != s && t != g {
			return fmt.Errorf("%s(%d), text form %q, marshals to %s", e.name, c.V, s, j)
		}
	}
	// inside another value
	if w, err := json.Marshal(map[string]any{"x": json.RawMessage(j)}); err != nil || !json.Valid(w) {
		return fmt.Errorf("%s(%d) marshals to invalid JSON %q", e.name, c.V, j)
	}
	if e.parse != nil {
		for seed := uint64(0); seed < 8; seed++ {
			t := s
			switch seed {
			case 0:
			case 1:
				t = strings.ToUpper(s)
			case 2:
				t = strings.ToLower(s)
			default:
				t = recase(s, seed)
			}
			start := e.hi
			if c.V == e.hi {
				start = e.lo
			}
			v, err := e.parse(start, t)
			if err != nil || v != c.V {
				return fmt.Errorf("parsing %q, a text form of %s(%d), gave %d, %v", t, e.name, c.V, v, err)
			}
		}
	}
	cov.Class("values of " + e.name)
	cov.Nontrivial(true)
	return nil
}

func checkParse(e *enumType, c *EnumCase, cov *Cov) error {
	v, err := e.parse(c.V, c.S)
	if err != nil {
		if v != e.def {
			return fmt.Errorf("parsing %q as %s failed (%v) and left %d, not the default %d", c.S, e.name, err, v, e.def)
		}
		if strings.TrimSpace(err.Error()) == "" {
			return fmt.Errorf("parsing %q as %s failed with an empty message", c.S, e.name)
		}
		// must it have been accepted?
		for i := e.lo; i <= e.hi; i++ {
			if e.inRange(i) && strings.EqualFold(c.S, e.text(i)) {
				return fmt.Errorf("parsing %q as %s failed (%v); it is the text form of %d", c.S, e.name, err, i)
			}
		}
		cov.Class("rejected strings")
		cov.Nontrivial(true)
		return nil
	}
	if !e.inRange(v) {
		return fmt.Errorf("parsing %q as %s gave the invalid value %d", c.S, e.name, v)
	}
	ok := strings.EqualFold(c.S, e.text(v)) || strings.EqualFold(c.S, e.gostr(v))
	if a, have := e.aliases[strings.ToLower(c.S)]; have && a == v {
		ok = true
	}
	if n, perr := strconv.Atoi(c.S); perr == nil && e.asNum && n == v && c.S[0] == '0' && strings.Trim(c.S, "0123456789") == "" {
		ok = true // leading zeros
		cov.Class("leading zeros")
	}
	if !ok {
		return fmt.Errorf("parsing %q as %s gave %d (%s) instead of an error", c.S, e.name, v, e.str(v))
	}
	cov.Class("accepted strings")
	cov.Nontrivial(true)
	return nil
}

var parsed = []string{"Format", "Strategy", "CompressLevel", "MemoryLevel", "WindowBits"}

func genParse(t *rapid.T) *EnumCase {
	c := &EnumCase{T: parsed[uni(t, 0, len(parsed)-1, "type")], P: true}
	e := enumTypes[c.T]
	c.V = uni(t, e.lo, e.hi, "start")
	// some valid text, of this type or another
	src := e
	if pct(t, 20, "other") {
		src = enumTypes[parsed[uni(t, 0, len(parsed)-1, "otype")]]
	}
	s := src.names[uni(t, 0, len(src.names)-1, "name")]
	if src.goNames != nil && pct(t, 10, "goname") {
		s = src.goNames[uni(t, 0, len(src.goNames)-1, "gn")]
	}
	switch uni(t, 0, 9, "how") {
	case 0:
		s = recase(s, rapid.Uint64().Draw(t, "case"))
	case 1: // one character changed
		b := []byte(s)
		if len(b) > 0 {
			b[uni(t, 0, len(b)-1, "at")] = byte(uni(t, 0, 255, "ch"))
		}
		s = string(b)
	case 2: // removed
		if len(s) > 0 {
			i := uni(t, 0, len(s)-1, "at")
			s = s[:i] + s[i+1:]
		}
	case 3: // inserted
		i := uni(t, 0, len(s), "at")
		s = s[:i] + pick(t, "ins", " ", "\x00", "-", "+", "0", "1", "_", ".", "x", "\n", "\t", "é", "9") + s[i:]
	case 4, 5, 6: // numbers
		n := pick(t, "num", int64(uni(t, -20, 300, "n")), int64(uni(t, 0, 20, "n")), 256+int64(uni(t, 0, 15, "n")), 65536+int64(uni(t, 0, 15, "n")), 1<<32+int64(uni(t, 0, 15, "n")), -int64(uni(t, 1, 300, "n")), 1<<62)
		f := pick(t, "fmt", "%d", "%d", "%d", "%+d", "%02d", "%03d", "%x", "0x%x", "%#o", "%b", "%d.0", " %d", "%d ", "%de0")
		s = fmt.Sprintf(f, n)
	case 7:
		s = string(genBytes(t, 12, "any"))
	case 8:
		s = pick(t, "word", "", "DEFAULT", "best", "fast", "fastest", "none", "NONE", "None", "nil", "deflate", "zip", "auto", "Auto", "null", "true", "-", "18446744073709551616", "18446744073709551615", "1e1", "١", "⁹", "９", "huffman_only", "huffmanonly", "rle", "ﬁxed", "zl\u0131b", "defau\u017ft")
	case 9:
	}
	c.S = strings.ToValidUTF8(s, "\ufffd")
	return c
}

// SumJSONCase is a checksum, and a list of sizes.
type SumJSONCase struct {
	V uint32
	L []byte `json:",omitempty"`
}

func checkSumJSON(c *SumJSONCase, cov *Cov) error {
	s := flate.Checksum32(c.V)
	j, err := json.Marshal(s)
	if err != nil || !json.Valid(j) {
		return fmt.Errorf("checksum %08x marshals to %s, %v", c.V, j, err)
	}
	for _, old := range []flate.Checksum32{0, ^s} {
		got := old
		if err := json.Unmarshal(j, &got); err != nil || got != s {
			return fmt.Errorf("checksum %08x marshals to %s, which unmarshals to %08x, %v", c.V, j, uint32(got), err)
		}
	}
	str := s.String()
	h := strings.TrimPrefix(strings.ToLower(str), "0x")
	if v, err := strconv.ParseUint(h, 16, 64); err != nil || v != uint64(c.V) {
		return fmt.Errorf("checksum %08x has the text form %q", c.V, str)
	}
	w, err := json.Marshal(flate.FooterEvent{Adler32: s, CRC32: s + 1})
	if err != nil {
		return err
	}
	var f flate.FooterEvent
	if err := json.Unmarshal(w, &f); err != nil || f.Adler32 != s || f.CRC32 != s+1 {
		return fmt.Errorf("a footer with checksums %08x and %08x marshals to %s, which unmarshals to %v, %v", c.V, c.V+1, w, f, err)
	}
	l := flate.SizeList(c.L)
	j, err = json.Marshal(l)
	if err != nil {
		return fmt.Errorf("size list %v does not marshal: %w", c.L, err)
	}
	var arr []int
	if err := json.Unmarshal(j, &arr); err != nil {
		return fmt.Errorf("size list %v marshals to %s: %w", c.L, j, err)
	}
	same := len(arr) == len(c.L)
	for i := 0; same && i < len(arr); i++ {
		same = arr[i] == int(c.L[i])
	}
	if !same || c.L != nil && j[0] != '[' {
		return fmt.Errorf("size list %v marshals to %s", c.L, j)
	}
	cov.ClassIf(c.V>>24 == 0, "leading zeros")
	cov.ClassIf(len(c.L) > 0, "size lists")
	cov.Nontrivial(true)
	return nil
}

func init() {
	regEnum("C24", "values", "every value of every enumeration type (and every out-of-range value of its underlying type): validity, text form, Go name, JSON, parsing in eight letter cases; non-trivial: all", func(yield func(*EnumCase) bool) {
		for name, e := range enumTypes {
			lo, hi := 0, 255
			if e.signed {
				lo, hi = -128, 127
			}
			for v := lo; v <= hi; v++ {
				if !yield(&EnumCase{T: name, V: v}) {
					return
				}
			}
		}
	}, checkEnum)
	reg("C24", "strings", "strings near text forms (changed, removed, inserted characters, letter cases, text of other types, numbers in many notations, arbitrary strings) parsed as each type, over every earlier value; non-trivial: all", 3200000, 38400000, genParse, checkEnum)
	reg("C24", "checksums", "checksums (random, small, sparse bits) and code-length lists to JSON and back; non-trivial: all", 1600000, 19200000, func(t *rapid.T) *SumJSONCase {
		c := &SumJSONCase{V: uint32(rapid.Uint64().Draw(t, "v"))}
		switch uni(t, 0, 4, "how") {
		case 0:
			c.V >>= uint(uni(t, 0, 32, "sh"))
		case 1:
			c.V = 1<<uint(uni(t, 0, 31, "k")) - uint32(uni(t, 0, 1, "d"))
		case 2:
			c.V = ^uint32(uni(t, 0, 300, "d"))
		}
		if pct(t, 50, "list") {
			c.L = genBytes(t, 300, "list")
		}
		return c
	}, checkSumJSON)
}
