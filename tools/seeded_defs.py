STD = ["bytes", "compress/flate", "compress/gzip", "compress/zlib", "errors", "fmt", "io", "testing"]

def HELPERS(imports):
    imps = "\n".join(f'\t"{i}"' if '"' not in i else "\t" + i for i in sorted(set(STD + imports)))
    return f'''package flate_test

import (
{imps}

	vf "github.com/chronos-tachyon/flate"
)

var _ = errors.New
var _ = fmt.Sprint

func gz(f vf.Format, data []byte, opts ...vf.Option) []byte {{
	var b bytes.Buffer
	w := vf.NewWriter(&b, append([]vf.Option{{vf.WithFormat(f)}}, opts...)...)
	if _, err := w.Write(data); err != nil {{
		panic(err)
	}}
	if err := w.Close(); err != nil {{
		panic(err)
	}}
	return b.Bytes()
}}

func rd(f vf.Format, in []byte, opts ...vf.Option) ([]byte, error) {{
	r := vf.NewReader(bytes.NewReader(in), append([]vf.Option{{vf.WithFormat(f)}}, opts...)...)
	defer r.Close()
	return io.ReadAll(r)
}}

func stdgz(data []byte) []byte {{
	var b bytes.Buffer
	w := gzip.NewWriter(&b)
	w.Write(data)
	w.Close()
	return b.Bytes()
}}

func stdzlib(data, dict []byte) []byte {{
	var b bytes.Buffer
	w, _ := zlib.NewWriterLevelDict(&b, 6, dict)
	w.Write(data)
	w.Close()
	return b.Bytes()
}}

func unflate(in []byte, dict []byte) ([]byte, error) {{
	return io.ReadAll(flate.NewReaderDict(bytes.NewReader(in), dict))
}}

// text is n bytes of compressible pseudo-random text.
func text(n int, seed uint32) []byte {{
	words := [...]string{{"alpha", "beta", "gamma", "delta", " ", "epsilon", "the", "of", "\\n", "zeta"}}
	var b []byte
	for len(b) < n {{
		seed = seed*1664525 + 1013904223
		b = append(b, words[seed>>16%uint32(len(words))]...)
		if seed>>28 == 0 {{
			b = append(b, byte(seed>>8))
		}}
	}}
	return b[:n]
}}

func noise(n int, seed uint32) []byte {{
	b := make([]byte, n)
	for i := range b {{
		seed = seed*1664525 + 1013904223
		b[i] = byte(seed >> 24)
	}}
	return b
}}
'''

DEFS = []
def D(**k): DEFS.append(k)

D(id="full-flush-keeps-dictionary", property="C09",
  edits=[("writer.go", """		if !writeStoredBlock(fw, nil, false) {
			return false
		}
		fw.hybrid.WindowClear()
""", """		if !writeStoredBlock(fw, nil, false) {
			return false
		}
		fw.hybrid.WindowClear()
		if fw.dict != nil {
			fw.hybrid.SetWindow(fw.dict)
		}
""")],
  needs="a preset dictionary, a full flush in the middle of a stream, and data after it that matches the dictionary",
  breaks="after a full flush the compressor refers to the preset dictionary as if it directly preceded the data; the output decodes to other bytes or not at all, and what follows the flush is not independent",
  demo='''
func TestDemo(t *testing.T) {
	dict := text(3000, 1)
	data := append(text(2000, 2), dict...)
	var b bytes.Buffer
	w := vf.NewWriter(&b, vf.WithFormat(vf.RawFormat), vf.WithDictionary(dict))
	w.Write(data[:2000])
	w.Flush(vf.FullFlush)
	w.Write(data[2000:])
	w.Close()
	got, err := unflate(b.Bytes(), dict)
	if err != nil || !bytes.Equal(got, data) {
		t.Fatalf("demo: %v, %d bytes, equal %v", err, len(got), bytes.Equal(got, data))
	}
}
''')

D(id="isize-of-all-streams", property="C02",
  edits=[("writer.go", "uint32(fw.inputBytesStream))\n	return ok1", "uint32(fw.inputBytesTotal))\n	return ok1")],
  needs="gzip format, and a second stream on the same writer after a finish flush",
  breaks="the length in the gzip trailer of every stream but the first counts the earlier streams too",
  demo='''
func TestDemo(t *testing.T) {
	var b bytes.Buffer
	w := vf.NewWriter(&b, vf.WithFormat(vf.GZIPFormat))
	w.Write([]byte("first"))
	w.Flush(vf.FinishFlush)
	w.Write([]byte("second"))
	w.Close()
	r, err := gzip.NewReader(&b)
	if err != nil {
		t.Fatal("demo:", err)
	}
	got, err := io.ReadAll(r)
	if err != nil || string(got) != "firstsecond" {
		t.Fatalf("demo: %q %v", got, err)
	}
}
''')

D(id="no-repeat-across-trees", property="C03",
  edits=[("reader.go", """		i, ok = fr.decodeX(sym, combinedLengths, i, total)
""", """		limit := total
		if i < numLL {
			limit = numLL
		}
		i, ok = fr.decodeX(sym, combinedLengths, i, limit)
""")],
  needs="a dynamic block whose run-length coded code lengths repeat across the border between the literal/length and distance codes",
  breaks="a conforming stream is rejected as corrupt",
  demo='''
type bw struct {
	b   []byte
	cur uint
	n   uint
}

func (w *bw) put(v, n uint) {
	for i := uint(0); i < n; i++ {
		w.cur |= (v >> i & 1) << w.n
		if w.n++; w.n == 8 {
			w.b, w.cur, w.n = append(w.b, byte(w.cur)), 0, 0
		}
	}
}

func TestDemo(t *testing.T) {
	// lengths: 0 x65, 'A'=2, 0 x189(138+51), 255..: 256=2, 257=2 (HLIT 1), distances 2,2,2 -> with 285? keep codes complete:
	// literal/length codes: 'A', 256, 257, 258 of length 2; distance codes: 4 codes of length 2.
	// the four lengths of 256.. are followed by four equal ones of the distance code: one repeat crosses the border.
	var w bw
	w.put(1, 1)
	w.put(2, 2)
	w.put(2, 5)  // HLIT: 259
	w.put(3, 5)  // HDIST: 4
	w.put(14, 4) // HCLEN: 18
	// code length code: symbols 2, 16, 18 and 0 with length 2
	order := []int{16, 17, 18, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1}
	for _, s := range order {
		if s == 16 || s == 18 || s == 0 || s == 2 {
			w.put(2, 3)
		} else {
			w.put(0, 3)
		}
	}
	// canonical: 0:00 2:01 16:10 18:11, written most significant bit first
	code := map[int]uint{0: 0, 2: 2, 16: 1, 18: 3}
	sym := func(s int) { w.put(code[s], 2) }
	sym(18)
	w.put(65-11, 7) // 0..64
	sym(2)          // 65
	sym(18)
	w.put(138-11, 7) // 66..203
	sym(18)
	w.put(52-11, 7) // 204..255
	sym(2)          // 256
	sym(16)
	w.put(6-3, 2) // 257, 258, and distances 0..3
	// 'A'=00 256=01 257=10 258=11; distance 0 = 00
	w.put(0, 2) // A
	w.put(1, 2) // length 3
	w.put(0, 2) // distance 1
	w.put(2, 2) // end
	w.put(0, 7)
	got, err := rd(vf.RawFormat, w.b)
	if want, werr := unflate(w.b, nil); werr != nil || string(want) != "AAAA" {
		t.Skip("the demonstration itself is wrong:", want, werr)
	}
	if err != nil || string(got) != "AAAA" {
		t.Fatalf("demo: %q %v", got, err)
	}
}
''')

D(id="empty-stored-unchecked", property="C04",
  edits=[("reader.go", """	len1, ok := fr.inputBufferReadU16(binary.LittleEndian)
	if !ok {
		fr.propagateError(true)
		return false
	}

	if len1 != ^len0 {""", """	len1, ok := fr.inputBufferReadU16(binary.LittleEndian)
	if !ok {
		fr.propagateError(true)
		return false
	}

	if len0 == 0 {
		return true
	}

	if len1 != ^len0 {""")],
  needs="a stored block of length zero whose complement is wrong",
  breaks="a mismatch of LEN and NLEN is accepted",
  demo='''
func TestDemo(t *testing.T) {
	_, err := rd(vf.RawFormat, []byte{0x01, 0, 0, 0xff, 0xfe})
	var ce vf.CorruptInputError
	if !errors.As(err, &ce) {
		t.Fatalf("demo: %v", err)
	}
}
''')

D(id="cut-in-isize-is-clean", property="C05",
  edits=[("reader.go", """	contentLen, ok := fr.inputBufferReadU32(binary.LittleEndian)
	if !ok {
		fr.propagateError(true)""", """	contentLen, ok := fr.inputBufferReadU32(binary.LittleEndian)
	if !ok {
		fr.propagateError(false)""")],
  needs="a gzip stream cut within the last four bytes of its trailer",
  breaks="the truncated stream ends cleanly with io.EOF",
  demo='''
func TestDemo(t *testing.T) {
	in := stdgz(text(1000, 3))
	for n := 1; n <= 4; n++ {
		if _, err := rd(vf.GZIPFormat, in[:len(in)-n]); err != io.ErrUnexpectedEOF {
			t.Fatalf("demo: cut by %d: %v", n, err)
		}
	}
}
''')

D(id="isize-zero-unchecked", property="C06",
  edits=[("reader.go", "	if contentLen != uint32(fr.outputBytesStream) {", "	if contentLen != 0 && contentLen != uint32(fr.outputBytesStream) {")],
  needs="a gzip trailer whose length field is zero while the content is not empty",
  breaks="a wrong stored length is not reported",
  demo='''
func TestDemo(t *testing.T) {
	in := stdgz(text(1000, 3))
	copy(in[len(in)-4:], []byte{0, 0, 0, 0})
	_, err := rd(vf.GZIPFormat, in)
	var ce vf.CorruptInputError
	if !errors.As(err, &ce) {
		t.Fatalf("demo: %v", err)
	}
}
''')

D(id="dictionary-for-first-stream-only", property="C07",
  edits=[("reader.go", """	fr.historyBytes = 0
	if fr.dict != nil {""", """	fr.historyBytes = 0
	if fr.dict != nil && fr.numStreams == 1 {""")],
  needs="a concatenation of at least two streams compressed with a preset dictionary",
  breaks="the dictionary is not applied to the second and later streams",
  demo='''
func TestDemo(t *testing.T) {
	dict := text(2000, 1)
	in := append(stdzlib(dict[100:700], dict), stdzlib(dict[300:900], dict)...)
	got, err := rd(vf.ZlibFormat, in, vf.WithDictionary(dict))
	want := append(append([]byte{}, dict[100:700]...), dict[300:900]...)
	if err != nil || !bytes.Equal(got, want) {
		t.Fatalf("demo: %v, %d bytes", err, len(got))
	}
}
''')

D(id="window-256-becomes-512", property="C08",
  edits=[("writer.go", """	switch {
	case fw.strategy == HuffmanOnlyStrategy:
		defaultOpts.WindowNumBits = 8""", """	if defaultOpts.WindowNumBits < 9 {
		defaultOpts.WindowNumBits = 9
	}
	switch {
	case fw.strategy == HuffmanOnlyStrategy:
		defaultOpts.WindowNumBits = 8""")],
  needs="a compressor with a window of 2^8 bytes and content that repeats at a distance between 257 and 512",
  breaks="matches reach beyond the configured and declared window",
  demo='''
func TestDemo(t *testing.T) {
	unit := noise(400, 9)
	data := append(append([]byte{}, unit...), unit...)
	in := gz(vf.ZlibFormat, data, vf.WithWindowBits(8))
	got, err := rd(vf.ZlibFormat, in, vf.WithWindowBits(8))
	if err != nil || !bytes.Equal(got, data) {
		t.Fatalf("demo: %v, %d bytes", err, len(got))
	}
}
''')

D(id="sync-flush-skips-marker-when-aligned", property="C09",
  edits=[("writer.go", """	case SyncFlush:
		if !writeStoredBlock(fw, nil, false) {
			return false
		}

	case FullFlush:""", """	case SyncFlush:
		if fw.obLen != 0 || fw.outputBytesStream == 0 {
			if !writeStoredBlock(fw, nil, false) {
				return false
			}
		}

	case FullFlush:""")],
  needs="a sync flush when the blocks before it happen to end on a byte (and accumulator) border, such as after stored blocks",
  breaks="the bytes delivered by a sync flush do not end with an empty stored block",
  demo='''
func TestDemo(t *testing.T) {
	var b bytes.Buffer
	w := vf.NewWriter(&b, vf.WithFormat(vf.RawFormat), vf.WithCompressLevel(0))
	w.Write(noise(100, 1))
	w.Flush(vf.SyncFlush)
	if !bytes.HasSuffix(b.Bytes(), []byte{0, 0, 0xff, 0xff}) {
		t.Fatalf("demo: % x", b.Bytes()[b.Len()-8:])
	}
}
''')

D(id="auto-detects-32k-zlib-only", property="C11",
  edits=[("reader.go", "	if (p[0]&0x0f) == 0x08 && (u16%31) == 0 {", "	if p[0] == 0x78 && (u16%31) == 0 {")],
  needs="a zlib stream that declares a window smaller than 32 KiB, read with no format selected",
  breaks="the stream is taken for raw DEFLATE",
  demo='''
func TestDemo(t *testing.T) {
	data := text(5000, 4)
	in := gz(vf.ZlibFormat, data, vf.WithWindowBits(12))
	got, err := rd(vf.DefaultFormat, in)
	if err != nil || !bytes.Equal(got, data) {
		t.Fatalf("demo: %v, %d bytes", err, len(got))
	}
}
''')

D(id="header-crc-not-restarted", property="C12",
  edits=[("writer.go", """	fw.outputBytesCRC32.Reset()

	var header [10]byte
""", """	if fw.numStreams <= 1 {
		fw.outputBytesCRC32.Reset()
	}

	var header [10]byte
""")],
  needs="gzip format and a second stream on the same writer",
  breaks="the header CRC of every stream but the first covers all earlier output",
  demo='''
func TestDemo(t *testing.T) {
	var b bytes.Buffer
	w := vf.NewWriter(&b, vf.WithFormat(vf.GZIPFormat))
	w.Write([]byte("first"))
	w.Flush(vf.FinishFlush)
	w.Write([]byte("second"))
	w.Close()
	got, err := rd(vf.GZIPFormat, b.Bytes())
	if err != nil || string(got) != "firstsecond" {
		t.Fatalf("demo: %q %v", got, err)
	}
}
''')

D(id="flush-einval-ignored", property="C13",
  edits=[("writer.go", "		if err := x.Flush(); err != nil {", "		if err := x.Flush(); err != nil && !isIgnoredSyncError(err) {")],
  needs="a destination whose Flush method (not Sync) fails with EINVAL",
  breaks="a failure of the destination's flush is not reported",
  imports=["syscall"],
  demo='''
type failFlush struct{ bytes.Buffer }

func (*failFlush) Flush() error { return fmt.Errorf("flush: %w", syscall.EINVAL) }

func TestDemo(t *testing.T) {
	w := vf.NewWriter(new(failFlush), vf.WithFormat(vf.GZIPFormat))
	w.Write([]byte("data"))
	err := w.Flush(vf.SyncFlush)
	if err == nil {
		_, err = w.Write([]byte("more"))
	}
	if err == nil {
		err = w.Close()
	}
	if !errors.Is(err, syscall.EINVAL) {
		t.Fatalf("demo: %v", err)
	}
}
''')

D(id="wrapped-eof-from-source", property="C14",
  edits=[("reader.go", "	if eofIsError && err == io.EOF {", "	if eofIsError && errors.Is(err, io.EOF) {"),
         ("reader.go", '	"encoding/binary"\n', '	"encoding/binary"\n	"errors"\n')],
  needs="a source failing inside a stream with an error that wraps io.EOF",
  breaks="the source's own error is replaced by io.ErrUnexpectedEOF",
  demo='''
type failing struct {
	r   io.Reader
	err error
}

func (f failing) Read(p []byte) (int, error) {
	n, err := f.r.Read(p)
	if err == io.EOF {
		err = f.err
	}
	return n, err
}

func TestDemo(t *testing.T) {
	in := stdgz(text(3000, 3))
	lost := fmt.Errorf("connection lost: %w", io.EOF)
	r := vf.NewReader(failing{bytes.NewReader(in[:200]), lost}, vf.WithFormat(vf.GZIPFormat))
	_, err := io.ReadAll(r)
	if !errors.Is(err, lost) {
		t.Fatalf("demo: %v", err)
	}
}
''')

D(id="second-read-after-error-is-eof", property="C15",
  edits=[("reader.go", """	if fr.outputBuffer.IsEmpty() {
		return 0, fr.outputError
	}

	nn, _""", """	if fr.outputBuffer.IsEmpty() {
		err := fr.outputError
		fr.outputError = io.EOF
		return 0, err
	}

	nn, _""")],
  needs="reading on after the final error was returned",
  breaks="the final error does not stick: it turns into a clean end of file",
  demo='''
func TestDemo(t *testing.T) {
	in := stdgz(text(3000, 3))
	r := vf.NewReader(bytes.NewReader(in[:len(in)-2]), vf.WithFormat(vf.GZIPFormat))
	io.ReadAll(r)
	for i := 0; i < 3; i++ {
		if n, err := r.Read(make([]byte, 10)); n != 0 || err != io.ErrUnexpectedEOF {
			t.Fatalf("demo: %d %v", n, err)
		}
	}
}
''')

D(id="reset-compares-buffer-size-only", property="C16",
  edits=[("writer.go", "	if !oldHO.Equal(newHO) {", "	if oldHO.BufferNumBits != newHO.BufferNumBits {")],
  needs="a Reset that changes the strategy or the window size but not the memory level",
  breaks="the reset compressor goes on with the previous window and match limits",
  demo='''
func TestDemo(t *testing.T) {
	data := text(20000, 5)
	var a, b bytes.Buffer
	w := vf.NewWriter(&a, vf.WithFormat(vf.RawFormat), vf.WithStrategy(vf.HuffmanOnlyStrategy))
	w.Write(data)
	w.Close()
	w.Reset(&b, vf.WithStrategy(vf.DefaultStrategy))
	w.Write(data)
	w.Close()
	if want := gz(vf.RawFormat, data); !bytes.Equal(b.Bytes(), want) {
		t.Fatalf("demo: %d bytes, a new writer gives %d", b.Len(), len(want))
	}
}
''')

D(id="reset-keeps-failed-input", property="C16",
  edits=[("writer.go", """	fw.hybrid.Clear()
	fw.output.Clear()
""", """	if fw.dict == nil {
		fw.hybrid.Clear()
	}
	fw.output.Clear()
""")],
  needs="a compressor with a preset dictionary, and a Reset without options after a failure which leaves input unprocessed",
  breaks="input of the failed stream is compressed into the next one, or is what its matches refer to",
  demo='''
type full struct{}

func (full) Write(p []byte) (int, error) { return 0, errors.New("full") }

func TestDemo(t *testing.T) {
	dict := text(300, 9)
	w := vf.NewWriter(full{}, vf.WithFormat(vf.ZlibFormat), vf.WithDictionary(dict), vf.WithCompressLevel(9))
	w.Write(text(40000, 1))
	if err := w.Close(); err == nil {
		t.Fatal("demo: no error")
	}
	for i := 0; i < 3; i++ {
		var b bytes.Buffer
		w.Reset(&b)
		data := text(3000, 1)
		w.Write(data)
		w.Close()
		r, err := zlib.NewReaderDict(bytes.NewReader(b.Bytes()), dict)
		if err != nil {
			t.Fatalf("demo: %v", err)
		}
		if got, err := io.ReadAll(r); err != nil || !bytes.Equal(got, data) {
			t.Fatalf("demo: %d bytes, %v", len(got), err)
		}
	}
}
''')

D(id="reset-keeps-unread-output", property="C17",
  edits=[("reader.go", """	fr.outputError = nil
	fr.outputBuffer.Clear()

	if len(opts) == 0 {""", """	fr.outputError = nil

	if len(opts) == 0 {""")],
  needs="a Reset after the whole input was decoded in the background but not all of it read",
  breaks="output of the previous source is returned for the new one",
  imports=["time"],
  demo='''
func TestDemo(t *testing.T) {
	for i := 0; i < 20; i++ {
		r := vf.NewReader(bytes.NewReader(stdgz([]byte("old content"))), vf.WithFormat(vf.GZIPFormat))
		r.Read(make([]byte, 1))
		time.Sleep(5 * time.Millisecond)
		r.Reset(bytes.NewReader(stdgz([]byte("new"))))
		if got, err := io.ReadAll(r); err != nil || string(got) != "new" {
			t.Fatalf("demo: %q %v", got, err)
		}
	}
}
''')

D(id="close-does-not-wake-producer", property="C18",
  edits=[("reader.go", """		fr.cv1.Broadcast()
		fr.cv2.Broadcast()
		fr.mu2.Unlock()

		fr.outputErrorWasSet = true""", """		fr.cv1.Broadcast()
		fr.mu2.Unlock()

		fr.outputErrorWasSet = true""")],
  needs="Close (or Reset) while the decoder waits for room in a full output buffer",
  breaks="Close never returns",
  imports=["time"],
  demo='''
func TestDemo(t *testing.T) {
	r := vf.NewReader(bytes.NewReader(stdgz(noise(3000000, 1))), vf.WithFormat(vf.GZIPFormat), vf.WithMemoryLevel(1))
	r.Read(make([]byte, 1))
	time.Sleep(100 * time.Millisecond)
	done := make(chan bool)
	go func() { r.Close(); close(done) }()
	select {
	case <-done:
	case <-time.After(20 * time.Second):
		t.Fatal("demo: Close did not return")
	}
}
''')

D(id="distance-count-untrimmed", property="C19",
  edits=[("writer.go", "DistanceCount:      uint16(numD),", "DistanceCount:      uint16(len(sD)),")],
  needs="a tracer on a compressor that emits a dynamic block",
  breaks="the number of distance codes in the trees event is not the one in the stream",
  demo='''
func TestDemo(t *testing.T) {
	var w, r []uint16
	rec := func(l *[]uint16) vf.Tracer {
		return vf.TracerFunc(func(e vf.Event) {
			if e.Trees != nil && e.Block.Type == vf.DynamicBlock {
				*l = append(*l, e.Trees.DistanceCount)
			}
		})
	}
	in := gz(vf.RawFormat, text(20000, 1), vf.WithTracers(rec(&w)))
	rd(vf.RawFormat, in, vf.WithTracers(rec(&r)))
	if len(w) == 0 || fmt.Sprint(w) != fmt.Sprint(r) {
		t.Fatalf("demo: written %v read %v", w, r)
	}
}
''')

D(id="adler-sums-too-long", property="C20",
  edits=[("internal/adler32/adler32.go", "const nmax = 5552", "const nmax = 5600")],
  needs="at least 5553 bytes of 0xFF checksummed in one piece when both sums are already large",
  breaks="the Adler-32 accumulator overflows: wrong checksums in zlib trailers",
  imports=["hash/adler32"],
  demo='''
func TestDemo(t *testing.T) {
	for n := 0; n < 70000; n += 97 {
		data := bytes.Repeat([]byte{0xff}, 200000)
		data[0] = byte(n)
		data[1] = byte(n >> 8)
		var sums []uint32
		tr := vf.TracerFunc(func(e vf.Event) {
			if e.Footer != nil {
				sums = append(sums, uint32(e.Footer.Adler32))
			}
		})
		gz(vf.ZlibFormat, data, vf.WithTracers(tr), vf.WithCompressLevel(0))
		if want := adler32.Checksum(data); len(sums) != 1 || sums[0] != want {
			t.Fatalf("demo: %x want %x", sums, want)
		}
	}
}
''')

D(id="level-0-after-strategy", property="C21",
  edits=[("writer.go", """	case fw.clevel == 0:
		return compressConfigs[2]
	case fw.strategy == HuffmanOnlyStrategy:""", """	case fw.clevel == 0 && fw.strategy != HuffmanRLEStrategy:
		return compressConfigs[2]
	case fw.strategy == HuffmanOnlyStrategy:""")],
  needs="level 0 together with the run-length strategy",
  breaks="level 0 emits Huffman-coded blocks",
  demo='''
func TestDemo(t *testing.T) {
	var blocks []vf.BlockType
	tr := vf.TracerFunc(func(e vf.Event) {
		if e.Type == vf.BlockBeginEvent {
			blocks = append(blocks, e.Block.Type)
		}
	})
	gz(vf.RawFormat, text(5000, 1), vf.WithCompressLevel(0), vf.WithStrategy(vf.HuffmanRLEStrategy), vf.WithTracers(tr))
	for _, b := range blocks {
		if b != vf.StoredBlock {
			t.Fatalf("demo: %v", blocks)
		}
	}
}
''')

D(id="tokens-returned-early", property="C22",
  edits=[("writer.go", """	*xtokens, numD = encodeTreeTokens(*xtokens, sD, 1)
""", """	*xtokens, numD = encodeTreeTokens(*xtokens, sD, 1)
	treeTokens := *xtokens
"""), ("writer.go", """	xtokens := takeTokens()
	defer giveTokens(xtokens)

	var numLL""", """	xtokens := takeTokens()

	var numLL"""), ("writer.go", """	freqX := studyFrequenciesX(*xtokens)
""", """	freqX := studyFrequenciesX(treeTokens)
	giveTokens(xtokens)
"""), ("writer.go", """	for _, t := range *xtokens {
		if !t.encodeX""", """	for _, t := range treeTokens {
		if !t.encodeX""")],
  needs="several compressors at work in different goroutines, one taking the pooled slice while another still reads it",
  breaks="dynamic block headers of one compressor are overwritten with another's tokens",
  imports=["sync", "runtime"],
  flags="-race ",
  demo='''
func TestDemo(t *testing.T) {
	var wg sync.WaitGroup
	var mu sync.Mutex
	var fail error
	runtime.GOMAXPROCS(8)
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			for i := 0; i < 40; i++ {
				data := text(6000+g*1000, uint32(g*100+i))
				got, err := unflate(gz(vf.RawFormat, data), nil)
				if err != nil || !bytes.Equal(got, data) {
					mu.Lock()
					fail = fmt.Errorf("demo: %v, %d of %d bytes", err, len(got), len(data))
					mu.Unlock()
				}
			}
		}(g)
	}
	wg.Wait()
	if fail != nil {
		t.Fatal(fail)
	}
}
''')

CMD_PRE = 'go build -o "$t/gzip" ./cmd/gzip || exit 3\nexport DEMO_GZIP="$t/gzip"\n'

D(id="command-ignores-copy-error-after-data", property="C23",
  edits=[("cmd/gzip/main.go", """		nn, err := io.Copy(w, fr)
		if err != nil {""", """		nn, err := io.Copy(w, fr)
		if err != nil && (nn == 0 || err != io.ErrUnexpectedEOF) {""")],
  needs="decompressing a stream that is cut after some data could be decoded",
  breaks="the command exits with status 0 for a truncated stream",
  imports=["os", "os/exec"], pre=CMD_PRE,
  demo='''
func TestDemo(t *testing.T) {
	in := stdgz(noise(100000, 1))
	c := exec.Command(os.Getenv("DEMO_GZIP"), "-d")
	c.Stdin = bytes.NewReader(in[:len(in)-20000])
	var errb bytes.Buffer
	c.Stdout, c.Stderr = io.Discard, &errb
	if err := c.Run(); err == nil || errb.Len() == 0 {
		t.Fatalf("demo: %v %q", err, errb.String())
	}
}
''')

D(id="level-none-any-case", property="C24",
  edits=[("enum_clevel.go", '	if strings.EqualFold(str, "none") {', '	if strings.HasPrefix(strings.ToLower(str), "none") {')],
  needs="a level given as a string that begins with the word none",
  breaks="a string that is no valid level is accepted",
  demo='''
func TestDemo(t *testing.T) {
	l := vf.CompressLevel(5)
	if err := l.Parse("NoneSuch"); err == nil || l != vf.DefaultCompression {
		t.Fatalf("demo: %v %v", l, err)
	}
	if err := l.Parse("NonE"); err != nil || l != 0 {
		t.Fatalf("demo: %v %v", l, err)
	}
}
''')

D(id="extra-data-last-empty-record", property="C25",
  edits=[("header.go", "	for (index + 4) <= length {", "	for (index + 4) < length {")],
  needs="extra data whose last record has no content",
  breaks="the record is lost when parsing",
  demo='''
func TestDemo(t *testing.T) {
	x := vf.ExtraData{Records: []vf.ExtraDataRecord{{ID: [2]byte{'A', 'B'}, Bytes: []byte("xyz")}, {ID: [2]byte{'C', 'D'}}}}
	var y vf.ExtraData
	y.Parse(x.AsBytes())
	if len(y.Records) != 2 || !bytes.Equal(x.AsBytes(), y.AsBytes()) {
		t.Fatalf("demo: %v", y)
	}
}
''')

D(id="stored-length-in-machine-words", property="C26",
  edits=[("writer.go", """		shiftA := fw.obLen
		shiftB := byte(bitsPerBlock - shiftA)
		if shiftB > inLen {
			shiftB = inLen
		}
		maskB := makeMask(shiftB)""", """		shiftA := fw.obLen
		shiftB := byte(bitsPerBlock - shiftA)
		if shiftB > inLen {
			shiftB = inLen
		}
		if shiftB > 8 && shiftA == 24 {
			shiftB = 8
		}
		maskB := makeMask(shiftB)""" ), ("util.go", "	} else if shift >= bitsPerBlock {\n		return ^block(0)\n", "	} else if shift >= (bitsPerBlock - 1) {\n		return ^block(0) >> 1\n")],
  needs="a 32-bit build, and a code of 31 or more bits to mask (never on 64-bit)", breaks="placeholder", demo='''
func TestDemo(t *testing.T) {}
''')

D(id="reset-drops-dictionary", property="C27",
  edits=[("writer.go", """	o.wbits = fw.wbits
	o.dict = fw.dict
	o.tracers = fw.tracers
""", """	o.wbits = fw.wbits
	o.tracers = fw.tracers
""")],
  needs="a compressor with a dictionary that is Reset with some other option",
  breaks="the dictionary given earlier is forgotten",
  demo='''
func TestDemo(t *testing.T) {
	w := vf.NewWriter(io.Discard, vf.WithFormat(vf.ZlibFormat), vf.WithDictionary([]byte("dictionary")))
	w.Reset(io.Discard, vf.WithCompressLevel(3))
	if string(w.Dict()) != "dictionary" {
		t.Fatalf("demo: %q", w.Dict())
	}
}
''')

D(id="large-matches-lose-history", property="C01",
  edits=[("writer.go", """	if fw.state == openStreamWriterState {
		if !fw.flushGuts(flushType) {""", """	if fw.state == openStreamWriterState && (flushType == FinishFlush || fw.inputBytesStream != 0) {
		if !fw.flushGuts(flushType) {""")],
  needs="placeholder", breaks="placeholder", demo='''
func TestDemo(t *testing.T) {}
''')
DEFS.pop()  # not a bug: an open stream always has input
DEFS[:] = [d for d in DEFS if d["id"] != "stored-length-in-machine-words"]

D(id="last-distance-extra-bits", property="C01",
  edits=[("token.go", """	case t.distance <= 32768:
""", """	case t.distance < 32768:
""")],
  needs="a match at a distance of exactly 32768 bytes",
  breaks="the compressor panics",
  demo='''
func TestDemo(t *testing.T) {
	a := noise(32768, 3)
	data := append(append([]byte{}, a...), a[:9000]...)
	got, err := unflate(gz(vf.RawFormat, data, vf.WithCompressLevel(9), vf.WithMemoryLevel(9), vf.WithWindowBits(15)), nil)
	if err != nil || !bytes.Equal(got, data) {
		t.Fatalf("demo: %v", err)
	}
}
''')

D(id="stream-length-not-restarted", property="C10",
  edits=[("reader.go", """	fr.inputBytesStream = 0
	fr.outputBytesStream = 0

	if fr.inputBuffer.IsEmpty() {
""", """	fr.inputBytesStream = 0
	if fr.numStreams < 2 {
		fr.outputBytesStream = 0
	}

	if fr.inputBuffer.IsEmpty() {
""")],
  needs="three or more concatenated gzip streams, the second of them not empty",
  breaks="the length in the third stream's trailer is compared with a sum, and valid input is refused",
  demo='''
func TestDemo(t *testing.T) {
	var in []byte
	for i := 0; i < 5; i++ {
		in = append(in, stdgz([]byte("abc"))...)
	}
	got, err := rd(vf.GZIPFormat, in)
	if err != nil || string(got) != "abcabcabcabcabc" {
		t.Fatalf("demo: %q %v", got, err)
	}
}
''')

D(id="mtime-through-int", property="C26",
  edits=[("reader.go", """		fr.header.LastModified = time.Unix(int64(mtime), 0)
""", """		fr.header.LastModified = time.Unix(int64(int(mtime)), 0)
""")],
  needs="a 32-bit build, and a modification time from 2038 or later",
  breaks="the modification time comes out before 1970 on 32-bit systems",
  flags="",
  pre="export GOARCH=386\n",
  imports=["time"],
  demo='''
func TestDemo(t *testing.T) {
	var b bytes.Buffer
	w := gzip.NewWriter(&b)
	w.ModTime = time.Unix(3000000000, 0)
	w.Close()
	var got int64
	tr := vf.TracerFunc(func(e vf.Event) {
		if e.Type == vf.StreamHeaderEvent {
			got = e.Header.LastModified.Unix()
		}
	})
	if _, err := rd(vf.GZIPFormat, b.Bytes(), vf.WithTracers(tr)); err != nil {
		t.Fatal(err)
	}
	if got != 3000000000 {
		t.Fatalf("demo: %d", got)
	}
}
''')


D(id="scratch-kept-until-finish", property="C28",
  edits=[("writer.go", """	bb := bufferpool.Get()
	defer bufferpool.Put(bb)
	bb.Grow(int(available))
""", """	// Allocate scratch space only once per stream.
	if fw.inputBytesStream == 0 || fw.scratch == nil {
		fw.scratch = new(bytes.Buffer)
	}
	bb := fw.scratch
	start := bb.Len()
	bb.Grow(int(available))
"""), ("writer.go", """	data := bb.Bytes()
	*tokens = append""", """	data := bb.Bytes()[start:]
	*tokens = append"""), ("writer.go", """	"github.com/chronos-tachyon/bufferpool"
""", ""), ("writer.go", """	output            buffer.Buffer
""", """	output            buffer.Buffer
	scratch           *bytes.Buffer
"""), ("writer.go", """	"encoding/binary"
""", """	"bytes"
	"encoding/binary"
""")],
  needs="one long stream",
  breaks="the compressor holds the whole of the stream's data in memory",
  imports=["runtime"],
  demo='''
type sink struct{}

func (sink) Write(p []byte) (int, error) { return len(p), nil }

func live() int64 {
	runtime.GC()
	runtime.GC()
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return int64(m.HeapAlloc)
}

func TestDemo(t *testing.T) {
	w := vf.NewWriter(sink{}, vf.WithMemoryLevel(4))
	p := text(100000, 1)
	var a int64
	for i := 0; i < 100; i++ {
		w.Write(p)
		if i == 10 {
			a = live()
		}
	}
	if b := live(); b-a > 2<<20 {
		t.Fatalf("demo: %d bytes more", b-a)
	}
	w.Close()
}
''')


D(id="isize-saturates", property="C02",
  edits=[("writer.go", """	ok2 := fw.outputBufferWriteU32(binary.LittleEndian, uint32(fw.inputBytesStream))""", """	// ISIZE has only 32 bits.
	size := fw.inputBytesStream
	if size > math.MaxUint32 {
		size = math.MaxUint32
	}
	ok2 := fw.outputBufferWriteU32(binary.LittleEndian, uint32(size))""")],
  needs="gzip format and a stream with 4 GiB or more of content",
  breaks="the length in the gzip trailer is not the length modulo 2^32, and other decoders refuse the file",
  imports=[],
  demo='''
func TestDemo(t *testing.T) {
	var b bytes.Buffer
	w := vf.NewWriter(&b, vf.WithFormat(vf.GZIPFormat), vf.WithStrategy(vf.HuffmanRLEStrategy))
	p := make([]byte, 1<<20)
	for i := 0; i < 4096; i++ {
		w.Write(p)
	}
	w.Write(p[:77])
	if err := w.Close(); err != nil {
		t.Fatal(err)
	}
	o := b.Bytes()
	if n := o[len(o)-4:]; !bytes.Equal(n, []byte{77, 0, 0, 0}) {
		t.Fatalf("demo: ISIZE % x", n)
	}
}
''')


D(id="length-compared-in-64-bits", property="C03",
  edits=[("reader.go", """	if contentLen != uint32(fr.outputBytesStream) {""", """	if uint64(contentLen) != fr.outputBytesStream {""")],
  needs="a gzip stream with 4 GiB or more of content",
  breaks="a conforming gzip stream is refused as corrupt",
  imports=["hash/crc32"],
  pre='',
  demo='''
type zeros struct{ left int64 }

func (z *zeros) Read(p []byte) (int, error) {
	if z.left == 0 {
		return 0, io.EOF
	}
	n := len(p)
	if int64(n) > z.left {
		n = int(z.left)
	}
	for i := range p[:n] {
		p[i] = 0
	}
	z.left -= int64(n)
	return n, nil
}

func TestDemo(t *testing.T) {
	pr, pw := io.Pipe()
	go func() {
		w := gzip.NewWriter(pw)
		io.Copy(w, &zeros{1<<32 + 5})
		w.Close()
		pw.Close()
	}()
	r := vf.NewReader(pr, vf.WithFormat(vf.GZIPFormat))
	n, err := io.Copy(io.Discard, r)
	if err != nil || n != 1<<32+5 {
		t.Fatalf("demo: %d %v", n, err)
	}
	_ = crc32.IEEE
}
''')


D(id="rle-ignores-full-flush", property="C09",
  edits=[("writer.go", """		fw.hybrid.WindowClear()

	case FinishFlush:""", """		// matches of run-length encoding never reach far back
		if fw.strategy != HuffmanRLEStrategy {
			fw.hybrid.WindowClear()
		}

	case FinishFlush:""")],
  needs="the run-length strategy, and a run of one byte which continues across a full flush",
  breaks="the data after a full flush cannot be decoded alone",
  imports=[],
  demo='''
func TestDemo(t *testing.T) {
	var b bytes.Buffer
	w := vf.NewWriter(&b, vf.WithFormat(vf.RawFormat), vf.WithStrategy(vf.HuffmanRLEStrategy))
	p := bytes.Repeat([]byte("a"), 1000)
	w.Write(p)
	w.Flush(vf.FullFlush)
	at := b.Len()
	w.Write(p)
	w.Close()
	got, err := io.ReadAll(flate.NewReader(bytes.NewReader(b.Bytes()[at:])))
	if err != nil || !bytes.Equal(got, p) {
		t.Fatalf("demo: %d bytes, %v", len(got), err)
	}
}
''')


D(id="comment-ends-with-nul", property="C12",
  edits=[("writer.go", """	if index := strings.IndexByte(header.Comment, 0x00); index >= 0 {""", """	// the terminator may be there already
	if index := strings.IndexByte(header.Comment, 0x00); index >= 0 && index != len(header.Comment)-1 {""")],
  needs="a comment whose only NUL is its last character",
  breaks="SetHeader accepts a comment that the format cannot represent, and the stream cannot be read back",
  imports=[],
  demo='''
func TestDemo(t *testing.T) {
	var b bytes.Buffer
	w := vf.NewWriter(&b, vf.WithFormat(vf.GZIPFormat))
	err := w.SetHeader(vf.Header{Comment: "abc\\x00"})
	w.Write([]byte("data"))
	w.Close()
	r, rerr := gzip.NewReader(&b)
	if rerr != nil {
		t.Fatalf("demo: %v", rerr)
	}
	got, rerr := io.ReadAll(r)
	if rerr != nil || string(got) != "data" || err == nil {
		t.Fatalf("demo: SetHeader %v, read %q %v", err, got, rerr)
	}
}
''')


D(id="token-slices-limited", property="C22",
  edits=[("pools.go", """func takeTokens() *[]token {
	return tokenPool""", """// tokenSlots limits how many lists of tokens are in use at a time, and so the
// memory that they need together.
var tokenSlots = make(chan struct{}, 64)

func takeTokens() *[]token {
	tokenSlots <- struct{}{}
	return tokenPool"""), ("pools.go", """	tokenPool.Put(ptr)
""", """	tokenPool.Put(ptr)
	<-tokenSlots
""")],
  needs="dozens of compressors whose destinations take nothing for the moment (slow clients), and one more",
  breaks="compressors hold up each other: the one more waits until another's destination takes data again",
  imports=["sync", "time"],
  demo='''
type slowDst struct {
	got  chan struct{}
	open chan struct{}
	once sync.Once
}

func (d *slowDst) Write(p []byte) (int, error) {
	d.once.Do(func() { close(d.got) })
	<-d.open
	return len(p), nil
}

func TestDemo(t *testing.T) {
	data := noise(60000, 5)
	open := make(chan struct{})
	defer close(open)
	for i := 0; i < 150; i++ {
		d := &slowDst{got: make(chan struct{}), open: open}
		done := make(chan struct{})
		go func() {
			w := vf.NewWriter(d, vf.WithFormat(vf.RawFormat), vf.WithMemoryLevel(1), vf.WithWindowBits(9))
			w.Write(data)
			w.Close()
			close(done)
		}()
		select {
		case <-d.got:
		case <-done:
		case <-time.After(10 * time.Second):
			t.Fatalf("demo: compressor %d waits for the others", i)
		}
	}
}
''')


D(id="reads-not-chained", property="C22",
  edits=[("reader.go", """		fr.cv2.Signal()
	} else {
		fr.cv1.Signal()
	}""", """		fr.cv2.Signal()
	}""")],
  needs="several goroutines waiting in Read on one Reader, and the one that is woken takes only a part of what is there and reads no more",
  breaks="the other goroutines wait for ever although output is available",
  imports=["sync", "time"],
  demo='''
type gate struct {
	p    []byte
	open chan struct{}
	n    int
}

func (g *gate) Read(p []byte) (int, error) {
	if g.n == 0 {
		<-g.open
	}
	if g.n == len(g.p) {
		select {} // no more input for now
	}
	n := copy(p, g.p[g.n:])
	g.n += n
	return n, nil
}

func TestDemo(t *testing.T) {
	g := &gate{p: gz(vf.RawFormat, text(100000, 3)), open: make(chan struct{})}
	r := vf.NewReader(g, vf.WithFormat(vf.RawFormat), vf.WithMemoryLevel(1))
	var wg sync.WaitGroup
	for i := 0; i < 5; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var b [3]byte
			r.Read(b[:])
		}()
	}
	time.Sleep(300 * time.Millisecond)
	close(g.open)
	done := make(chan bool)
	go func() { wg.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(15 * time.Second):
		t.Fatal("demo: a Read does not return")
	}
}
''')


D(id="fixed-sizes-cached", property="C22",
  edits=[("huffman.go", """func getFixedHuffDecoders() (""", """var gFixedSizesLL SizeList

// fixedSizesLL returns the code lengths of the fixed literal/length code.
func fixedSizesLL() SizeList {
	if gFixedSizesLL == nil {
		gFixedSizesLL = make(SizeList, 0, physicalNumLLCodes)
		for _, size := range gFixedHuffmanDecoderLL.SizeBySymbol() {
			gFixedSizesLL = append(gFixedSizesLL, size)
		}
	}
	return gFixedSizesLL
}

func getFixedHuffDecoders() ("""), ("reader.go", """			LiteralLengthSizes: fr.hLL.SizeBySymbol(),""", """			LiteralLengthSizes: fixedSizesLL(),""")],
  needs="two decompressors with tracers which are the first in the process to meet a block with the fixed code, at the same time",
  breaks="a data race: a tracer sees an incomplete list of code lengths",
  imports=["sync"], flags="-race ",
  demo='''
func TestDemo(t *testing.T) {
	in := gz(vf.RawFormat, []byte("abc"), vf.WithStrategy(vf.FixedStrategy))
	var wg sync.WaitGroup
	start := make(chan struct{})
	for i := 0; i < 16; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			n := 0
			tr := vf.TracerFunc(func(e vf.Event) {
				if e.Trees != nil {
					n = len(e.Trees.LiteralLengthSizes)
				}
			})
			if _, err := rd(vf.RawFormat, in, vf.WithTracers(tr)); err != nil || n != 288 {
				t.Errorf("demo: %d %v", n, err)
			}
		}()
	}
	close(start)
	wg.Wait()
}
''')


D(id="headers-remembered", property="C28",
  edits=[("reader.go", """	h := new(Header)
	*h = fr.header
""", """	h := new(Header)
	*h = fr.header
	fr.headers = append(fr.headers, h)
"""), ("reader.go", """	header       Header
""", """	header       Header
	headers      []*Header
""")],
  needs="a very long concatenation of small streams",
  breaks="memory grows with the number of streams",
  imports=["runtime"],
  demo='''
type again struct {
	p []byte
	i int
	n int
}

func (a *again) Read(p []byte) (int, error) {
	if a.n == 0 {
		return 0, io.EOF
	}
	n := copy(p, a.p[a.i:])
	a.i += n
	if a.i == len(a.p) {
		a.i = 0
		a.n--
	}
	return n, nil
}

func live() int64 {
	runtime.GC()
	runtime.GC()
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return int64(m.HeapAlloc)
}

func TestDemo(t *testing.T) {
	r := vf.NewReader(&again{p: gz(vf.GZIPFormat, []byte("abc")), n: 100000}, vf.WithFormat(vf.GZIPFormat))
	var b [30000]byte
	var first int64
	for i := 0; i < 9; i++ {
		if _, err := io.ReadFull(r, b[:]); err != nil {
			t.Fatal(err)
		}
		if i == 0 {
			first = live()
		}
	}
	if d := live() - first; d > 4<<20 {
		t.Fatalf("demo: %d bytes more", d)
	}
	r.Close()
}
''')


D(id="command-ignores-memory-level", property="C23",
  edits=[("cmd/gzip/main.go", """	opts[4] = flate.WithMemoryLevel(flagMLevel.Value)""", """	opts[4] = flate.WithMemoryLevel(flate.DefaultMemory)""")],
  needs="a memory level on the command line, and content large enough for it to matter",
  breaks="the flag for the memory level has no effect",
  imports=["os", "os/exec", "path/filepath"],
  demo='''
func TestDemo(t *testing.T) {
	exe := filepath.Join(t.TempDir(), "gzip")
	if out, err := exec.Command("go", "build", "-o", exe, "./cmd/gzip").CombinedOutput(); err != nil {
		t.Fatalf("%v %s", err, out)
	}
	p := text(300000, 5)
	run := func(args ...string) []byte {
		c := exec.Command(exe, args...)
		c.Stdin = bytes.NewReader(p)
		c.Stderr = os.Stderr
		out, err := c.Output()
		if err != nil {
			t.Fatal(err)
		}
		return out
	}
	a, b := run("-c", "-M", "1"), run("-c", "-M", "9")
	wa := gz(vf.GZIPFormat, p, vf.WithMemoryLevel(1))
	wb := gz(vf.GZIPFormat, p, vf.WithMemoryLevel(9))
	if d := len(wb) - len(wa); d > -100 && d < 100 {
		t.Skip("memory levels make no difference here")
	}
	if d := len(a) - len(wa); d > 100 || d < -100 {
		t.Fatalf("demo: -M 1: %d bytes, -M 9: %d, library %d and %d", len(a), len(b), len(wa), len(wb))
	}
}
''')


D(id="adler-sum-not-reduced", property="C20",
  edits=[("internal/adler32/adler32.go", """		s1 %= modulus
		s2 %= modulus
		p = q""", """		if s1 > modulus {
			s1 %= modulus
		}
		if s2 > modulus {
			s2 %= modulus
		}
		p = q""")],
  needs="data for which a sum is exactly the modulus at the end of a piece",
  breaks="the Adler-32 checksum is 65521 instead of 0 in one half",
  imports=[],
  demo='''
func TestDemo(t *testing.T) {
	// 1 + sum of the bytes = 65521
	p := bytes.Repeat([]byte{255}, 65520/255)
	p = append(p, byte(65520%255))
	var b bytes.Buffer
	w := zlib.NewWriter(&b)
	w.Write(p)
	w.Close()
	if got, err := rd(vf.ZlibFormat, b.Bytes()); err != nil || !bytes.Equal(got, p) {
		t.Fatalf("demo: %v", err)
	}
}
''')


D(id="rest-copied-each-time", property="C29",
  edits=[("writer.go", """		nn, err := fw.hybrid.Write(buf[i:])
""", """		// never hand the caller's memory to the compressor
		rest := append([]byte(nil), buf[i:]...)
		nn, err := fw.hybrid.Write(rest)
""")],
  needs="a single Write of very many bytes",
  breaks="the time for a Write grows with the square of its size",
  imports=["time"],
  demo='''
func TestDemo(t *testing.T) {
	run := func(n int) time.Duration {
		p := make([]byte, n)
		w := vf.NewWriter(io.Discard, vf.WithMemoryLevel(1), vf.WithStrategy(vf.HuffmanRLEStrategy))
		best := time.Hour
		for i := 0; i < 3; i++ {
			t0 := time.Now()
			w.Write(p)
			if d := time.Since(t0); d < best {
				best = d
			}
		}
		w.Close()
		return best
	}
	a, b := run(1<<20), run(32<<20)
	if b > 200*a {
		t.Fatalf("demo: %v for 1 MiB, %v for 32 MiB", a, b)
	}
}
''')


D(id="offset-without-names", property="C30",
  edits=[("reader.go", """		ch, _ := fr.inputBuffer.ReadByte()
		fr.inputBytesTotal++
		fr.inputBytesStream++
		fr.inputBytesCRC32.Write([]byte{ch})

		if ch == 0 {
			ok = true
			break
		}
""", """		ch, _ := fr.inputBuffer.ReadByte()
		fr.inputBytesTotal++
		fr.inputBytesCRC32.Write([]byte{ch})

		if ch == 0 {
			ok = true
			break
		}
		if bb.Len() == 0 {
			fr.inputBytesStream += 2 // this one and the NUL
		}
""")],
  needs="a stream with a file name or comment, and a violation after it",
  breaks="the stream offset of the error leaves out most of the name",
  imports=[],
  demo='''
func TestDemo(t *testing.T) {
	var b bytes.Buffer
	w := gzip.NewWriter(&b)
	w.Name = string(bytes.Repeat([]byte("n"), 100))
	w.Write([]byte("abc"))
	w.Close()
	p := b.Bytes()
	p[len(p)-6] ^= 1 // CRC
	_, err := rd(vf.GZIPFormat, p)
	var c vf.CorruptInputError
	if !errors.As(err, &c) {
		t.Fatalf("demo: %v", err)
	}
	if c.OffsetStream < 100 || c.OffsetTotal != c.OffsetStream {
		t.Fatalf("demo: offsets %d, %d in %d", c.OffsetStream, c.OffsetTotal, len(p))
	}
}
''')


D(id="stream-offset-after-header", property="C30",
  edits=[("reader.go", """	h := new(Header)
	*h = fr.header
	fr.sendEvent(Event{
		Type:   StreamHeaderEvent,
		Header: h,
	})

	return true
""", """	h := new(Header)
	*h = fr.header
	fr.sendEvent(Event{
		Type:   StreamHeaderEvent,
		Header: h,
	})

	if fr.numStreams > 1 {
		fr.inputBytesStream = 0
	}
	return true
""")],
  needs="a violation in the second stream of a concatenation or later",
  breaks="the stream offset of the error is counted from the end of the header, in all streams but the first",
  imports=[],
  demo='''
func TestDemo(t *testing.T) {
	a := stdgz(text(5000, 1))
	b := stdgz([]byte("abc"))
	p := append(append([]byte{}, a...), b...)
	p[len(p)-6] ^= 1 // CRC
	_, err := rd(vf.GZIPFormat, p)
	var c vf.CorruptInputError
	if !errors.As(err, &c) {
		t.Fatalf("demo: %v", err)
	}
	if c.OffsetTotal-c.OffsetStream != uint64(len(a)) {
		t.Fatalf("demo: offsets %d, %d", c.OffsetStream, c.OffsetTotal)
	}
}
''')


D(id="dictionary-copied-by-constructor", property="C31",
  edits=[("options.go", """	if dict != nil {
		tmp := make([]byte, len(dict))
		copy(tmp, dict)
		dict = tmp
	}
	return func(o *options) { o.dict = dict }
""", """	return func(o *options) {
		o.dict = nil
		if dict != nil {
			// one copy for each object
			o.dict = make([]byte, len(dict))
			copy(o.dict, dict)
		}
	}
""")],
  needs="a dictionary that is changed after WithDictionary has returned, before the object is constructed (or between two uses of the option)",
  breaks="WithDictionary keeps the caller's slice",
  imports=[],
  demo='''
func TestDemo(t *testing.T) {
	d := append([]byte{}, text(1000, 3)...)
	keep := append([]byte{}, d...)
	opt := vf.WithDictionary(d)
	for i := range d {
		d[i] = 0
	}
	in := gz(vf.ZlibFormat, text(3000, 3), opt)
	got, err := rd(vf.ZlibFormat, in, vf.WithDictionary(keep))
	if err != nil || !bytes.Equal(got, text(3000, 3)) {
		t.Fatalf("demo: %v", err)
	}
}
''')


D(id="write-appends-to-data", property="C31",
  edits=[("writer.go", """	var i, j uint
	for i < length {
		nn, err := fw.hybrid.Write(buf[i:])
""", """	if fw.strategy == HuffmanRLEStrategy && length != 0 {
		// make sure that no run goes on beyond the data
		buf = append(buf, ^buf[length-1])[:length]
	}

	var i, j uint
	for i < length {
		nn, err := fw.hybrid.Write(buf[i:])
""")],
  needs="a slice with spare capacity, written with the RLE strategy",
  breaks="Write changes the byte after the data",
  imports=[],
  demo='''
func TestDemo(t *testing.T) {
	p := []byte("aaaaaaaaaaaaaaaaaaaaaaaaaaaabc")
	w := vf.NewWriter(io.Discard, vf.WithFormat(vf.GZIPFormat), vf.WithStrategy(vf.HuffmanRLEStrategy))
	w.Write(p[:28])
	if string(p[28:]) != "bc" {
		t.Fatalf("demo: %q", p)
	}
	w.Close()
}
''')


D(id="bits-read-ahead", property="C32",
  edits=[("reader.go", """	for fr.ibLen < atLeast {
		if fr.inputBuffer.IsEmpty() {
			fr.inputBufferFill()
			if fr.inputBuffer.IsEmpty() {
				return false
			}
		}

		ch, _ := fr.inputBuffer.ReadByte()
		fr.inputBytesTotal++
""", """	for fr.ibLen < atLeast {
		if fr.inputBuffer.Len() < 4 {
			// have the next bytes ready, too
			fr.inputBufferFill()
			if fr.inputBuffer.IsEmpty() {
				return false
			}
		}

		ch, _ := fr.inputBuffer.ReadByte()
		fr.inputBytesTotal++
""")],
  needs="a source that falls silent after a partial flush",
  breaks="the reader wants three bytes more than it needs",
  imports=["time"],
  demo='''
func TestDemo(t *testing.T) {
	pr, pw := io.Pipe()
	w := vf.NewWriter(pw, vf.WithFormat(vf.GZIPFormat))
	r := vf.NewReader(pr, vf.WithFormat(vf.GZIPFormat))
	got := make(chan string)
	go func() {
		var b [48]byte
		for {
			if _, err := io.ReadFull(r, b[:]); err != nil {
				return
			}
			got <- string(b[:])
		}
	}()
	for i := 0; i < 20; i++ {
		m := fmt.Sprintf("%024d%024d", i, i*i*i)
		w.Write([]byte(m))
		w.Flush([]vf.FlushType{vf.PartialFlush, vf.SyncFlush}[i%2])
		select {
		case s := <-got:
			if s != m {
				t.Fatalf("demo: %q", s)
			}
		case <-time.After(20 * time.Second):
			t.Fatalf("demo: message %d does not arrive", i)
		}
	}
}
''')


D(id="read-fills-the-slice", property="C32",
  edits=[("reader.go", """	nn, _ := fr.outputBuffer.Read(p)

	if fr.outputBuffer.IsEmpty() {
		fr.cv2.Signal()
""", """	nn, _ := fr.outputBuffer.Read(p)
	for nn < len(p) && nn < 16 && fr.outputError == nil {
		// hardly worth returning
		fr.cv2.Signal()
		for fr.outputError == nil && fr.outputBuffer.IsEmpty() {
			fr.cv1.Wait()
		}
		more, _ := fr.outputBuffer.Read(p[nn:])
		nn += more
	}

	if fr.outputBuffer.IsEmpty() {
		fr.cv2.Signal()
""")],
  needs="short messages, and a source that falls silent after each",
  breaks="Read holds back a few bytes until more follow",
  imports=["time"],
  demo='''
func TestDemo(t *testing.T) {
	pr, pw := io.Pipe()
	w := vf.NewWriter(pw, vf.WithFormat(vf.ZlibFormat))
	r := vf.NewReader(pr, vf.WithFormat(vf.ZlibFormat))
	got := make(chan string)
	go func() {
		var b [500]byte
		for {
			n, err := r.Read(b[:])
			if err != nil {
				return
			}
			got <- string(b[:n])
		}
	}()
	w.Write([]byte("hello"))
	w.Flush(vf.SyncFlush)
	select {
	case s := <-got:
		if s != "hello" {
			t.Fatalf("demo: %q", s)
		}
	case <-time.After(20 * time.Second):
		t.Fatal("demo: the message does not arrive")
	}
}
''')


D(id="dictionary-unused-later", property="C33",
  edits=[("writer.go", """	if fw.dict != nil {
		fw.hybrid.SetWindow(fw.dict)
""", """	if fw.dict != nil && fw.numStreams == 1 {
		fw.hybrid.SetWindow(fw.dict)
""")],
  needs="a preset dictionary, and a second stream on the same writer",
  breaks="from the second stream on the dictionary is announced but does not help",
  demo='''
func TestDemo(t *testing.T) {
	dict := noise(4000, 1)
	var b bytes.Buffer
	w := vf.NewWriter(&b, vf.WithFormat(vf.ZlibFormat), vf.WithDictionary(dict))
	for i := 0; i < 3; i++ {
		b.Reset()
		w.Write(dict)
		w.Flush(vf.FinishFlush)
		if b.Len() > 2000 {
			t.Fatalf("demo: stream %d: 4000 bytes of the dictionary became %d", i, b.Len())
		}
	}
}
''')


D(id="sync-forgets-history", property="C33",
  edits=[("writer.go", """	case SyncFlush:
		if !writeStoredBlock(fw, nil, false) {
			return false
		}

	case FullFlush:
""", """	case SyncFlush, FullFlush:
""")],
  needs="a sync flush, and content after it that repeats what came before it",
  breaks="a sync flush makes the compressor forget its window, as a full flush does",
  demo='''
func TestDemo(t *testing.T) {
	p := noise(4000, 1)
	var b bytes.Buffer
	w := vf.NewWriter(&b, vf.WithFormat(vf.RawFormat))
	w.Write(p)
	w.Flush(vf.SyncFlush)
	n := b.Len()
	w.Write(p)
	w.Close()
	if b.Len()-n > 2000 {
		t.Fatalf("demo: a repetition of 4000 bytes became %d", b.Len()-n)
	}
}
''')


D(id="window-limited-by-memory-level", property="C33",
  edits=[("writer.go", """	switch {
	case fw.strategy == HuffmanOnlyStrategy:
		defaultOpts.WindowNumBits = 8
""", """	if limit := defaultOpts.BufferNumBits - 1; defaultOpts.WindowNumBits > limit {
		// no use in a window which is larger than the buffer
		defaultOpts.WindowNumBits = limit
	}
	switch {
	case fw.strategy == HuffmanOnlyStrategy:
		defaultOpts.WindowNumBits = 8
""")],
  needs="a low memory level, and content that repeats at a distance in the far part of the window",
  breaks="with low memory levels the declared window is not used",
  demo='''
func TestDemo(t *testing.T) {
	p := noise(4000, 1)
	var b bytes.Buffer
	w := vf.NewWriter(&b, vf.WithFormat(vf.RawFormat), vf.WithMemoryLevel(5), vf.WithWindowBits(14))
	w.Write(p)
	w.Write(noise(8000, 7))
	w.Flush(vf.SyncFlush)
	n := b.Len()
	w.Write(p)
	w.Close()
	if b.Len()-n > 2000 {
		t.Fatalf("demo: a repetition of 4000 bytes became %d", b.Len()-n)
	}
}
''')
