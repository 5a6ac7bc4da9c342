package main

import (
	"bytes"
	"fmt"

	"pgregory.net/rapid"

	flate "github.com/chronos-tachyon/flate"

	"flateverif/ref"
)

// ExtraCase is a list of records (or bytes to parse).
type ExtraCase struct {
	Recs []Rec  `json:",omitempty"`
	Big  []int  `json:",omitempty"` // sizes of further records
	Raw  []byte `json:",omitempty"` // follows the records: any bytes
	Prev []Rec  `json:",omitempty"` // what the receiver held before
}

func (c *ExtraCase) records() (out []flate.ExtraDataRecord) {
	for _, r := range c.Recs {
		out = append(out, flate.ExtraDataRecord{ID: [2]byte{byte(r.A), byte(r.B)}, Bytes: append([]byte{}, r.D...)})
	}
	for i, n := range c.Big {
		b := make([]byte, n)
		r := ref.Rng(i*70000 + n)
		for j := range b {
			b[j] = byte(r.Next())
		}
		out = append(out, flate.ExtraDataRecord{ID: [2]byte{byte(n), byte(i)}, Bytes: b})
	}
	return
}

func sameRecords(got, want []flate.ExtraDataRecord) error {
	if len(got) != len(want) {
		return fmt.Errorf("%d records, want %d", len(got), len(want))
	}
	for i, w := range want {
		if got[i].ID != w.ID || !bytes.Equal(got[i].Bytes, w.Bytes) {
			return fmt.Errorf("record %d is %q with %d bytes, want %q with %d bytes (or the bytes differ)", i, got[i].ID, len(got[i].Bytes), w.ID, len(w.Bytes))
		}
	}
	return nil
}

func checkExtra(c *ExtraCase, cov *Cov) error {
	recs := c.records()
	xd := flate.ExtraData{Records: recs}
	enc := xd.AsBytes()
	if err := diffBytes("encoded records", enc, refExtra(recs)); err != nil {
		return err
	}
	// the encoding is not tied to the records
	if err := sameRecords(recs, c.records()); err != nil {
		return fmt.Errorf("AsBytes changed the records: %w", err)
	}
	var back flate.ExtraData
	for _, r := range c.Prev {
		back.Records = append(back.Records, flate.ExtraDataRecord{ID: [2]byte{byte(r.A), byte(r.B)}, Bytes: r.D})
	}
	prev := append([]flate.ExtraDataRecord{}, back.Records...)
	back.Parse(enc)
	if err := sameRecords(back.Records, recs); err != nil {
		return fmt.Errorf("parsing encoded records: %w", err)
	}
	for i, r := range c.Prev {
		if !bytes.Equal(prev[i].Bytes, r.D) {
			return fmt.Errorf("Parse changed the bytes of a record the receiver held before")
		}
	}
	// any bytes
	raw := append(refExtra(recs), c.Raw...)
	keep := append([]byte{}, raw...)
	var any flate.ExtraData
	any.Records = prev
	any.Parse(raw)
	want := refRecords(keep)
	if err := sameRecords(any.Records, want); err != nil {
		return fmt.Errorf("parsing %d bytes: %w", len(raw), err)
	}
	if !bytes.Equal(raw, keep) {
		return fmt.Errorf("Parse changed its input")
	}
	pre := any.AsBytes()
	if !bytes.HasPrefix(keep, pre) {
		return fmt.Errorf("encoding the parsed records gives no prefix of the input: %v", diffBytes("encoding", pre, keep))
	}
	if diffBytes("", pre, refExtra(want)) != nil {
		return fmt.Errorf("encoding the parsed records gives %d bytes, want %d", len(pre), len(refExtra(want)))
	}
	cov.ClassIf(len(pre) < len(keep), "trailing bytes")
	cov.ClassIf(len(want) > len(recs), "records in arbitrary bytes")
	cov.ClassIf(len(c.Prev) > 0, "receiver used before")
	for _, r := range want {
		cov.ClassIf(len(r.Bytes) == 0, "empty records")
		cov.ClassIf(len(r.Bytes) == 65535, "largest records")
	}
	cov.Nontrivial(len(keep) > 0)
	return nil
}

func genRecs(t *rapid.T, label string) (out []Rec) {
	for i := pick(t, label, 0, 1, 1, 2, 3, 6); i > 0; i-- {
		out = append(out, Rec{uni(t, 0, 255, "ra"), uni(t, 0, 255, "rb"), genBytes(t, pick(t, "rl", 0, 4, 10, 300, 3000), "rd")})
	}
	return
}

// genRawExtra draws bytes which may or may not be records.
func genRawExtra(t *rapid.T, maxN int) []byte {
	switch uni(t, 0, 4, "rawkind") {
	case 0:
		return nil
	case 1:
		return genBytes(t, maxN, "raw")
	case 2: // a record with a length near what follows
		b := genBytes(t, min(maxN-4, 300), "rec")
		n := max(0, len(b)+uni(t, -3, 3, "off"))
		return append([]byte{byte(uni(t, 0, 255, "i0")), byte(uni(t, 0, 255, "i1")), byte(n), byte(n >> 8)}, b...)
	case 3: // a huge length
		return append([]byte{'h', 'g', byte(uni(t, 0, 255, "lo")), pick(t, "hi", byte(255), 127, 128, 1)}, genBytes(t, min(maxN-4, 40), "rec")...)
	}
	return genBytes(t, 5, "raw")
}

// ExtraStream is a stream with an extra field.
type ExtraStream struct {
	C  StreamsCase
	R  DecOpts
	WB int
}

func checkExtraStream(c *ExtraStream, cov *Cov) error {
	b := c.C.build()
	ro := c.R.ropts(ref.Gzip, c.C.Dict)
	res := refOK(b.In, ro.refOptions(), b.Content)
	var captured flate.Header
	var kept []*flate.Header
	rec := &Recorder{}
	keep := flate.TracerFunc(func(e flate.Event) {
		if e.Type == flate.StreamHeaderEvent {
			kept = append(kept, e.Header)
		}
	})
	r := decompress(ro, b.In, c.R.Ch, len(b.Content)+100, flate.CaptureHeader(&captured), rec, keep)
	if err := r.expectClean("decompressing streams with extra fields", b.Content); err != nil {
		return err
	}
	i := 0
	for _, e := range rec.take() {
		if e.Type != flate.StreamHeaderEvent {
			continue
		}
		if i >= len(res.Streams) || e.Header == nil {
			return fmt.Errorf("header event %d of %d streams: %v", i, len(res.Streams), e.Header)
		}
		want := refRecords(res.Streams[i].Hdr.Extra)
		if err := sameRecords(e.Header.ExtraData.Records, want); err != nil {
			return fmt.Errorf("stream %d: %w", i, err)
		}
		if err := sameRecords(kept[i].ExtraData.Records, want); err != nil {
			return fmt.Errorf("stream %d, looking at the header after the end: %w", i, err)
		}
		i++
	}
	if i != len(res.Streams) {
		return fmt.Errorf("%d header events for %d streams", i, len(res.Streams))
	}
	last := res.Streams[i-1].Hdr
	if err := sameRecords(captured.ExtraData.Records, refRecords(last.Extra)); err != nil {
		return fmt.Errorf("captured header, after the end: %w", err)
	}
	if captured.FileName != kept[i-1].FileName || captured.Comment != kept[i-1].Comment {
		return fmt.Errorf("captured header has name %q and comment %q, the event %q and %q", captured.FileName, captured.Comment, kept[i-1].FileName, kept[i-1].Comment)
	}
	for _, s := range res.Streams {
		n := len(refExtra(refRecords(s.Hdr.Extra)))
		cov.ClassIf(len(s.Hdr.Extra) > n, "ill-formed fields")
		cov.ClassIf(n > 0, "fields with records")
		cov.ClassIf(len(s.Hdr.Extra) > 32768, "fields over 32 KiB")
		cov.Nontrivial(len(s.Hdr.Extra) > 0)
	}
	return nil
}

func init() {
	reg("C25", "records", "lists of records up to 65535 bytes, followed by nothing or by arbitrary bytes, near-complete records and huge lengths; encoding and parsing against an independent codec; non-trivial: at least one byte", 240000, 2880000, func(t *rapid.T) *ExtraCase {
		c := &ExtraCase{Recs: genRecs(t, "recs"), Raw: genRawExtra(t, 4000)}
		if pct(t, 4, "big") {
			for i := uni(t, 1, 2, "nbig"); i > 0; i-- {
				c.Big = append(c.Big, pick(t, "bign", 65535, 65534, 32768, 32767, 256, 255, uni(t, 0, 65535, "bn")))
			}
		}
		if pct(t, 30, "prev") {
			c.Prev = genRecs(t, "prev")
		}
		return c
	}, checkExtra)
	reg("C25", "streams", "gzip streams (also concatenated) whose extra fields hold records, near-records, huge lengths and arbitrary bytes, read in generated chunkings; the header events, as delivered and after the end, against an independent parser; non-trivial: a non-empty extra field", 56000, 672000, func(t *rapid.T) *ExtraStream {
		c := &ExtraStream{C: genStreams(t, ref.Gzip, 0, 3, false, false), R: genDecOpts(t)}
		for i := range c.C.S {
			if pct(t, 85, "give") {
				h := &c.C.S[i].H
				h.Flags |= 4
				h.Extra = refExtra((&ExtraCase{Recs: genRecs(t, "recs")}).records())
				if pct(t, 5, "bigfield") {
					h.Extra = append(h.Extra, refExtra((&ExtraCase{Big: []int{pick(t, "bf", 40000, 50000, 9000)}}).records())...)
				}
				h.Extra = append(h.Extra, genRawExtra(t, 400)...)
				if pct(t, 3, "max") {
					p := make([]byte, 65535)
					copy(p, h.Extra)
					h.Extra = p
				}
				h.Extra = h.Extra[:min(len(h.Extra), 65535)]
			}
		}
		return c
	}, checkExtraStream)
}
