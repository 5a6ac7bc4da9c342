package main

import (
	"bufio"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strings"

	"pgregory.net/rapid"

	flate "github.com/chronos-tachyon/flate"

	"flateverif/ref"
)

// BitCase is something to do on both builds: a compressor history whose output
// is read back, or the decompression of any input.
type BitCase struct {
	H    *HistCase `json:",omitempty"`
	Hdr  *Hdr      `json:",omitempty"`
	Next []Op      `json:",omitempty"` // after a Reset, over the same data
	B    *BadCase  `json:",omitempty"`
	M    *Made     `json:",omitempty"`
	Mut  []Mut     `json:",omitempty"`
	Cut  int       // per mille kept; 0: all
	Auto bool
	Ch   Chunking
	ML   int
}

// BitResult is what can be observed.
type BitResult struct {
	Out   []byte // compressed
	Ops   string // outcomes of the operations
	In    []byte // the input of the decompressor
	Dec   []byte // decompressed
	Kind  string // kind of the final error
	Bad   string
	EvC   []string // events of the compressor
	EvD   []string // events of the decompressor
	Panic string
}

func (c *BitCase) run() (res BitResult) {
	defer func() {
		if r := recover(); r != nil {
			if h, ok := r.(harnessBug); ok {
				panic(h)
			}
			res.Panic = fmt.Sprint(r)
		}
	}()
	ops := func(run *WRun) {
		for _, o := range run.Results {
			res.Ops += fmt.Sprintf("%s(%d)=%v", o.Op, o.N, o.Err)
			if o.Op != "w" && o.Op != "f0" {
				// what is emitted before a flush asks for it may depend on
				// the size of the bit buffer
				res.Ops += fmt.Sprintf("@%d", o.Len)
			}
			res.Ops += " "
		}
	}
	var ro ROpts
	switch {
	case c.H != nil:
		data := c.H.data()
		d := newDst()
		rec := &Recorder{}
		defer func() {
			for _, e := range rec.take() {
				if e.Type != flate.StreamEndEvent && e.Type != flate.StreamCloseEvent {
					e.OutputBytesTotal, e.OutputBytesStream = 0, 0 // see above
				}
				res.EvC = append(res.EvC, e.String())
			}
		}()
		fw := flate.NewWriter(d.writer(0), append(c.H.O.options(), flate.WithTracers(rec))...)
		if c.Hdr != nil {
			res.Ops += fmt.Sprint(fw.SetHeader(c.Hdr.header()), " ")
		}
		ops(runOps(fw, d, data, c.H.Ops, true, true))
		res.Out = d.Buf
		if c.Next != nil {
			e := newDst()
			fw.Reset(e.writer(0))
			ops(runOps(fw, e, data, c.Next, true, true))
			res.Out = append(res.Out, e.Buf...)
		}
		res.In, ro = res.Out, c.H.ropts()
	case c.B != nil:
		res.In = c.B.input()
		ro = ROpts{F: c.B.F, ML: c.B.ML, WB: c.B.WB, Dict: c.B.C.Dict}
	default:
		in, _, dict, f, err := c.M.make()
		if err != nil {
			res.Ops = err.Error()
			return
		}
		res.In = mutate(in, c.Mut)
		ro = ROpts{F: int(f), ML: c.ML, Dict: dict}
		if c.Auto && f != ref.Raw {
			ro.F = 0
		}
	}
	if c.Cut > 0 {
		res.In = res.In[:len(res.In)*c.Cut/1000]
	}
	rec := &Recorder{}
	r := decompress(ro, res.In, c.Ch, maxOutBad, rec)
	if !r.Many {
		for _, e := range rec.take() {
			res.EvD = append(res.EvD, e.String())
		}
	}
	res.Dec, res.Kind, res.Bad = r.Out, errKind(r.Err), r.Bad
	if r.Many {
		res.Kind = "too much data"
	}
	return
}

// ---- the other process ----

func init() {
	subcommands["serve26"] = func([]string) {
		in, out := bufio.NewReader(os.Stdin), bufio.NewWriter(os.Stdout)
		for {
			b, err := readFrame(in)
			if err != nil {
				return
			}
			var c BitCase
			if err := json.Unmarshal(b, &c); err != nil {
				panic(harnessBug(err.Error()))
			}
			r := c.run()
			writeFrame(out, mustJSON(r))
			out.Flush()
		}
	}
}

func readFrame(r io.Reader) ([]byte, error) {
	var n [4]byte
	if _, err := io.ReadFull(r, n[:]); err != nil {
		return nil, err
	}
	b := make([]byte, binary.LittleEndian.Uint32(n[:]))
	_, err := io.ReadFull(r, b)
	return b, err
}

func writeFrame(w io.Writer, b []byte) error {
	var n [4]byte
	binary.LittleEndian.PutUint32(n[:], uint32(len(b)))
	if _, err := w.Write(n[:]); err != nil {
		return err
	}
	_, err := w.Write(b)
	return err
}

type peer struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
	err strings.Builder
}

var thePeer *peer

func (p *peer) ask(c *BitCase) (*BitResult, error) {
	if err := writeFrame(p.in, mustJSON(c)); err != nil {
		return nil, err
	}
	b, err := readFrame(p.out)
	if err != nil {
		return nil, err
	}
	r := &BitResult{}
	return r, json.Unmarshal(b, r)
}

func startPeer() *peer {
	bin := os.Getenv("VH_BIN_386")
	if bin == "" {
		panic(harnessBug("no 386 build"))
	}
	p := &peer{cmd: exec.Command(bin, "serve26")}
	var err error
	p.in, err = p.cmd.StdinPipe()
	must(err == nil, "pipe")
	o, err := p.cmd.StdoutPipe()
	must(err == nil, "pipe")
	p.out = bufio.NewReader(o)
	p.cmd.Stderr = &p.err
	if err := p.cmd.Start(); err != nil {
		panic(harnessBug("cannot start the 386 build: " + err.Error()))
	}
	return p
}

func checkBits(c *BitCase, cov *Cov) error {
	if thePeer == nil {
		thePeer = startPeer()
	}
	want := c.run()
	got, err := thePeer.ask(c)
	if err != nil {
		p := thePeer
		thePeer = nil
		p.in.Close()
		p.cmd.Wait()
		st := p.err.String()
		if strings.Contains(st, "harnessBug") || !strings.Contains(st, "chronos-tachyon") {
			panic(harnessBug("the 386 process ended: " + err.Error() + "\n" + firstLines(st, 40)))
		}
		return fmt.Errorf("the 32-bit build crashed: %s", headline(st))
	}
	if got.Panic != want.Panic {
		return fmt.Errorf("panic on 32 bits: %q; on 64 bits: %q", got.Panic, want.Panic)
	}
	if err := diffBytes("compressed output on 32 bits (got) and 64 bits (want)", got.Out, want.Out); err != nil {
		return err
	}
	if got.Ops != want.Ops {
		return fmt.Errorf("operations on 32 bits: %s; on 64 bits: %s", clip(got.Ops), clip(want.Ops))
	}
	if diffBytes("", got.In, want.In) != nil {
		if c.M != nil && c.M.Own != nil {
			return diffBytes("compressed output on 32 bits (got) and 64 bits (want)", got.In, want.In)
		}
		panic(harnessBug("generated inputs depend on the build"))
	}
	if err := diffBytes("decompressed data on 32 bits (got) and 64 bits (want)", got.Dec, want.Dec); err != nil {
		return fmt.Errorf("%w; final errors %s and %s", err, got.Kind, want.Kind)
	}
	if got.Kind != want.Kind || got.Bad != want.Bad {
		return fmt.Errorf("final error on 32 bits: %s %s; on 64 bits: %s %s", got.Kind, got.Bad, want.Kind, want.Bad)
	}
	if err := sameLines("compressor events", got.EvC, want.EvC); err != nil {
		return err
	}
	if err := sameLines("decompressor events", got.EvD, want.EvD); err != nil {
		return err
	}
	cov.Class("final error " + want.Kind)
	cov.ClassIf(c.H != nil && len(c.H.Ops) > 0, "histories with flushes")
	cov.ClassIf(len(want.Dec) > 65536, "over 64 KiB")
	cov.Nontrivial(len(want.In) > 2)
	return nil
}

func sameLines(what string, got, want []string) error {
	for i := 0; i < len(got) && i < len(want); i++ {
		if got[i] != want[i] {
			return fmt.Errorf("%s: event %d on 32 bits: %s; on 64 bits: %s", what, i, clip(got[i]), clip(want[i]))
		}
	}
	if len(got) != len(want) {
		return fmt.Errorf("%s: %d on 32 bits, %d on 64 bits", what, len(got), len(want))
	}
	return nil
}

func init() {
	reg("C26", "compress", "compressor histories (as for C01), with a header and a Reset at times, on a 386 and an amd64 build: output, outcome of every operation, tracer events, and what a decompressor returns and reports to tracers for the output; non-trivial: more than 2 bytes", 6000, 150000, func(t *rapid.T) *BitCase {
		c := &BitCase{H: genHist(t, 80000), Ch: genChunking(t)}
		if pct(t, 25, "trees") {
			c.H = genHistTrees(t)
		}
		if pct(t, 20, "next") {
			c.Next = genOps(t, totalN(c.H.Data), true)
		}
		if pct(t, 20, "hdr") {
			h := genHdr(t)
			c.Hdr = &h
		}
		return c
	}, checkBits)
	reg("C26", "decompress", "conforming streams (built, the library's, the Go standard library's), cut and mutated at times, on a 386 and an amd64 build: data, kind of the final error and tracer events; non-trivial: more than 2 bytes", 8000, 200000, func(t *rapid.T) *BitCase {
		m := genMade(t, anyFormat(t), 40000, 3)
		c := &BitCase{M: &m, Auto: pct(t, 30, "auto"), ML: genML(t), Ch: genChunking(t)}
		if pct(t, 30, "cut") {
			c.Cut = uni(t, 1, 999, "cutat")
		} else if pct(t, 40, "mut") {
			c.Mut = genMuts(t, uni(t, 1, 3, "nm"))
		}
		return c
	}, checkBits)
	reg("C26", "corrupt", "arbitrary bytes, mutated streams and streams with planted violations, on a 386 and an amd64 build: data, kind of the final error and tracer events; non-trivial: more than 2 bytes", 8000, 200000, func(t *rapid.T) *BitCase {
		b := genBad(t)
		return &BitCase{B: b, Ch: b.Ch}
	}, checkBits)
}
