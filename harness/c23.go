package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"time"

	"pgregory.net/rapid"

	flate "github.com/chronos-tachyon/flate"

	"flateverif/ref"
)

// ---- running the command ----

// Cmd is one run of the command, apart from its input.
type Cmd struct {
	O    WOpts
	Dec  bool
	Hdr  *Hdr   `json:",omitempty"` // name, comment and time
	Sp   uint64 // how the flags are spelled and ordered
	In   int    // 0 pipe, 1 regular file
	Log  int    // 0 none, 1 -v, 2 -D, 3 -L, 4 -v -L, 5 -D -L
	Junk []string
}

var formatNames = []string{"auto", "raw", "zlib", "gzip"}
var strategyNames = []string{"default", "huffman-only", "huffman-rle", "fixed"}

// args spells the flags; dictionaries may need a file in dir.
func (c *Cmd) args(dir string) []string {
	r := ref.Rng(c.Sp)
	recase := func(s string) string {
		if !r.Pct(20) {
			return s
		}
		b := []byte(s)
		for i := range b {
			if b[i] >= 'a' && b[i] <= 'z' && r.Pct(50) {
				b[i] -= 32
			}
		}
		return string(b)
	}
	var groups [][]string
	flagArg := func(short, long, v string) {
		switch {
		case short == "" && r.Pct(50), short != "" && r.Pct(25):
			groups = append(groups, []string{"--" + long + "=" + v})
		case short == "" || r.Pct(33):
			groups = append(groups, []string{"--" + long, v})
		case r.Pct(50):
			groups = append(groups, []string{"-" + short, v})
		default:
			groups = append(groups, []string{"-" + short + v})
		}
	}
	if c.O.F != 0 || r.Pct(20) {
		flagArg("F", "format", recase(formatNames[c.O.F]))
	}
	if c.O.St != 0 || r.Pct(20) {
		flagArg("S", "strategy", recase(strategyNames[c.O.St]))
	}
	switch {
	case c.O.CL == 99:
	case c.O.CL == -1:
		flagArg("C", "compress-level", recase("default"))
	case r.Pct(60):
		groups = append(groups, []string{"-" + strconv.Itoa(c.O.CL)})
	case c.O.CL == 0 && r.Pct(50):
		flagArg("C", "compress-level", recase("none"))
	default:
		flagArg("C", "compress-level", strconv.Itoa(c.O.CL))
	}
	if c.O.ML != 0 {
		flagArg("M", "memory-level", strconv.Itoa(c.O.ML))
	} else if r.Pct(20) {
		flagArg("M", "memory-level", recase("default"))
	}
	if c.O.WB != 0 {
		flagArg("W", "window-size-bits", strconv.Itoa(c.O.WB))
	} else if r.Pct(20) {
		flagArg("W", "window-size-bits", recase("default"))
	}
	if d := c.O.dict(); d != nil {
		if r.Pct(60) && len(d) < 60000 && bytes.IndexByte(d, 0) < 0 && d[0] != '@' {
			flagArg("", "dictionary", string(d))
		} else {
			p := filepath.Join(dir, "dict")
			if err := os.WriteFile(p, d, 0o644); err != nil {
				panic(harnessBug(err.Error()))
			}
			flagArg("", "dictionary", "@"+p)
		}
	}
	if h := c.Hdr; h != nil {
		if len(h.Name) > 0 {
			flagArg("", "filename", string(h.Name))
		}
		if len(h.Comm) > 0 {
			flagArg("", "comment", string(h.Comm))
		}
		if h.HasT {
			flagArg("", "last-modified", h.header().LastModified.Format(time.RFC3339))
		}
	}
	if c.Dec {
		groups = append(groups, []string{[]string{"-d", "--decompress"}[r.N(2)]})
	}
	if r.Pct(20) {
		groups = append(groups, []string{[]string{"-c", "--stdout"}[r.N(2)]})
	}
	if r.Pct(10) {
		groups = append(groups, []string{[]string{"-k", "--keep", "-f", "--force"}[r.N(4)]})
	}
	switch c.Log {
	case 1, 4:
		groups = append(groups, []string{[]string{"-v", "--verbose"}[r.N(2)]})
	case 2, 5:
		groups = append(groups, []string{[]string{"-D", "--debug"}[r.N(2)]})
	}
	if c.Log >= 3 {
		groups = append(groups, []string{[]string{"-L", "--log-stderr"}[r.N(2)]})
	}
	if len(c.Junk) > 0 {
		groups = append(groups, c.Junk)
	}
	for i := len(groups) - 1; i > 0; i-- {
		j := r.N(i + 1)
		groups[i], groups[j] = groups[j], groups[i]
	}
	var out []string
	for _, g := range groups {
		out = append(out, g...)
	}
	return out
}

type cmdResult struct {
	out, errs []byte
	status    int // -1: killed by a signal
}

func cmdBinary() string {
	p := filepath.Join(os.Getenv("VH_SCRATCH"), "vh-gzip")
	if _, err := os.Stat(p); err != nil {
		panic(harnessBug("no gzip command: " + err.Error()))
	}
	return p
}

// run runs the command; sink is where standard output goes: 0 a buffer, 1
// /dev/full, 2 a pipe nobody reads from, 3 a descriptor opened for reading,
// 4 a file which must not grow beyond fsize KiB.
func (c *Cmd) run(in []byte, sink, fsize int) (*cmdResult, error) {
	dir, err := os.MkdirTemp(os.Getenv("VH_SCRATCH"), "cmd.")
	if err != nil {
		panic(harnessBug(err.Error()))
	}
	defer os.RemoveAll(dir)
	return c.runIn(dir, in, sink, fsize)
}

func (c *Cmd) runIn(dir string, in []byte, sink, fsize int) (*cmdResult, error) {
	bug := func(err error) {
		if err != nil {
			panic(harnessBug(err.Error()))
		}
	}
	ctx, cancel := context.WithTimeout(context.Background(), 120*time.Second)
	defer cancel()
	args := c.args(dir)
	name := cmdBinary()
	if sink == 4 {
		args = append([]string{"-c", fmt.Sprintf("ulimit -f %d; exec \"$0\" \"$@\"", fsize*2), name}, args...)
		name = "/bin/sh"
	}
	cmd := exec.CommandContext(ctx, name, args...)
	cmd.Dir = dir
	cmd.Env = []string{"PATH=/usr/bin:/bin", "GOMAXPROCS=2", "GOTRACEBACK=single"}
	var out, errs bytes.Buffer
	cmd.Stderr = &errs
	switch {
	case c.In == 2: // cannot be read
		f, err := os.Open(dir)
		bug(err)
		defer f.Close()
		cmd.Stdin = f
	case c.In == 1:
		p := filepath.Join(dir, "in")
		bug(os.WriteFile(p, in, 0o644))
		f, err := os.Open(p)
		bug(err)
		defer f.Close()
		cmd.Stdin = f
	default:
		cmd.Stdin = struct{ io.Reader }{bytes.NewReader(in)}
	}
	switch sink {
	case 0:
		cmd.Stdout = &out
	case 1:
		f, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
		bug(err)
		defer f.Close()
		cmd.Stdout = f
	case 2:
		r, w, err := os.Pipe()
		bug(err)
		r.Close()
		defer w.Close()
		cmd.Stdout = w
	case 3:
		f, err := os.Open("/dev/null")
		bug(err)
		defer f.Close()
		cmd.Stdout = f
	case 4:
		f, err := os.Create(filepath.Join(dir, "out"))
		bug(err)
		defer f.Close()
		cmd.Stdout = f
	}
	err := cmd.Run()
	res := &cmdResult{out: out.Bytes(), errs: errs.Bytes()}
	if ctx.Err() != nil {
		return nil, fmt.Errorf("the command did not end within two minutes")
	}
	var ee *exec.ExitError
	switch {
	case err == nil:
	case errors.As(err, &ee):
		res.status = ee.ExitCode()
	case cmd.ProcessState != nil:
		// an error while feeding standard input: the command ended early
		res.status = cmd.ProcessState.ExitCode()
	default:
		bug(err)
	}
	return res, nil
}

func (c *Cmd) describe() string {
	var show []string
	dir := "DIR"
	d := *c
	d.O.Dict = nil
	for _, a := range d.args(dir) {
		show = append(show, strconv.Quote(a))
	}
	return clip("gzip " + strings.Join(show, " "))
}

func firstLine(b []byte) string {
	s, _, _ := strings.Cut(string(b), "\n")
	return clip(s)
}

// refused checks a run that must fail.
func (r *cmdResult) refused(what string) error {
	if r.status == 0 {
		return fmt.Errorf("%s: exit status 0", what)
	}
	if len(bytes.TrimSpace(r.errs)) == 0 {
		return fmt.Errorf("%s: exit status %d without any message on standard error", what, r.status)
	}
	return nil
}

// ---- compressing, and back ----

// FilterCase compresses with the command.
type FilterCase struct {
	C    Cmd
	Data []Seg
	D    Cmd // for the way back
}

// libLike is what the library produces with the options of the command and
// some way of writing.
func (c *FilterCase) libLike(data []byte, o WOpts, way int) ([]byte, error) {
	if o.F == 0 {
		o.F = 3
	}
	d := newDst()
	fw := flate.NewWriter(d.writer(0), o.options()...)
	if h := c.C.Hdr; h != nil {
		if err := fw.SetHeader(h.header()); err != nil {
			return nil, err
		}
	}
	n := []int{len(data), 32768, 65536}[way]
	for p := 0; p < len(data); p += n {
		if _, err := fw.Write(data[p:min(len(data), p+n)]); err != nil {
			return nil, err
		}
	}
	if err := fw.Close(); err != nil {
		return nil, err
	}
	return d.Buf, nil
}

func checkFilter(c *FilterCase, cov *Cov) error {
	o := c.C.O
	if o.F == 0 {
		o.F = 3
	}
	data := expandWith(c.Data, o.dict())
	r, err := c.C.run(data, 0, 0)
	if err != nil {
		return fmt.Errorf("%s: %w", c.C.describe(), err)
	}
	what := c.C.describe()
	if r.status != 0 {
		return fmt.Errorf("%s: exit status %d; %s", what, r.status, firstLine(r.errs))
	}
	res, err := strict(o, r.out, data)
	if err != nil {
		return fmt.Errorf("%s: %w", what, err)
	}
	for i, s := range res.Streams {
		if err := levelHint(o, s.Hdr); err != nil {
			return fmt.Errorf("%s: stream %d: %w", what, i, err)
		}
		switch o.format() {
		case ref.Gzip:
			want := Hdr{}
			if c.C.Hdr != nil {
				want = *c.C.Hdr
			}
			want.DT = utUnknown
			g := flate.Header{FileName: string(s.Hdr.Name), Comment: string(s.Hdr.Comment), DataType: flate.BinaryData}
			if s.Hdr.FTEXT {
				g.DataType = flate.TextData
			}
			if s.Hdr.MTIME != 0 {
				g.LastModified = time.Unix(int64(s.Hdr.MTIME), 0)
			}
			if err := sameHeader(g, want, s.Hdr.FTEXT); err != nil {
				return fmt.Errorf("%s: stream %d: %w", what, i, err)
			}
		}
		for j, b := range s.D.Blocks {
			if o.St == 1 && b.Matches > 0 || o.St == 2 && b.Matches > 0 && b.MaxDist > 1 || o.St == 3 && b.Type == 2 || o.level() == 0 && b.Type != 0 && b.Literals+b.Matches > 0 {
				return fmt.Errorf("%s: block %d (type %d, %d matches, distances up to %d) does not fit the strategy or level", what, j, b.Type, b.Matches, b.MaxDist)
			}
			if b.MaxDist > 1<<uint(o.wbits()) {
				return fmt.Errorf("%s: block %d has distances up to %d", what, j, b.MaxDist)
			}
		}
	}
	// not exactly what another level, strategy, memory level or window size gives,
	// unless the asked one gives it too
	if len(data) > 100 {
		same := func(o WOpts) (bool, error) {
			for way := 0; way < 3; way++ {
				b, err := c.libLike(data, o, way)
				if err != nil {
					return false, fmt.Errorf("in process: %w", err)
				}
				if bytes.Equal(b, r.out) {
					return true, nil
				}
			}
			return false, nil
		}
		ok, err := same(o)
		if err != nil {
			return err
		}
		cov.ClassIf(ok, "same bytes as the library")
		if !ok {
			for x := 0; x <= 15; x++ {
				try := func(o WOpts, what2 string) error {
					if ok, _ := same(o); ok {
						return fmt.Errorf("%s: the output is that of %s %d", what, what2, x)
					}
					return nil
				}
				cl, ml, wb, st := o, o, o, o
				cl.CL, ml.ML, wb.WB, st.St = x, x, x, x
				var err error
				if x <= 9 {
					err = errors.Join(err, try(cl, "level"))
				}
				if 1 <= x && x <= 9 {
					err = errors.Join(err, try(ml, "memory level"))
				}
				if 8 <= x {
					err = errors.Join(err, try(wb, "window bits"))
				}
				if x <= 3 {
					err = errors.Join(err, try(st, "strategy"))
				}
				if err != nil {
					return err
				}
			}
			cov.Class("other bytes than the library")
		}
		cov.ClassIf(ok && o.ML != 0 && len(data) > 1<<uint(o.ML+6), "memory level matters")
	}
	// and back
	back := c.D
	back.Dec, back.O.Dict, back.Hdr = true, o.Dict, nil
	if back.O.F != 0 || o.F == 1 {
		back.O.F = o.F
	}
	r2, err := back.run(r.out, 0, 0)
	if err != nil {
		return fmt.Errorf("%s: %w", back.describe(), err)
	}
	if r2.status != 0 {
		return fmt.Errorf("%s: exit status %d on the output of %s; %s", back.describe(), r2.status, what, firstLine(r2.errs))
	}
	if err := diffBytes(back.describe(), r2.out, data); err != nil {
		return err
	}
	cov.Class("format " + formatNames[o.F])
	cov.Class("strategy " + strategyNames[o.St])
	cov.Class(fmt.Sprintf("level %d", o.level()))
	cov.ClassIf(o.dict() != nil, "with dictionary")
	cov.ClassIf(c.C.Hdr != nil && o.F == 3, "with header fields")
	cov.ClassIf(len(r.errs) > 0, "with log output")
	cov.Nontrivial(len(data) > 16)
	return nil
}

// textDict makes a dictionary likely to be given as an argument.
func cmdOpts(t *rapid.T) WOpts {
	o := genWOpts(t)
	if o.Dict != nil && pct(t, 50, "textdict") {
		o.Dict = []Seg{{K: "text", N: uni(t, 1, 5000, "n"), S: rapid.Uint64().Draw(t, "s")}}
	}
	return o
}

func genCmd(t *rapid.T, dec bool) Cmd {
	c := Cmd{Dec: dec, Sp: rapid.Uint64().Draw(t, "sp"), In: uni(t, 0, 1, "in"), Log: pick(t, "log", 0, 0, 0, 0, 1, 2, 3, 4, 5)}
	if dec {
		c.O = WOpts{CL: 99, ML: genML(t)}
		return c
	}
	c.O = cmdOpts(t)
	if pct(t, 60, "hdr") {
		h := genHdr(t)
		c.Hdr = &Hdr{Name: h.Name, Comm: h.Comm, HasT: h.HasT, Sec: h.Sec, Zone: h.Zone}
		if c.Hdr.Zone%4 != 0 {
			c.Hdr.Zone = 0
		}
	}
	return c
}

// ---- other tools' streams, corrupt input ----

// RestoreCase decompresses with the command: anything.
type RestoreCase struct {
	M   *Made `json:",omitempty"`
	B   *BadCase
	Mut []Mut `json:",omitempty"`
	Cut int   // per mille of the input kept; 0: all
	C   Cmd
}

func checkRestore(c *RestoreCase, cov *Cov) error {
	cmd := c.C
	cmd.Dec, cmd.Hdr = true, nil
	var in []byte
	if c.M != nil {
		b, _, dict, f, err := c.M.make()
		if err != nil {
			return err
		}
		in = mutate(b, c.Mut)
		cmd.O.Dict = dict
		if cmd.O.F != 0 || f == ref.Raw {
			cmd.O.F = int(f)
		}
	} else {
		in = c.B.input()
		cmd.O.Dict, cmd.O.F = c.B.C.Dict, c.B.F
		if c.B.WB != 0 {
			cmd.O.WB = c.B.WB
		}
	}
	if c.Cut > 0 {
		in = in[:len(in)*c.Cut/1000]
	}
	ro := ROpts{F: cmd.O.F, ML: cmd.O.ML, WB: cmd.O.WB, Dict: cmd.O.Dict}.refOptions()
	ro.MaxOut = maxOutBad
	res := ref.Decode(in, ro)
	if res.Why == "limit" {
		cov.Class("too large")
		return nil
	}
	r, err := cmd.run(in, 0, 0)
	what := cmd.describe()
	if err != nil {
		return fmt.Errorf("%s: %w", what, err)
	}
	if !bytes.HasPrefix(res.Out, r.out) {
		return fmt.Errorf("%s: %w; reference: %v", what, diffBytes("output is not a prefix of the content", r.out, res.Out), res)
	}
	switch {
	case res.Kind == ref.OK:
		if res.Lenient && r.status != 0 {
			cov.Class("leniency not used")
			return r.refused(what)
		}
		if r.status != 0 {
			return fmt.Errorf("%s: exit status %d on well-formed input; %s; reference: %v", what, r.status, firstLine(r.errs), res)
		}
		if err := diffBytes(what, r.out, res.Out); err != nil {
			return err
		}
		cov.ClassIf(len(res.Streams) > 1, "concatenations")
		cov.ClassIf(c.M != nil && c.M.Std != nil, "from the standard library")
	default:
		if err := r.refused(fmt.Sprintf("%s on %v input", what, res)); err != nil {
			return err
		}
		if len(r.out) < res.MinOut {
			return fmt.Errorf("%s: only %d bytes came out before the error, %d are decodable: %v", what, len(r.out), res.MinOut, res)
		}
		cov.ClassIf(len(r.out) > 0, "data before the error")
	}
	cov.Class("input " + res.Kind.String())
	cov.Nontrivial(len(in) > 2)
	return nil
}

// ---- invalid flags ----

// BadFlagCase is a run with one thing wrong.
type BadFlagCase struct {
	C    Cmd
	Data []Seg
	Kind string
	Bad  []string
}

func checkBadFlags(c *BadFlagCase, cov *Cov) error {
	cmd := c.C
	cmd.Junk = c.Bad
	in := expand(c.Data)
	if cmd.Dec {
		in = stdCompress(ref.Gzip, 6, in, nil, 0)
	}
	r, err := cmd.run(in, 0, 0)
	if err != nil {
		return fmt.Errorf("%s: %w", cmd.describe(), err)
	}
	if err := r.refused(cmd.describe()); err != nil {
		return err
	}
	cov.Class(c.Kind)
	cov.ClassIf(cmd.Dec, "decompressing")
	cov.Nontrivial(true)
	return nil
}

func genBadFlags(t *rapid.T) *BadFlagCase {
	c := &BadFlagCase{C: genCmd(t, pct(t, 40, "dec")), Data: []Seg{genSeg(t, 3000)}}
	c.C.O.Dict = nil
	kinds := []string{"format", "strategy", "level", "memory", "window", "unknown flag", "flag with a value", "dictionary", "time", "two levels"}
	if !c.C.Dec {
		kinds = append(kinds, "file name", "comment", "time range")
	}
	c.Kind = kinds[uni(t, 0, len(kinds)-1, "kind")]
	form := func(short, long, v string) []string {
		switch {
		case short != "" && pct(t, 40, "short") && v != "":
			return []string{"-" + short, v}
		case pct(t, 50, "eq"):
			return []string{"--" + long + "=" + v}
		}
		return []string{"--" + long, v}
	}
	num := func(lo, hi int) string {
		return pick(t, "num", strconv.Itoa(lo-1), strconv.Itoa(hi+1), strconv.Itoa(hi+uni(t, 1, 400, "over")), strconv.Itoa(256+hi), "4294967300", "18446744073709551622", strconv.Itoa(hi)+"x", " "+strconv.Itoa(hi), strconv.Itoa(hi)+" ", "0x9", strconv.Itoa(hi)+".0", "1e0", "-1", "+9", "best", "fast", "defaul", "defaults")
	}
	junk := func(valid ...string) string {
		s := pick(t, "near", valid...)
		switch uni(t, 0, 3, "nearc") {
		case 0:
			return s + "x"
		case 1:
			if len(s) > 1 {
				return s[:len(s)-1]
			}
		case 2:
			return " " + s
		}
		return pick(t, "junk", "deflate", "bzip2", "0", "1", "3", "x", "filtered", "rle", "huffman", "none", "unknown", "gz", "zip", "-")
	}
	switch c.Kind {
	case "format":
		c.C.O.F = 0
		c.Bad = form("F", "format", junk("auto", "gzip", "zlib", "raw", "default"))
	case "strategy":
		c.Bad = form("S", "strategy", junk("default", "huffman-only", "huffman-rle", "fixed"))
	case "level":
		c.C.O.CL = 99
		v := num(0, 9)
		c.Bad = form("C", "compress-level", v)
	case "memory":
		v := num(0, 9)
		c.Bad = form("M", "memory-level", v)
	case "window":
		c.Bad = form("W", "window-size-bits", pick(t, "w", num(8, 15), "0", "1", "5"))
	case "unknown flag":
		c.Bad = []string{pick(t, "uf", "--nonsense", "-q", "-Z", "--level=9", "-r", "--best", "--formats=gzip", "-dz", "--no-name")}
	case "flag with a value":
		c.Bad = []string{pick(t, "mv", "--verbose=maybe", "--decompress=2", "--stdout=x")}
	case "dictionary":
		c.Bad = form("", "dictionary", pick(t, "df", "@missing", "@/nonexistent/x", "@", "@."))
	case "time":
		c.Bad = form("", "last-modified", pick(t, "tm", "yesterday", "2020-01-01", "1600000000", "2020-13-01T00:00:00Z", "2020-01-32T00:00:00Z", "2020-01-01 00:00:00Z", "2020-01-01T25:00:00Z", ""))
		c.C.Hdr = nil
	case "time range":
		c.C.Hdr = nil
		c.Bad = form("", "last-modified", pick(t, "tm", "1969-12-31T23:59:59Z", "2106-02-07T06:28:16Z", "2200-01-01T00:00:00Z", "1900-01-01T00:00:00+05:00", "0002-01-01T00:00:00Z"))
	case "file name":
		c.C.Hdr = nil
		c.Bad = form("", "filename", pick(t, "fn", "a/b", "/", "a\\b", strings.Repeat("x", 256), strings.Repeat("y", 3000), "dir/", "C:\\x"))
	case "comment":
		c.C.Hdr = nil
		c.Bad = form("", "comment", strings.Repeat("c", pick(t, "cn", 256, 257, 1000, 70000)))
	case "two levels":
		c.C.O.CL = 99
		c.Bad = []string{"-" + strconv.Itoa(uni(t, 0, 4, "l1")), "-" + strconv.Itoa(uni(t, 5, 9, "l2"))}
		if pct(t, 40, "c") {
			c.Bad = []string{"-C5", "-9"}
		}
	}
	return c
}

// ---- unusable input and output ----

// SinkCase is a run whose output cannot be written or input not be read.
type SinkCase struct {
	C    Cmd
	Data []Seg
	Sink int // 1..4: see Cmd.run; 5: unreadable input
}

func checkSink(c *SinkCase, cov *Cov) error {
	cmd := c.C
	data := expandWith(c.Data, cmd.O.dict())
	in, outLen := data, 0
	lib := &FilterCase{C: cmd}
	lib.C.Dec = false
	b, err := lib.libLike(data, cmd.O, 1)
	if err != nil {
		return err
	}
	outLen = len(b)
	if cmd.Dec {
		in, outLen = b, len(data)
		if cmd.O.F == 0 {
			cmd.O.F = 3
		}
		cmd.Hdr = nil
	}
	fsize := 0
	switch c.Sink {
	case 4:
		// at most half of what it needs
		fsize = outLen / 2048
	case 5:
		cmd.In = 2
	}
	r, err := cmd.run(in, c.Sink%5, fsize)
	if err != nil {
		return fmt.Errorf("%s: %w", cmd.describe(), err)
	}
	sinks := []string{"", "to a full device", "to a closed pipe", "to a descriptor not open for writing", "to a file at its size limit", "from a directory"}
	what := cmd.describe() + " " + sinks[c.Sink]
	if outLen == 0 && c.Sink != 5 {
		cov.Class("nothing to write")
		return nil
	}
	if c.Sink == 2 {
		// the signal may end it before it can say anything
		if r.status == 0 {
			return fmt.Errorf("%s: exit status 0", what)
		}
	} else if err := r.refused(what); err != nil {
		return err
	}
	cov.Class(sinks[c.Sink])
	cov.ClassIf(cmd.Dec, "decompressing")
	cov.Nontrivial(true)
	return nil
}

func init() {
	reg("C23", "filter", "the command compresses generated data from a pipe or a file with generated flags, spelled in all ways, header fields and dictionaries; the output by the strict reference decoder, and the command itself restores it; non-trivial: more than 16 bytes", 2400, 60000, func(t *rapid.T) *FilterCase {
		return &FilterCase{C: genCmd(t, false), D: genCmd(t, true), Data: genData(t, 150000)}
	}, checkFilter)
	reg("C23", "restore", "the command decompresses streams of the builder, the library and the Go standard library, whole, mutated and cut; exit status and output against the strict reference decoder; non-trivial: more than 2 bytes", 3000, 80000, func(t *rapid.T) *RestoreCase {
		m := genMade(t, pick(t, "f", ref.Raw, ref.Zlib, ref.Gzip, ref.Gzip), 60000, 4)
		c := &RestoreCase{M: &m, C: genCmd(t, true)}
		c.C.O.F = pick(t, "give", 0, 1)
		if pct(t, 30, "cut") {
			c.Cut = uni(t, 1, 999, "cutat")
		} else if pct(t, 30, "mut") {
			c.Mut = genMuts(t, uni(t, 1, 3, "nm"))
		}
		return c
	}, checkRestore)
	reg("C23", "corrupt", "the command decompresses arbitrary bytes, and streams with planted violations; exit status, message and output against the strict reference decoder; non-trivial: more than 2 bytes", 2400, 60000, func(t *rapid.T) *RestoreCase {
		return &RestoreCase{B: genBad(t), C: genCmd(t, true)}
	}, checkRestore)
	reg("C23", "flags", "one invalid flag value, unknown flag or contradiction among valid flags: non-zero exit status and a message; non-trivial: all", 1200, 20000, genBadFlags, checkBadFlags)
	reg("C23", "sinks", "output to a full device, a closed pipe, a descriptor not open for writing or a file at its size limit; input that cannot be read: non-zero exit status; non-trivial: something to write", 1200, 20000, func(t *rapid.T) *SinkCase {
		c := &SinkCase{C: genCmd(t, false), Data: genData(t, 100000), Sink: uni(t, 1, 5, "sink")}
		c.C.Dec = pct(t, 40, "dec")
		return c
	}, checkSink)
}
