package main

import (
	"bytes"
	"fmt"
	"hash/crc32"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	"pgregory.net/rapid"

	flate "github.com/chronos-tachyon/flate"

	"flateverif/ref"
)

// ---- the command at the end of a pipe ----

// liveCmd is the command running with pipes on both sides.
type liveCmd struct {
	cmd  *exec.Cmd
	in   io.WriteCloser
	errs bytes.Buffer
	out  *gauge
	data []byte // its output, if keep
	keep bool
	crc  uint32
	done chan struct{}
}

func startLive(c *Cmd, dir string, keep bool) *liveCmd {
	l := &liveCmd{cmd: exec.Command(cmdBinary(), c.args(dir)...), out: newGauge(), keep: keep, done: make(chan struct{})}
	l.cmd.Dir = dir
	l.cmd.Env = []string{"PATH=/usr/bin:/bin", "GOMAXPROCS=2", "GOTRACEBACK=single"}
	l.cmd.Stderr = &l.errs
	in, err := l.cmd.StdinPipe()
	if err != nil {
		panic(harnessBug(err.Error()))
	}
	l.in = in
	out, err := l.cmd.StdoutPipe()
	if err != nil {
		panic(harnessBug(err.Error()))
	}
	if err := l.cmd.Start(); err != nil {
		panic(harnessBug(err.Error()))
	}
	go func() {
		defer close(l.done)
		buf := make([]byte, 65536)
		for {
			n, err := out.Read(buf)
			l.crc = crc32.Update(l.crc, crc32.IEEETable, buf[:n])
			l.out.mu.Lock()
			if l.keep {
				l.data = append(l.data, buf[:n]...)
			}
			l.out.mu.Unlock()
			l.out.add(n, err != nil)
			if err != nil {
				return
			}
		}
	}()
	return l
}

func (l *liveCmd) got() (int, bool) {
	l.out.mu.Lock()
	defer l.out.mu.Unlock()
	return l.out.n, l.out.end
}

// idle tells the CPU time of the command and whether all its threads sleep.
func (l *liveCmd) idle() (cpu int64, asleep bool) {
	files, _ := filepath.Glob(fmt.Sprintf("/proc/%d/task/*/stat", l.cmd.Process.Pid))
	asleep = true
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		s := string(b)
		fs := strings.Fields(s[strings.LastIndexByte(s, ')')+1:])
		if len(fs) < 13 {
			continue
		}
		if fs[0] != "S" {
			asleep = false
		}
		u, _ := strconv.ParseInt(fs[11], 10, 64)
		v, _ := strconv.ParseInt(fs[12], 10, 64)
		cpu += u + v
	}
	return cpu, asleep && len(files) > 0
}

// wait waits until n bytes of output have come; false: the command sleeps, and
// has done so for a while without using the processor.
func (l *liveCmd) wait(n int) bool {
	last, since := int64(-1), time.Now()
	for pause := time.Millisecond; ; pause = min(pause*2, 100*time.Millisecond) {
		heartbeat()
		if m, end := l.got(); m >= n || end {
			return m >= n
		}
		cpu, asleep := l.idle()
		if cpu != last || !asleep {
			last, since = cpu, time.Now()
		} else if time.Since(since) > 5*time.Second {
			return false
		}
		time.Sleep(pause)
	}
}

// peak is the most memory the command has had resident so far, in KiB.
func (l *liveCmd) peak() int {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/status", l.cmd.Process.Pid))
	if err != nil {
		return 0
	}
	for _, line := range strings.Split(string(b), "\n") {
		if s, ok := strings.CutPrefix(line, "VmHWM:"); ok {
			n, _ := strconv.Atoi(strings.Fields(s)[0])
			return n
		}
	}
	return 0
}

func (l *liveCmd) stop() {
	l.in.Close()
	l.cmd.Process.Kill()
	<-l.done
	l.cmd.Wait()
}

// end closes the input and waits for the end.
func (l *liveCmd) end() int {
	l.in.Close()
	<-l.done
	l.cmd.Wait()
	return l.cmd.ProcessState.ExitCode()
}

// LiveCase is a stream that arrives at the command piece by piece.
type LiveCase struct {
	M  Made
	C  Cmd
	At []int // per mille of the input
}

func checkLive(c *LiveCase, cov *Cov) error {
	in, content, dict, f, err := c.M.make()
	if err != nil {
		return err
	}
	cmd := c.C
	cmd.Dec, cmd.Hdr = true, nil
	cmd.O.Dict = dict
	if cmd.O.F != 0 || f == ref.Raw {
		cmd.O.F = int(f)
	}
	var at []int
	for _, x := range c.At {
		at = append(at, len(in)*x/1000)
	}
	sort.Ints(at)
	ro := ROpts{F: cmd.O.F, ML: cmd.O.ML, Dict: dict}.refOptions()
	dir, err := os.MkdirTemp(os.Getenv("VH_SCRATCH"), "live.")
	if err != nil {
		panic(harnessBug(err.Error()))
	}
	defer os.RemoveAll(dir)
	l := startLive(&cmd, dir, true)
	defer l.stop()
	pos, pauses := 0, 0
	for _, x := range at {
		if x <= pos || x >= len(in) {
			continue
		}
		r := ref.Decode(in[:x], ro)
		if r.Kind == ref.Corrupt {
			continue
		}
		if _, err := l.in.Write(in[pos:x]); err != nil {
			break // it ended early: seen below
		}
		pos = x
		if !l.wait(r.MinOut) {
			n, end := l.got()
			if end {
				break
			}
			return fmt.Errorf("%s: the first %d of %d bytes of the input determine %d bytes of output, but only %d came, and the command waits for more", cmd.describe(), x, len(in), r.MinOut, n)
		}
		if r.MinOut > 0 {
			pauses++
		}
	}
	l.in.Write(in[pos:])
	status := l.end()
	if status != 0 {
		return fmt.Errorf("%s: exit status %d on well-formed input; %s", cmd.describe(), status, firstLine(l.errs.Bytes()))
	}
	if err := diffBytes(cmd.describe(), l.data, content); err != nil {
		return err
	}
	cov.Class("format " + formatNames[int(f)])
	cov.ClassIf(pauses > 1, "two or more pauses")
	cov.Nontrivial(pauses > 0)
	return nil
}

// BulkCase is more data than the command may keep.
type BulkCase struct {
	C     Cmd
	Chunk []Seg
	MiB   int
}

const bulkPeak = 64 << 10 // KiB

func checkBulk(c *BulkCase, cov *Cov) error {
	chunk := expand(c.Chunk)
	if len(chunk) == 0 {
		return nil
	}
	for len(chunk) < 1<<18 {
		chunk = append(chunk, chunk...)
	}
	cmd := c.C
	cmd.Log = 0
	dir, err := os.MkdirTemp(os.Getenv("VH_SCRATCH"), "bulk.")
	if err != nil {
		panic(harnessBug(err.Error()))
	}
	defer os.RemoveAll(dir)
	l := startLive(&cmd, dir, false)
	defer l.stop()
	var w io.Writer = l.in
	var fw *flate.Writer
	if cmd.Dec {
		o := cmd.O
		o.Dict, o.CL, o.WB = nil, 6, 0
		fw = flate.NewWriter(l.in, o.options()...)
		w = fw
	}
	total, crc := 0, uint32(0)
	peak := 0
	what := cmd.describe()
	for total < c.MiB<<20 {
		heartbeat()
		if _, err := w.Write(chunk); err != nil {
			break // it ended early: seen below
		}
		total += len(chunk)
		crc = crc32.Update(crc, crc32.IEEETable, chunk)
		if total%(8<<20) < len(chunk) {
			peak = max(peak, l.peak())
		}
	}
	if fw != nil {
		fw.Flush(flate.SyncFlush)
		if !l.wait(total) {
			n, end := l.got()
			if !end {
				return fmt.Errorf("%s: %d bytes of content were flushed, but only %d came, and the command waits for more", what, total, n)
			}
		}
		fw.Close()
	}
	peak = max(peak, l.peak())
	status := l.end()
	if status != 0 {
		return fmt.Errorf("%s: exit status %d after %d bytes; %s", what, status, total, firstLine(l.errs.Bytes()))
	}
	if peak > bulkPeak {
		return fmt.Errorf("%s: %d KiB resident while %d MiB passed through", what, peak, total>>20)
	}
	if cmd.Dec {
		if n, _ := l.got(); n != total || l.crc != crc {
			return fmt.Errorf("%s: %d bytes with CRC-32 %08x came, want %d with %08x", what, n, l.crc, total, crc)
		}
	}
	cov.Class(fmt.Sprintf("peak below %d MiB", 8*(peak>>13+1)))
	cov.ClassIf(cmd.Dec, "decompressing")
	cov.Nontrivial(peak > 0)
	return nil
}

func init() {
	reg("C23", "live", "the command decompresses streams that arrive in pieces; after each piece all that it determines, by the reference decoder, must come before the next is sent; non-trivial: a piece that determines something", 1200, 30000, func(t *rapid.T) *LiveCase {
		m := genMade(t, pick(t, "f", ref.Raw, ref.Zlib, ref.Gzip, ref.Gzip), 20000, 3)
		c := &LiveCase{M: m, C: genCmd(t, true)}
		c.C.In = 0
		c.C.O.F = pick(t, "give", 0, 1)
		for i := uni(t, 1, 5, "nat"); i > 0; i-- {
			c.At = append(c.At, uni(t, 1, 999, "at"))
		}
		return c
	}, checkLive)
	reg("C23", "bulk", "96 to 112 MiB pass through the command, in either direction; its peak of resident memory before the input ends is at most 64 MiB; non-trivial: all", 16, 200, func(t *rapid.T) *BulkCase {
		c := &BulkCase{C: genCmd(t, pct(t, 50, "dec")), Chunk: genData(t, 60000), MiB: uni(t, 96, 112, "mib")}
		c.C.Hdr, c.C.In = nil, 0
		c.C.O.Dict = nil
		if c.C.Dec {
			c.C.O.F = 3
		}
		return c
	}, checkBulk)
}
