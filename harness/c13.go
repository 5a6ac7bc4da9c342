package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"syscall"

	"pgregory.net/rapid"

	flate "github.com/chronos-tachyon/flate"
)

// ignorable returns errors by which a destination says that it cannot sync.
func ignorable(k int) error {
	switch k {
	case 1:
		return syscall.EINVAL
	case 2:
		return &fs.PathError{Op: "sync", Path: "/dev/stdout", Err: syscall.EINVAL}
	case 3:
		return os.NewSyscallError("fsync", syscall.EINVAL)
	}
	return nil
}

type customErr struct{ code int }

func (e *customErr) Error() string { return fmt.Sprintf("custom failure %d", e.code) }

// faultErr returns the error a failing source or destination reports.
func faultErr(k int, base error) error {
	switch k {
	case 1:
		return syscall.ENOSPC
	case 2:
		return &fs.PathError{Op: "write", Path: "/dev/full", Err: syscall.ENOSPC}
	case 3:
		return io.ErrClosedPipe
	case 4:
		return &customErr{7}
	case 5:
		return fs.ErrClosed
	case 6:
		return io.ErrShortWrite
	case 7:
		return io.ErrUnexpectedEOF
	case 8:
		return fmt.Errorf("while transferring: %w", base)
	case 9:
		return io.EOF
	case 10, 11, 12: // these mean something else when a Sync returns them
		return ignorable(k - 9)
	case 13:
		return context.Canceled
	case 14:
		return syscall.EBADF
	case 15:
		return os.ErrDeadlineExceeded
	case 16:
		return io.ErrNoProgress
	case 17:
		return io.ErrShortBuffer
	case 18:
		return errors.Join(base, io.EOF)
	}
	switch {
	case k >= 500:
		return os.NewSyscallError("transfer", syscall.Errno(k-500))
	case k >= 300:
		return &fs.PathError{Op: "transfer", Path: "/dev/thing", Err: syscall.Errno(k - 300)}
	case k >= 100:
		return syscall.Errno(k - 100)
	}
	return base
}

// genErrKind draws a kind of error: one of the above or any error number.
func genErrKind(t *rapid.T) int {
	if pct(t, 40, "errno") {
		return pick(t, "wrap", 100, 100, 300, 500) + pick(t, "en", 1, 4, 5, 5, 11, 12, 27, 28, 29, 32, 38, 95, 104, 110, 122, uni(t, 1, 133, "n"))
	}
	return uni(t, 0, 18, "e")
}

// syncErrKind replaces the errors by which Sync says that it is not supported.
func syncErrKind(e int) int {
	if e >= 10 && e <= 12 {
		return 0
	}
	if e >= 100 {
		switch syscall.Errno(e % 200) {
		case 100 + syscall.EINVAL, 100 + syscall.ENOTSUP, 100 + syscall.ENOSYS, 100 + syscall.ENOTTY, 100 + syscall.EROFS:
			return 0
		}
	}
	return e
}

// WFault is a failure point at the destination.
type WFault struct {
	M    int  // 0: after a number of bytes, 1: at a call, 2: at a Flush, 3: at a Sync
	P    int  // position, modulo the number of positions in the fault-free run
	Take int  `json:",omitempty"` // per mille of the failing call's data accepted
	Once bool // the destination recovers
	E    int  // error
}

// FailCase is a history run against failing destinations.
type FailCase struct {
	H    HistCase
	Hdr  *Hdr `json:",omitempty"`
	Kind int  // destination interfaces
	F    []WFault
	All  bool // every call, and every byte of short outputs
	E    int  // error used for All
	Ign  int  // Sync always returns an ignorable error
}

func (c *FailCase) run(d *Dst, data []byte) (*WRun, error) {
	fw := flate.NewWriter(d.writer(c.Kind), c.H.O.options()...)
	if c.Hdr != nil {
		if err := fw.SetHeader(c.Hdr.header()); err != nil {
			return nil, fmt.Errorf("SetHeader: %w", err)
		}
	}
	run := runOps(fw, d, data, c.H.Ops, true, true)
	// everything after Close
	if n, err := fw.Write([]byte("x")); err != fs.ErrClosed || n != 0 {
		return run, fmt.Errorf("Write after Close returned %d, %v", n, err)
	}
	if err := fw.Flush(flate.SyncFlush); err != fs.ErrClosed {
		return run, fmt.Errorf("Flush after Close returned %v", err)
	}
	if err := fw.Close(); err != fs.ErrClosed {
		return run, fmt.Errorf("second Close returned %v", err)
	}
	if last := run.Results[len(run.Results)-1]; last.Calls != d.Calls {
		return run, fmt.Errorf("the destination was used after Close had returned")
	}
	return run, nil
}

func checkDstFaults(c *FailCase, cov *Cov) error {
	data := c.H.data()
	base := newDst()
	base.SyncErr = ignorable(c.Ign)
	run, err := c.run(base, data)
	if err != nil {
		return err
	}
	if err := run.firstErr(); err != nil {
		return fmt.Errorf("fault-free run (Sync returns %v): %w", base.SyncErr, err)
	}
	cov.ClassIf(base.Syncs > 0 && base.SyncErr != nil, "unsupported Sync ignored")
	if base.SyncErr != nil {
		plain := newDst()
		if _, err := c.run(plain, data); err != nil {
			return err
		}
		if err := diffBytes("output when Sync is not supported", base.Buf, plain.Buf); err != nil {
			return err
		}
	}
	fs := c.F
	if c.All {
		fs = nil
		step := max(1, base.Calls/60)
		for i := 0; i < base.Calls; i += step {
			fs = append(fs, WFault{M: 1, P: i, E: c.E, Take: (i % 3) * 500, Once: i%2 == 1})
		}
		step = max(1, len(base.Buf)/100)
		for i := 0; i < len(base.Buf); i += step {
			fs = append(fs, WFault{M: 0, P: i, E: c.E, Once: i%2 == 0})
		}
		for i := 0; i < base.Flushes; i++ {
			fs = append(fs, WFault{M: 2, P: i, E: c.E})
		}
		for i := 0; i < base.Syncs; i++ {
			fs = append(fs, WFault{M: 3, P: i, E: syncErrKind(c.E)})
		}
	}
	for _, f := range fs {
		d := newDst()
		d.SyncErr = ignorable(c.Ign)
		d.Once, d.Err, d.Take = f.Once, faultErr(f.E, errDest), f.Take
		var n int
		what := ""
		switch f.M {
		case 0:
			n = len(base.Buf)
			if n > 0 {
				d.FailWrite = f.P % n
				what = fmt.Sprintf("destination full after %d of %d bytes", d.FailWrite, n)
			}
		case 1:
			n = base.Calls
			if n > 0 {
				d.FailCall = f.P % n
				if base.Log[d.FailCall] == 's' {
					d.Err = faultErr(syncErrKind(f.E), errDest)
				}
				what = fmt.Sprintf("call %d of %d on the destination fails", d.FailCall, n)
			}
		case 2:
			n = base.Flushes
			if n > 0 {
				d.FailFlush = f.P % n
				what = fmt.Sprintf("Flush %d of %d fails", d.FailFlush, n)
			}
		case 3:
			n = base.Syncs
			if n > 0 {
				d.FailSync = f.P % n
				what = fmt.Sprintf("Sync %d of %d fails", d.FailSync, n)
			}
		}
		if n == 0 {
			continue
		}
		what += fmt.Sprintf(" with %q", d.Err)
		if f.Once {
			what += ", once"
		}
		run, err := c.run(d, data)
		if err != nil {
			return fmt.Errorf("%s: %w", what, err)
		}
		must(d.Failed > 0, "the injected fault did not happen: "+what)
		if !bytes.HasPrefix(base.Buf, d.Buf) {
			return fmt.Errorf("%s: accepted bytes are not a prefix of the fault-free output: %w", what, diffBytes("accepted", d.Buf, base.Buf))
		}
		first := -1
		for i, r := range run.Results {
			if first < 0 {
				if r.Err == nil {
					continue
				}
				first = i
				if !errors.Is(r.Err, d.Err) {
					return fmt.Errorf("%s: operation %d (%s) returned %v", what, i, r.Op, r.Err)
				}
				cov.Class("reported by " + r.Op[:1])
				continue
			}
			if r.Err == nil || r.Err.Error() != run.Results[first].Err.Error() || !errors.Is(r.Err, d.Err) {
				return fmt.Errorf("%s: operation %d (%s) returned it, operation %d (%s) returned %v", what, first, run.Results[first].Op, i, r.Op, r.Err)
			}
			if r.Calls != run.Results[first].Calls {
				return fmt.Errorf("%s: operation %d (%s) returned it, operation %d (%s) used the destination again", what, first, run.Results[first].Op, i, r.Op)
			}
		}
		if first < 0 {
			return fmt.Errorf("%s: no operation reported it", what)
		}
		cov.Class([]string{"fault after n bytes", "fault at a call", "fault at Flush", "fault at Sync"}[f.M])
		cov.Nontrivial(first < len(run.Results)-1 || len(d.Buf) > 0)
	}
	cov.Nontrivial(base.Syncs > 0 && base.SyncErr != nil)
	return nil
}

func genFail(t *rapid.T, maxN int) *FailCase {
	c := &FailCase{H: *genHist(t, maxN)}
	c.H.Ch = Chunking{}
	c.H.RML = 0
	c.Kind = pick(t, "kind", 3, 3, 0, 1, 2)
	if c.H.O.F == 3 && pct(t, 50, "hdr") {
		h := genHdr(t)
		c.Hdr = &h
	}
	if c.Kind >= 2 && pct(t, 25, "ign") {
		c.Ign = uni(t, 1, 3, "ign")
	}
	if len(c.H.Ops) > 0 && pct(t, 40, "finish") {
		c.H.Ops = append(c.H.Ops, Op{Op: "f", T: fFinish}, Op{Op: "w", N: 50})
	}
	if pct(t, 12, "all") {
		c.All = true
		c.E = genErrKind(t)
		return c
	}
	n := uni(t, 1, 6, "nfaults")
	for i := 0; i < n; i++ {
		f := WFault{M: pick(t, "fm", 0, 0, 1, 1, 2, 3), Once: pct(t, 40, "once"), E: genErrKind(t)}
		if f.M == 3 {
			f.E = syncErrKind(f.E)
		}
		f.P = pick(t, "fp", uni(t, 0, 12, "p"), uni(t, 0, 1<<20, "p"), uni(t, 0, 300, "p"))
		f.Take = pick(t, "take", 0, 0, 1000, uni(t, 0, 999, "tk"))
		c.F = append(c.F, f)
	}
	return c
}

func init() {
	reg("C13", "faults", "a history (options, content, writes, flushes, finishes) is run fault-free, then again for each of several fault points: after k bytes, at the k-th call, Flush or Sync, permanent or one-off, with 19 kinds of error and any error number, the failing write accepting none, some or all of its bytes; non-trivial: the fault struck after output had been accepted or before the last operation", 4000, 100000,
		func(t *rapid.T) *FailCase { return genFail(t, 20000) }, checkDstFaults)
}
