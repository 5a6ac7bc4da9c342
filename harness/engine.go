package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"reflect"
	"runtime/debug"
	"sort"
	"strings"
	"testing"

	"pgregory.net/rapid"
)

// Cov collects what one check call covered.
type Cov struct {
	Classes    map[string]int
	nontrivial bool
	notes      []string
}

// Class counts a class of cases.
func (c *Cov) Class(name string) { c.Classes[name]++ }

// ClassIf counts name when cond holds.
func (c *Cov) ClassIf(cond bool, name string) {
	if cond {
		c.Classes[name]++
	}
}

// Nontrivial marks the case as non-trivial by the part's rule.
func (c *Cov) Nontrivial(cond bool) {
	if cond {
		c.nontrivial = true
	}
}

// Part is one generator with its oracle; a property has one or more parts.
type Part struct {
	Prop, Name      string
	Rule            string
	Quick, Thorough int
	Mode            string // which build / environment runs it: "", "race", "386", "noclmul"
	Shards          int    // 0: default
	Gen             func(*rapid.T) any
	New             func() any
	Check           func(any, *Cov) error
	// Exhaustive parts enumerate instead of generating.
	Enum func(yield func(any) bool)
}

var parts []*Part

func reg[C any](prop, name, rule string, quick, thorough int, gen func(*rapid.T) *C, check func(*C, *Cov) error) *Part {
	p := &Part{Prop: prop, Name: name, Rule: rule, Quick: quick, Thorough: thorough,
		New:   func() any { return new(C) },
		Check: func(c any, cov *Cov) error { return check(c.(*C), cov) }}
	if gen != nil {
		p.Gen = func(t *rapid.T) any { return gen(t) }
	}
	parts = append(parts, p)
	return p
}

func regEnum[C any](prop, name, rule string, enum func(yield func(*C) bool), check func(*C, *Cov) error) *Part {
	p := reg[C](prop, name, rule, 0, 0, nil, check)
	p.Enum = func(yield func(any) bool) { enum(func(c *C) bool { return yield(c) }) }
	p.Shards = 1
	return p
}

func findPart(prop, name string) *Part {
	for _, p := range parts {
		if p.Prop == prop && p.Name == name {
			return p
		}
	}
	return nil
}

// CaseFile is the replayable form of a case.
type CaseFile struct {
	Prop    string          `json:"property"`
	Part    string          `json:"part"`
	Case    json.RawMessage `json:"case"`
	Message string          `json:"message,omitempty"`
	Seed    int64           `json:"seed,omitempty"`
}

// WorkerResult is what a worker reports.
type WorkerResult struct {
	Cases   int            `json:"cases"`
	Classes map[string]int `json:"classes"`
	Hashes  []uint64       `json:"hashes"`
	Samples []CaseFile     `json:"samples"`
	Fail    *CaseFile      `json:"fail"`
	Broken  string         `json:"broken,omitempty"`
	Log     []string       `json:"log,omitempty"`
}

func mustJSON(v any) []byte {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return b
}

// checkCase runs one check, turning a panic in the calling goroutine into a
// violation.
func checkCase(p *Part, c any, cov *Cov) (err error) {
	defer func() {
		if r := recover(); r != nil {
			if h, ok := r.(harnessBug); ok {
				panic(h)
			}
			st := string(debug.Stack())
			if !strings.Contains(st, "chronos-tachyon") {
				panic(harnessBug(fmt.Sprintf("panic outside the code under test: %v\n%s", r, st)))
			}
			err = fmt.Errorf("panic: %v\n%s", r, trimStack(st))
		}
	}()
	return p.Check(c, cov)
}

// harnessBug is panicked with when the harness itself is at fault.
type harnessBug string

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	var out []string
	for i := 0; i < len(lines); i++ {
		if strings.Contains(lines[i], "chronos-tachyon") {
			out = append(out, lines[i])
		}
		if len(out) > 16 {
			break
		}
	}
	return strings.Join(out, "\n")
}

func hash64(b []byte) uint64 {
	h := fnv.New64a()
	h.Write(b)
	return h.Sum64()
}

type tbStop struct{}

type workerTB struct {
	failed bool
	logs   []string
}

func (w *workerTB) Helper()                 {}
func (w *workerTB) Name() string            { return "worker" }
func (w *workerTB) Logf(f string, a ...any) { w.logs = append(w.logs, fmt.Sprintf(f, a...)) }
func (w *workerTB) Log(a ...any)            { w.logs = append(w.logs, fmt.Sprint(a...)) }
func (w *workerTB) Skipf(string, ...any)    {}
func (w *workerTB) Skip(...any)             {}
func (w *workerTB) SkipNow()                {}
func (w *workerTB) Errorf(f string, a ...any) {
	w.failed = true
	w.Logf(f, a...)
}
func (w *workerTB) Error(a ...any) {
	w.failed = true
	w.Log(a...)
}
func (w *workerTB) Fatalf(f string, a ...any) { w.Errorf(f, a...); panic(tbStop{}) }
func (w *workerTB) Fatal(a ...any)            { w.Error(a...); panic(tbStop{}) }
func (w *workerTB) FailNow()                  { w.failed = true; panic(tbStop{}) }
func (w *workerTB) Fail()                     { w.failed = true }
func (w *workerTB) Failed() bool              { return w.failed }

// runWorker runs n cases of a part and writes the result to out; the case in
// progress is always in cur.
func runWorker(p *Part, seed uint64, n int, cur, out string) {
	res := &WorkerResult{Classes: map[string]int{}}
	heartbeatPath = cur
	curF, err := os.OpenFile(cur, os.O_CREATE|os.O_RDWR, 0o644)
	if err != nil {
		panic(err)
	}
	seen := map[uint64]bool{}
	failing := false
	prevLen := 0
	one := func(c any) error {
		j := mustJSON(c)
		rec := mustJSON(CaseFile{Prop: p.Prop, Part: p.Name, Case: j})
		if len(rec) < prevLen {
			curF.Truncate(int64(len(rec)))
		}
		curF.WriteAt(rec, 0)
		prevLen = len(rec)
		cov := &Cov{Classes: map[string]int{}}
		err := checkCase(p, c, cov)
		if err != nil {
			failing = true
			res.Fail = &CaseFile{Prop: p.Prop, Part: p.Name, Case: j, Message: err.Error()}
			return err
		}
		if !failing {
			res.Cases++
			for k, v := range cov.Classes {
				res.Classes[k] += v
			}
			if cov.nontrivial {
				h := hash64(j)
				if !seen[h] {
					seen[h] = true
					if len(res.Samples) < 2 && len(j) < 3000 {
						res.Samples = append(res.Samples, CaseFile{Prop: p.Prop, Part: p.Name, Case: j})
					}
				}
			}
		}
		return nil
	}
	if p.Enum != nil {
		p.Enum(func(c any) bool { return one(c) == nil })
	} else {
		testing.Init()
		flag.CommandLine.Parse(nil)
		flag.Set("rapid.checks", fmt.Sprint(n))
		flag.Set("rapid.seed", fmt.Sprint(seed))
		flag.Set("rapid.nofailfile", "true")
		flag.Set("rapid.shrinktime", "20s")
		tb := &workerTB{}
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(tbStop); !ok {
						panic(r)
					}
				}
			}()
			rapid.Check(tb, func(t *rapid.T) {
				c := p.Gen(t)
				if err := one(c); err != nil {
					t.Fatalf("violation")
				}
			})
		}()
		if tb.failed && res.Fail == nil {
			res.Broken = strings.Join(tb.logs, "\n")
		}
	}
	for h := range seen {
		res.Hashes = append(res.Hashes, h)
	}
	sort.Slice(res.Hashes, func(i, j int) bool { return res.Hashes[i] < res.Hashes[j] })
	if err := os.WriteFile(out, mustJSON(res), 0o644); err != nil {
		panic(err)
	}
}

// loadCase reads a case file.
func loadCase(path string) (*CaseFile, *Part, any, error) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil, nil, nil, err
	}
	var cf CaseFile
	if err := json.Unmarshal(b, &cf); err != nil {
		return nil, nil, nil, err
	}
	p := findPart(cf.Prop, cf.Part)
	if p == nil {
		return nil, nil, nil, fmt.Errorf("no part %s/%s", cf.Prop, cf.Part)
	}
	c := p.New()
	if err := json.Unmarshal(cf.Case, c); err != nil {
		return nil, nil, nil, err
	}
	return &cf, p, c, nil
}

func isNil(v any) bool {
	if v == nil {
		return true
	}
	r := reflect.ValueOf(v)
	switch r.Kind() {
	case reflect.Ptr, reflect.Slice, reflect.Map, reflect.Func, reflect.Interface:
		return r.IsNil()
	}
	return false
}
