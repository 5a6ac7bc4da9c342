package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// The driver: runs the parts of a property in worker processes, watches them,
// turns their failures (a violation, a crash, a deadlock, a spin) into replay
// files, and writes the evidence.

const (
	hangCPU   = 60.0 // seconds of CPU on one case before it counts as a hang
	stallSecs = 60   // consecutive seconds asleep with no CPU use on one case
)

type job struct {
	part   *Part
	shard  int
	n      int
	seed   uint64
	corpus string // a case file instead of generated cases
}

type driver struct {
	dir      string // scratch
	root     string // /verif
	bins     map[string]string
	tier     string
	seed     int64
	mu       sync.Mutex
	fail     *CaseFile
	broken   string
	results  []*WorkerResult
	jobsDone int
	procs    map[*exec.Cmd]bool
}

func (d *driver) bin(mode string) (string, []string) {
	switch mode {
	case "race":
		return d.bins["race"], []string{"GORACE=halt_on_error=1 exitcode=66 atexit_sleep_ms=0"}
	case "386":
		return d.bins["386"], nil
	case "noclmul":
		return d.bins["main"], []string{"GODEBUG=cpu.pclmulqdq=off"}
	}
	return d.bins["main"], nil
}

// procState returns the CPU seconds used by pid and whether all of its threads
// are asleep.
func procState(pid int) (cpu float64, asleep bool, ok bool) {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
	if err != nil {
		return 0, false, false
	}
	i := bytes.LastIndexByte(b, ')')
	f := strings.Fields(string(b[i+2:]))
	if len(f) < 13 {
		return 0, false, false
	}
	u, _ := strconv.ParseFloat(f[11], 64)
	s, _ := strconv.ParseFloat(f[12], 64)
	asleep = true
	ts, _ := filepath.Glob(fmt.Sprintf("/proc/%d/task/*/stat", pid))
	for _, t := range ts {
		b, err := os.ReadFile(t)
		if err != nil {
			continue
		}
		i := bytes.LastIndexByte(b, ')')
		if i+2 < len(b) && b[i+2] != 'S' {
			asleep = false
		}
	}
	return (u + s) / 100, asleep, true
}

type procEnd struct {
	exit   int
	signal string
	hang   string // "spin" or "stall"
	stderr string
}

// watch runs cmd until it ends, or until it spins or stalls on one case.
func (d *driver) watch(cmd *exec.Cmd, cur string) procEnd {
	var errb bytes.Buffer
	cmd.Stderr = &limited{b: &errb, n: 1 << 20}
	cmd.Stdout = nil
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	// Pdeathsig is tied to the starting thread: each watch runs in its own
	// goroutine locked by the caller.
	if err := cmd.Start(); err != nil {
		return procEnd{exit: -1, stderr: err.Error()}
	}
	d.mu.Lock()
	d.procs[cmd] = true
	d.mu.Unlock()
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	var end procEnd
	lastMod := time.Time{}
	cpu0 := 0.0
	lastCPU, quiet := 0.0, 0
	tick := time.NewTicker(time.Second)
	defer tick.Stop()
loop:
	for {
		select {
		case <-done:
			break loop
		case <-tick.C:
			cpu, asleep, ok := procState(cmd.Process.Pid)
			if !ok {
				continue
			}
			if st, err := os.Stat(cur); err == nil && !st.ModTime().Equal(lastMod) {
				lastMod = st.ModTime()
				cpu0 = cpu
				quiet = 0
			}
			if cpu == lastCPU && asleep {
				quiet++
			} else {
				quiet = 0
			}
			lastCPU = cpu
			if cpu-cpu0 > hangCPU {
				end.hang = "spin"
			} else if quiet > stallSecs {
				end.hang = "stall"
			}
			if end.hang != "" {
				cmd.Process.Signal(syscall.SIGQUIT)
				select {
				case <-done:
				case <-time.After(5 * time.Second):
					cmd.Process.Kill()
					<-done
				}
				break loop
			}
		}
	}
	d.mu.Lock()
	delete(d.procs, cmd)
	d.mu.Unlock()
	end.stderr = errb.String()
	if ws, ok := cmd.ProcessState.Sys().(syscall.WaitStatus); ok {
		if ws.Signaled() {
			end.signal = ws.Signal().String()
			end.exit = -1
		} else {
			end.exit = ws.ExitStatus()
		}
	}
	return end
}

type limited struct {
	b *bytes.Buffer
	n int
}

func (l *limited) Write(p []byte) (int, error) {
	if l.b.Len() < l.n {
		l.b.Write(p)
	}
	return len(p), nil
}

func (d *driver) command(mode string, args ...string) *exec.Cmd {
	bin, env := d.bin(mode)
	cmd := exec.Command(bin, args...)
	cmd.Dir = d.dir
	cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GOTRACEBACK=all", "VH_SCRATCH="+d.dir)
	for k, v := range d.bins {
		cmd.Env = append(cmd.Env, "VH_BIN_"+k+"="+v)
	}
	cmd.Env = append(cmd.Env, env...)
	return cmd
}

// headline picks the telling lines of a crash.
func headline(stderr string) string {
	var out []string
	for _, l := range strings.Split(stderr, "\n") {
		if strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "fatal error:") || strings.Contains(l, "DATA RACE") ||
			strings.Contains(l, "github.com/chronos-tachyon/flate.") {
			out = append(out, strings.TrimSpace(l))
		}
		if len(out) >= 14 {
			break
		}
	}
	return strings.Join(out, "\n")
}

// verdict classifies the end of a process that ran cases: a violation message,
// or an error of the check.
func verdict(e procEnd) (violation, broken string) {
	switch {
	case e.hang == "spin":
		return fmt.Sprintf("no end after %v s of CPU time on one case\n%s", hangCPU, headline(e.stderr)), ""
	case e.hang == "stall":
		return "deadlock: every thread asleep\n" + headline(e.stderr), ""
	case e.signal != "":
		if e.signal == "killed" {
			return "", "worker killed (out of memory?)"
		}
		return "worker died of signal " + e.signal + "\n" + headline(e.stderr), ""
	case strings.Contains(e.stderr, "WARNING: DATA RACE"):
		return "data race\n" + firstLines(e.stderr, 60), ""
	case e.exit == 2 && strings.Contains(e.stderr, "out of memory"):
		return "", "worker out of memory"
	case e.exit == 2 && strings.Contains(e.stderr, "harnessBug"):
		return "", "harness bug: " + firstLines(e.stderr, 40)
	case e.exit == 2 && strings.Contains(e.stderr, "fatal error: all goroutines are asleep"):
		return "deadlock: all goroutines are asleep\n" + headline(e.stderr), ""
	case e.exit == 2 && (strings.Contains(e.stderr, "panic:") || strings.Contains(e.stderr, "fatal error:")):
		// Only the code under test runs goroutines that are not ours, and
		// checks recover panics of their own goroutine.
		if !strings.Contains(e.stderr, "chronos-tachyon") {
			return "", "worker crashed outside the code under test: " + firstLines(e.stderr, 40)
		}
		return "crash: " + headline(e.stderr), ""
	}
	return "", fmt.Sprintf("worker ended with status %d: %s", e.exit, firstLines(e.stderr, 40))
}

func firstLines(s string, n int) string {
	l := strings.SplitN(s, "\n", n+1)
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}

// probe runs one case in its own process.
func (d *driver) probe(cf *CaseFile, tag string) (violation, broken string) {
	f := filepath.Join(d.dir, "probe-"+tag+".json")
	if err := os.WriteFile(f, mustJSON(cf), 0o644); err != nil {
		return "", err.Error()
	}
	p := findPart(cf.Prop, cf.Part)
	mode := ""
	if p != nil {
		mode = p.Mode
	}
	e := d.watch(d.command(mode, "check1", f), f)
	if e.hang == "" && e.signal == "" {
		if e.exit == 0 {
			return "", ""
		}
		if e.exit == 1 && strings.Contains(e.stderr, "VIOLATES ") {
			_, m, _ := strings.Cut(e.stderr, "VIOLATES ")
			return m, ""
		}
	}
	return verdict(e)
}

// shrinkCrash reduces a case that kills its process, by editing its JSON.
func (d *driver) shrinkCrash(cf *CaseFile, budget time.Duration) *CaseFile {
	stop := time.Now().Add(budget)
	best := *cf
	var tree any
	if json.Unmarshal(best.Case, &tree) != nil {
		return &best
	}
	n := 0
	try := func(t any) bool {
		if time.Now().After(stop) {
			return false
		}
		n++
		c := best
		c.Case = mustJSON(t)
		v, _ := d.probe(&c, fmt.Sprintf("shrink%d", n%4))
		if v == "" || crashKind(v) != crashKind(cf.Message) {
			return false // fine, or another failure, perhaps of a case that makes no sense
		}
		c.Message = v
		best = c
		return true
	}
	for progress := true; progress && time.Now().Before(stop); {
		progress = false
		for _, cand := range jsonReductions(tree) {
			if try(cand) {
				tree = nil
				json.Unmarshal(best.Case, &tree)
				progress = true
				break
			}
			if time.Now().After(stop) {
				break
			}
		}
	}
	return &best
}

// crashKind abstracts a verdict from its particulars.
func crashKind(v string) string {
	v, _, _ = strings.Cut(v, "\n")
	var b strings.Builder
	for _, c := range v {
		if c < '0' || c > '9' {
			b.WriteRune(c)
		}
	}
	return b.String()
}

// jsonReductions lists smaller variants of a JSON tree.
func jsonReductions(t any) []any {
	switch v := t.(type) {
	case []any:
		var out []any
		if len(v) > 1 {
			out = append(out, append([]any{}, v[:len(v)/2]...), append([]any{}, v[len(v)/2:]...))
		}
		for i := range v {
			out = append(out, append(append([]any{}, v[:i]...), v[i+1:]...))
		}
		for i := range v {
			for _, r := range jsonReductions(v[i]) {
				c := append([]any{}, v...)
				c[i] = r
				out = append(out, c)
			}
		}
		return out
	case map[string]any:
		var out []any
		keys := make([]string, 0, len(v))
		for k := range v {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			for _, r := range jsonReductions(v[k]) {
				c := map[string]any{}
				for a, b := range v {
					c[a] = b
				}
				c[k] = r
				out = append(out, c)
			}
		}
		return out
	case float64:
		if v == 0 || v != float64(int64(v)) || v > 1<<40 || v < 0 {
			return nil
		}
		out := []any{float64(0)}
		for q := float64(int64(v / 2)); q > 0; q = float64(int64(q / 2)) {
			out = append(out, v-q)
			if len(out) > 6 {
				break
			}
		}
		if v >= 1 {
			out = append(out, v-1)
		}
		return out
	case bool:
		if v {
			return []any{false}
		}
	}
	return nil
}

func (d *driver) runJob(j job, id int) {
	d.mu.Lock()
	stop := d.fail != nil || d.broken != ""
	d.mu.Unlock()
	if stop {
		return
	}
	if j.corpus != "" {
		cf, p, _, err := loadCase(j.corpus)
		if err != nil {
			d.setBroken(fmt.Sprintf("corpus %s: %v", j.corpus, err))
			return
		}
		_ = p
		v, b := d.probe(cf, fmt.Sprintf("corpus%d", id))
		if b != "" {
			d.setBroken(b)
		} else if v != "" {
			cf.Message = v
			d.setFail(cf)
		} else {
			d.mu.Lock()
			d.results = append(d.results, &WorkerResult{Cases: 1, Classes: map[string]int{"regression corpus cases": 1}})
			d.mu.Unlock()
		}
		return
	}
	cur := filepath.Join(d.dir, fmt.Sprintf("cur-%d.json", id))
	out := filepath.Join(d.dir, fmt.Sprintf("out-%d.json", id))
	e := d.watch(d.command(j.part.Mode, "worker", j.part.Prop, j.part.Name,
		fmt.Sprint(j.seed), fmt.Sprint(j.n), cur, out), cur)
	d.mu.Lock()
	stop = d.fail != nil || d.broken != ""
	d.mu.Unlock()
	if stop {
		return
	}
	if e.exit == 0 && e.hang == "" && e.signal == "" {
		b, err := os.ReadFile(out)
		var res WorkerResult
		if err == nil {
			err = json.Unmarshal(b, &res)
		}
		if err != nil {
			d.setBroken("worker result: " + err.Error())
			return
		}
		d.mu.Lock()
		d.results = append(d.results, &res)
		d.mu.Unlock()
		if res.Fail != nil {
			d.setFail(res.Fail)
		} else if res.Broken != "" {
			d.setBroken(j.part.Name + ": " + res.Broken)
		}
		return
	}
	v, b := verdict(e)
	if v == "" {
		d.setBroken(b)
		return
	}
	raw, err := os.ReadFile(cur)
	var cf CaseFile
	if err == nil {
		err = json.Unmarshal(raw, &cf)
	}
	if err != nil {
		d.setBroken("crash without a case: " + v)
		return
	}
	cf.Message = v
	d.setFail(&cf)
}

func (d *driver) setFail(cf *CaseFile) {
	d.mu.Lock()
	defer d.mu.Unlock()
	if d.fail == nil {
		d.fail = cf
		for c := range d.procs {
			c.Process.Kill()
		}
	}
}

func (d *driver) setBroken(s string) {
	d.mu.Lock()
	defer d.mu.Unlock()
	if d.broken == "" {
		d.broken = s
	}
}

func (d *driver) run(prop string) int {
	start := time.Now()
	var jobs []job
	cs, _ := filepath.Glob(filepath.Join(d.root, "corpus", prop, "*.json"))
	sort.Strings(cs)
	for _, c := range cs {
		jobs = append(jobs, job{corpus: c})
	}
	var rules []string
	found := false
	for shard := 0; shard < 64; shard++ {
		for _, p := range parts {
			if p.Prop != prop {
				continue
			}
			found = true
			if shard == 0 {
				rules = append(rules, p.Name+": "+p.Rule)
			}
			n := p.Quick
			if d.tier == "thorough" {
				n = p.Thorough
			}
			if s := os.Getenv("VH_SCALE"); s != "" {
				f, _ := strconv.ParseFloat(s, 64)
				n = max(1, int(float64(n)*f))
			}
			shards := p.Shards
			if shards == 0 {
				shards = 8
				if d.tier == "thorough" {
					shards = 32
				}
			}
			if shard >= shards {
				continue
			}
			k := n / shards
			if shard < n%shards {
				k++
			}
			if k == 0 && p.Enum == nil {
				continue
			}
			seed := hash64([]byte(fmt.Sprintf("%d/%s/%s/%d", d.seed, prop, p.Name, shard)))
			if seed == 0 {
				seed = 1
			}
			jobs = append(jobs, job{part: p, shard: shard, n: k, seed: seed})
		}
	}
	if !found {
		fmt.Fprintf(os.Stderr, "no checks for property %q\n", prop)
		return 2
	}
	ch := make(chan int)
	var wg sync.WaitGroup
	nw := 8
	for w := 0; w < nw; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range ch {
				d.runJob(jobs[i], i)
			}
		}()
	}
	for i := range jobs {
		ch <- i
	}
	close(ch)
	wg.Wait()

	code := 0
	violations := 0
	if d.fail != nil {
		violations = 1
		code = 1
		cf := d.fail
		cf.Seed = d.seed
		if strings.HasPrefix(cf.Message, "crash:") || strings.HasPrefix(cf.Message, "deadlock:") {
			cf = d.shrinkCrash(cf, 40*time.Second)
		}
		dir := filepath.Join(d.root, "replays")
		os.MkdirAll(dir, 0o755)
		path := filepath.Join(dir, fmt.Sprintf("%s-%s-%016x.json", prop, cf.Part, hash64(cf.Case)))
		b, _ := json.MarshalIndent(cf, "", " ")
		os.WriteFile(path, append(b, '\n'), 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
		fmt.Println("  " + strings.ReplaceAll(firstLines(cf.Message, 30), "\n", "\n  "))
	} else if d.broken != "" {
		code = 2
		fmt.Fprintf(os.Stderr, "CHECK ERROR property=%s: %s\n", prop, d.broken)
	}
	d.evidence(prop, rules, violations, time.Since(start))
	return code
}

func (d *driver) evidence(prop string, rules []string, violations int, wall time.Duration) {
	evals := 0
	classes := map[string]int{}
	seen := map[uint64]bool{}
	samples := []CaseFile{}
	exhaustive := true
	for _, p := range parts {
		if p.Prop == prop && p.Enum == nil {
			exhaustive = false
		}
	}
	perPart := map[string]int{}
	for _, r := range d.results {
		evals += r.Cases
		for k, v := range r.Classes {
			classes[k] += v
		}
		for _, h := range r.Hashes {
			seen[h] = true
		}
		for _, s := range r.Samples {
			if perPart[s.Part] < 2 {
				perPart[s.Part]++
				samples = append(samples, s)
			}
		}
	}
	ev := map[string]any{
		"property": prop,
		"tier":     d.tier,
		"seed":     d.seed,
		"level":    "exploration",
		"coverage": map[string]any{
			"evaluations":         evals,
			"distinct_nontrivial": len(seen),
			"rule":                strings.Join(rules, " | "),
			"samples":             samples,
			"classes":             classes,
			"exhaustive":          exhaustive,
		},
		"wall_s":     wall.Seconds(),
		"violations": violations,
		"assumptions": []string{
			"the reference decoder (harness/ref) and the Go standard library implement RFC 1950/1951/1952 correctly",
			"cases come from the generators described in DESIGN.md; nothing is claimed beyond the cases generated",
		},
	}
	dir := filepath.Join(d.root, "evidence")
	if prop == "SELF" {
		dir = d.dir
	}
	os.MkdirAll(dir, 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(dir, prop+".json"), append(b, '\n'), 0o644)
	fmt.Printf("%s %s seed=%d: %d cases, %d distinct non-trivial, %.1f s\n", prop, d.tier, d.seed, evals, len(seen), wall.Seconds())
	if os.Getenv("VH_VERBOSE") != "" {
		ks := make([]string, 0, len(classes))
		for k := range classes {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			fmt.Printf("   %8d %s\n", classes[k], k)
		}
	}
}

type cmdT = exec.Cmd
