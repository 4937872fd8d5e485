package main

import (
	"bytes"
	"context"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// What a worker reports (see sim/h/worker.go).
type batch struct {
	Runs       int            `json:"runs"`
	Nontrivial int            `json:"nontrivial"`
	Steps      int64          `json:"steps"`
	Switches   int64          `json:"switches"`
	Preempt    int64          `json:"preemptions"`
	SimTime    int64          `json:"simtime"`
	Wall       float64        `json:"wall"`
	Faults     map[string]int `json:"faults"`
	Counts     map[string]int `json:"counts"`
	Known      map[string]int `json:"known"`
	Pairs      []uint64       `json:"pairs"`
	Seeds      [][2]uint64    `json:"seeds"`
	Samples    []string       `json:"samples"`
	Others     []string       `json:"others"`
	Found      *found         `json:"found,omitempty"`
	Harness    string         `json:"harness,omitempty"`
	HarnessIdx int            `json:"harnessidx,omitempty"`
}

type violation struct {
	Class  string `json:"class"`
	Detail string `json:"detail"`
	Step   int64  `json:"step"`
	Known  string `json:"known,omitempty"`
}

type found struct {
	Property string          `json:"property,omitempty"`
	Plan     json.RawMessage `json:"plan"`
	Viol     violation       `json:"violation"`
	Hash     uint64          `json:"hash"`
	Trace    []string        `json:"trace,omitempty"`
	Note     string          `json:"note,omitempty"`
}

// crash: the simulator's process died, or hung, in a run.
type crash struct {
	idx  int
	hang bool
	msg  string
}

type checker struct {
	p       paths
	prop    string
	tier    string
	seed    uint64
	budget  float64
	workers int
	bin     string
	dir     string
	env     []string
	known   map[string]string
}

func note(format string, a ...interface{}) {
	fmt.Printf(format+"\n", a...)
}

// knownFindings reads the committed list: the known findings of a property.
func knownFindings(p paths, prop string) (map[string]string, []string) {
	m := map[string]string{}
	var ids []string
	b, err := os.ReadFile(filepath.Join(p.verif, "KNOWN_FINDINGS"))
	if err != nil {
		return m, nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.Fields(l)
		if len(f) < 4 || f[0] != "known:" || f[1] != "property="+prop || !strings.HasPrefix(f[2], "id=") {
			continue
		}
		id := f[2][3:]
		m[id] = strings.Join(f[3:], " ")
		ids = append(ids, id)
	}
	return m, ids
}

// command runs the simulator, with a time limit.
func (c *checker) command(limit time.Duration, tag string, args ...string) (string, int, bool) {
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	cmd := exec.CommandContext(ctx, c.bin, args...)
	cmd.Dir = c.dir
	cmd.Env = c.environ(tag)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	err := cmd.Run()
	code := 0
	if err != nil {
		code = -1
		if e, ok := err.(*exec.ExitError); ok {
			code = e.ExitCode()
		}
	}
	return out.String(), code, ctx.Err() != nil
}

func (c *checker) environ(tag string) []string {
	env := append([]string(nil), c.env...)
	if c.prop == "C11" {
		env = append(env, "VSIM_DIR="+c.dir, "GORACE=log_path="+filepath.Join(c.dir, "race."+tag)+" halt_on_error=0 suppress_equal_stacks=0 suppress_equal_addresses=0 exitcode=0 atexit_sleep_ms=0 history_size=7")
	}
	return env
}

func tail(s string, n int) string {
	s = strings.TrimSpace(s)
	if len(s) > n {
		s = s[len(s)-n:]
	}
	return s
}

// crashReason picks the telling line out of a crash report.
func crashReason(s string) string {
	for _, l := range strings.Split(s, "\n") {
		for _, k := range []string{"fatal error:", "panic:", "SIGSEGV", "SIGBUS", "runtime:"} {
			if strings.Contains(l, k) {
				return strings.TrimSpace(l)
			}
		}
	}
	return tail(s, 200)
}

// work keeps one worker going until the budget is used up.
func (c *checker) work(k int, deadline time.Time, stop <-chan struct{}, foundIt func()) ([]*batch, []crash, []string, error) {
	var bs []*batch
	var cr []crash
	var hashes []string
	from := k
	for n := 0; ; n++ {
		left := time.Until(deadline).Seconds()
		if n > 0 && (left < 2 || len(cr) >= 4) {
			return bs, cr, hashes, nil
		}
		if left < 1 {
			left = 1
		}
		select {
		case <-stop:
			return bs, cr, hashes, nil
		default:
		}
		tag := fmt.Sprintf("w%d.%d", k, n)
		out := filepath.Join(c.dir, tag)
		cmd := exec.Command(c.bin, "worker", c.prop, strconv.FormatUint(c.seed, 10), strconv.Itoa(from), strconv.Itoa(c.workers), "1000000000", strconv.Itoa(int(left+.5)), out)
		cmd.Dir = c.dir
		cmd.Env = c.environ(tag)
		var msg bytes.Buffer
		cmd.Stdout = &msg
		cmd.Stderr = &msg
		if err := cmd.Start(); err != nil {
			return bs, cr, hashes, err
		}
		done := make(chan error, 1)
		go func() { done <- cmd.Wait() }()
		hang, stopped := false, false
		var last int64 = -1
		since := time.Now()
		tick := time.NewTicker(500 * time.Millisecond)
		for over := false; !over; {
			select {
			case <-done:
				over = true
			case <-stop:
				stopped = true
				cmd.Process.Kill()
				<-done
				over = true
			case <-tick.C:
				var sz int64
				if st, err := os.Stat(out + ".status"); err == nil {
					sz = st.Size()
				}
				if sz != last {
					last, since = sz, time.Now()
				} else if time.Since(since) > c.hangLimit() {
					hang = true
					cmd.Process.Kill()
					<-done
					over = true
				}
			}
		}
		tick.Stop()
		if stopped {
			return bs, cr, hashes, nil
		}
		b := new(batch)
		raw, err := os.ReadFile(out + ".json")
		if err == nil {
			err = json.Unmarshal(raw, b)
		}
		if err == nil && !hang {
			bs = append(bs, b)
			hashes = append(hashes, out+".hashes")
			if b.Found != nil || b.Harness != "" {
				foundIt()
			}
			return bs, cr, hashes, nil
		}
		// The process died.
		st, _ := os.ReadFile(out + ".status")
		l := strings.Fields(string(st))
		if len(l) == 0 {
			return bs, cr, hashes, fmt.Errorf("the simulator does not start: %s", tail(msg.String(), 2000))
		}
		idx, _ := strconv.Atoi(l[len(l)-1])
		bs = append(bs, &batch{Runs: len(l) - 1})
		reason := crashReason(msg.String())
		// Again, alone: is it this run?
		o, _, late := c.command(c.hangLimit(), tag+"x", "worker", c.prop, strconv.FormatUint(c.seed, 10), strconv.Itoa(idx), "1", "1", "1000", out+"x")
		if _, err := os.Stat(out + "x.json"); err != nil {
			if !late {
				reason = crashReason(o)
			}
			cr = append(cr, crash{idx, late, reason})
			if acceptsCrash(c.prop) {
				foundIt()
				return bs, cr, hashes, nil
			}
		} else {
			note("run %d: the simulator's process ended (%s), but not when repeated", idx, reason)
		}
		from = idx + c.workers
	}
}

func (c *checker) hangLimit() time.Duration {
	return 150 * time.Second
}

// acceptsCrash: a crash of the whole process breaks the property.
func acceptsCrash(prop string) bool {
	switch prop {
	case "C04", "C07", "C08", "C09", "C12", "C13", "C14", "C15", "C16", "C17", "C24", "C26":
		return true
	}
	return false
}

func check(p paths, prop, tier string) int {
	start := time.Now()
	if tier == "" {
		tier = "quick"
	}
	if tier != "quick" && tier != "thorough" {
		fmt.Fprintln(os.Stderr, "unknown tier", tier)
		return 2
	}
	seed := uint64(1)
	if s := os.Getenv("VERIF_SEED"); s != "" {
		v, err := strconv.ParseUint(s, 10, 64)
		if err != nil {
			v = 0
			for _, r := range s {
				v = v*131 + uint64(r)
			}
			v &= 1<<62 - 1
		}
		seed = v
	}
	c := &checker{p: p, prop: prop, tier: tier, seed: seed, workers: 8, budget: 45}
	if n := runtime.NumCPU(); n < c.workers {
		c.workers = n
	}
	if tier == "thorough" {
		c.budget = 600
	}
	if s := os.Getenv("VSIM_BUDGET"); s != "" {
		if v, err := strconv.ParseFloat(s, 64); err == nil {
			c.budget = v
		}
	}
	for _, e := range os.Environ() {
		if !strings.HasPrefix(e, "GORACE=") && !strings.HasPrefix(e, "GODEBUG=") && !strings.HasPrefix(e, "GOGC=") && !strings.HasPrefix(e, "GOMEMLIMIT=") {
			c.env = append(c.env, e)
		}
	}
	if prop == "" || prop[0] != 'C' {
		fmt.Fprintln(os.Stderr, "unknown property", prop)
		return 2
	}
	bin, digest, err := build(p, prop == "C11")
	if err != nil {
		fmt.Fprintln(os.Stderr, "vsim:", err)
		return 2
	}
	built := time.Since(start).Seconds()
	c.dir, err = os.MkdirTemp(p.build, "run-"+prop+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, "vsim:", err)
		return 2
	}
	defer os.RemoveAll(c.dir)
	// A copy, so that another check may rebuild it meanwhile.
	c.bin = filepath.Join(c.dir, "sim")
	if b, err := os.ReadFile(bin); err != nil || os.WriteFile(c.bin, b, 0755) != nil {
		fmt.Fprintln(os.Stderr, "vsim: copying the simulator failed")
		return 2
	}
	known, ids := knownFindings(p, prop)
	c.known = known
	return c.run(start, built, digest, ids)
}

func (c *checker) run(start time.Time, built float64, digest string, ids []string) int {
	deadline := time.Now().Add(time.Duration(c.budget * float64(time.Second)))
	stop := make(chan struct{})
	var once sync.Once
	foundIt := func() {
		once.Do(func() {
			// let the others finish the runs they are in
			time.AfterFunc(300*time.Millisecond, func() { close(stop) })
		})
	}
	var mu sync.Mutex
	var wg sync.WaitGroup
	all := &batch{Faults: map[string]int{}, Counts: map[string]int{}, Known: map[string]int{}}
	var crashes []crash
	var hashFiles []string
	var founds []*found
	var trouble []string
	pairs := map[uint64]bool{}
	t0 := time.Now()
	for k := 0; k < c.workers; k++ {
		k := k
		wg.Add(1)
		go func() {
			defer wg.Done()
			bs, cr, hs, err := c.work(k, deadline, stop, foundIt)
			mu.Lock()
			defer mu.Unlock()
			if err != nil {
				trouble = append(trouble, err.Error())
			}
			crashes = append(crashes, cr...)
			hashFiles = append(hashFiles, hs...)
			for _, b := range bs {
				all.Runs += b.Runs
				all.Nontrivial += b.Nontrivial
				all.Steps += b.Steps
				all.Switches += b.Switches
				all.Preempt += b.Preempt
				all.SimTime += b.SimTime
				for k, v := range b.Faults {
					all.Faults[k] += v
				}
				for k, v := range b.Counts {
					all.Counts[k] += v
				}
				for k, v := range b.Known {
					all.Known[k] += v
				}
				for _, x := range b.Pairs {
					pairs[x] = true
				}
				all.Seeds = append(all.Seeds, b.Seeds...)
				if len(all.Samples) < 3 {
					all.Samples = append(all.Samples, b.Samples...)
				}
				all.Others = append(all.Others, b.Others...)
				if b.Found != nil {
					founds = append(founds, b.Found)
				}
				if b.Harness != "" {
					trouble = append(trouble, fmt.Sprintf("run %d: %s", b.HarnessIdx, b.Harness))
				}
			}
		}()
	}
	wg.Wait()
	simWall := time.Since(t0).Seconds()
	distinct := map[uint64]bool{}
	for _, f := range hashFiles {
		b, _ := os.ReadFile(f)
		for i := 0; i+8 <= len(b); i += 8 {
			distinct[binary.LittleEndian.Uint64(b[i:])] = true
		}
	}
	mism, tested := c.determinism(all.Seeds)
	if mism > 0 {
		note("WARNING: %d of %d executions repeated in another process were not identical", mism, tested)
	}

	viol := 0
	code := 0
	for _, id := range ids {
		note("KNOWN-FINDING: property=%s %s: %s (met in %d of this check's runs)", c.prop, id, c.known[id], all.Known[id])
	}
	// A known finding that is not listed is a violation.
	for id, n := range all.Known {
		if c.known[id] == "" && n > 0 {
			trouble = append(trouble, fmt.Sprintf("finding %s was met %d times but is not listed in KNOWN_FINDINGS", id, n))
		}
	}
	sort.Slice(founds, func(i, j int) bool { return len(founds[i].Plan) < len(founds[j].Plan) })
	var final *found
	var replayPath string
	for _, f := range founds {
		g, ok := c.confirm(f)
		if ok {
			final = g
			break
		}
		trouble = append(trouble, "a violation was met that does not reproduce: "+f.Viol.Class+": "+f.Viol.Detail)
	}
	if final == nil && acceptsCrash(c.prop) {
		for _, x := range crashes {
			final = c.crashPlan(x)
			if final != nil {
				break
			}
		}
	}
	if final != nil {
		viol = 1
		code = 1
		final.Property = c.prop
		rd := filepath.Join(c.p.verif, "replays")
		os.MkdirAll(rd, 0755)
		replayPath = filepath.Join(rd, fmt.Sprintf("%s-%016x.json", c.prop, final.Hash))
		b, _ := json.MarshalIndent(final, "", " ")
		if err := os.WriteFile(replayPath, b, 0644); err != nil {
			trouble = append(trouble, err.Error())
		}
		note("%s: %s", final.Viol.Class, final.Viol.Detail)
		if final.Note != "" {
			note("(%s)", final.Note)
		}
		note("VIOLATION property=%s replay=%s", c.prop, replayPath)
	} else if len(trouble) > 0 {
		code = 2
	}
	for i, t := range trouble {
		if i < 5 {
			note("trouble: %s", t)
		}
	}
	other := map[string]int{}
	counts := map[string]int{}
	io := map[string]int{}
	for k, v := range all.Counts {
		switch {
		case strings.HasPrefix(k, "other property: "):
			other[strings.TrimPrefix(k, "other property: ")] += v
		case strings.HasPrefix(k, "io "):
			io[k[3:]] += v
		default:
			counts[k] += v
		}
	}
	if len(crashes) > 0 {
		other["process crash"] += len(crashes)
	}
	if len(all.Samples) > 3 {
		all.Samples = all.Samples[:3]
	}
	for i, s := range all.Samples {
		if len(s) > 3000 {
			all.Samples[i] = s[:3000] + " ..."
		}
	}
	if all.Samples == nil {
		all.Samples = []string{}
	}
	cov := map[string]interface{}{
		"evaluations":         all.Runs,
		"distinct_nontrivial": len(distinct),
		"rule": "One evaluation is one simulated run: a workload, schedule policy, fault plan and configuration generated from the base seed and the run's index. " +
			"It is non-trivial if at least one call succeeded and at least one preemption or fault took place; two are the same if the hash of their full event trace (scheduling decisions, I/O, calls, results) is.",
		"samples":                              all.Samples,
		"base_seed":                            c.seed,
		"run_indices":                          fmt.Sprintf("0..%d, interleaved over %d processes", all.Runs-1, c.workers),
		"runs_per_hour":                        int(float64(all.Runs) / simWall * 3600),
		"simulated_seconds":                    float64(all.SimTime) / 1e9,
		"scheduler_steps":                      all.Steps,
		"context_switches":                     all.Switches,
		"preemptions":                          all.Preempt,
		"distinct_preempted_statement_pairs":   len(pairs),
		"faults_injected":                      all.Faults,
		"io_operations":                        io,
		"counts":                               counts,
		"violations_of_other_properties_met":   other,
		"known_findings_met":                   all.Known,
		"executions_repeated_in_other_process": tested,
		"of_which_not_identical":               mism,
		"library_source_digest":                digest,
		"build_seconds":                        built,
		"real_components":                      []string{"all of go-xmssmt (rewritten for preemption points and seams, three instances)", "nightlyone/lockfile", "cespare/xxhash", "x/crypto/sha3 and AVX2 Keccak", "templexxx/xorsimd", "hashicorp/go-multierror", "bwesterb/byteswriter"},
		"stubbed_components":                   []string{"goroutine scheduling, sync, channels, time", "file system, directory entries and durability (os, io/ioutil, path/filepath)", "mmap (edsrzf/mmap-go) over the simulated files", "processes, pids, signals-to-probe, page size, CPU count", "crypto/rand"},
	}
	ev := map[string]interface{}{
		"property":   c.prop,
		"tier":       c.tier,
		"seed":       c.seed,
		"level":      "exploration",
		"coverage":   cov,
		"wall_s":     time.Since(start).Seconds(),
		"violations": viol,
		"assumptions": []string{
			"The simulated file system, scheduler and processes behave like the real ones in what the library can observe (see DESIGN.md).",
			"Interleavings are sequentially consistent, with preemption between statements and at every synchronisation and I/O step.",
			"Seeded search: what was not reached is not covered.",
		},
	}
	if len(all.Others) > 20 {
		all.Others = all.Others[:20]
	}
	if len(all.Others) > 0 {
		cov["violations_of_other_properties_examples"] = all.Others
	}
	if replayPath != "" {
		cov["replay"] = replayPath
	}
	if len(trouble) > 0 {
		cov["trouble"] = trouble
	}
	ed := filepath.Join(c.p.verif, "evidence")
	os.MkdirAll(ed, 0755)
	b, err := json.MarshalIndent(ev, "", " ")
	if err == nil {
		err = os.WriteFile(filepath.Join(ed, c.prop+".json"), b, 0644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "vsim: writing the evidence failed:", err)
		if code == 0 {
			code = 2
		}
	}
	note("%s %s: %d runs, %d distinct and non-trivial, %d preemptions, %.0f simulated seconds, %.1f s", c.prop, c.tier, all.Runs, len(distinct), all.Preempt, float64(all.SimTime)/1e9, time.Since(start).Seconds())
	if len(other) > 0 {
		note("note: runs also met what concerns other properties: %v", other)
		for i, o := range all.Others {
			if i < 3 {
				note("  %s", o)
			}
		}
	}
	return code
}

// determinism repeats some executions in other processes.
func (c *checker) determinism(seeds [][2]uint64) (mism, tested int) {
	if len(seeds) == 0 {
		return
	}
	sort.Slice(seeds, func(i, j int) bool { return seeds[i][0] < seeds[j][0] })
	want := map[string]string{}
	args := []string{"hash", c.prop, strconv.FormatUint(c.seed, 10)}
	n := 12
	if c.prop == "C11" {
		n = 6
	}
	for i := 0; i < n && i < len(seeds); i++ {
		s := seeds[i*len(seeds)/n]
		if len(seeds) < n {
			s = seeds[i]
		}
		k := strconv.FormatUint(s[0], 10)
		want[k] = strconv.FormatUint(s[1], 10)
		args = append(args, k)
	}
	out, _, _ := c.command(60*time.Second, "det", args...)
	for _, l := range strings.Split(out, "\n") {
		f := strings.Fields(l)
		if len(f) == 2 && want[f[0]] != "" {
			tested++
			if want[f[0]] != f[1] {
				mism++
			}
		}
	}
	return
}

func writeFound(path string, f *found) error {
	b, err := json.Marshal(f)
	if err != nil {
		return err
	}
	return os.WriteFile(path, b, 0644)
}

func readFound(path string) (*found, error) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	f := new(found)
	return f, json.Unmarshal(b, f)
}

// confirm minimises a violation and makes sure that it reproduces exactly in
// a fresh process.
func (c *checker) confirm(f *found) (*found, bool) {
	in, out := filepath.Join(c.dir, "found.json"), filepath.Join(c.dir, "small.json")
	if err := writeFound(in, f); err != nil {
		return nil, false
	}
	os.Remove(out)
	secs := 45
	if c.tier == "thorough" {
		secs = 120
	}
	msg, code, _ := c.command(time.Duration(secs+100)*time.Second, "shrink", "shrink", in, out, strconv.Itoa(secs))
	if code == 0 {
		if g, err := readFound(out); err == nil {
			o, code, _ := c.command(160*time.Second, "verify", "replay", out)
			if code == 1 && strings.Contains(o, "the recorded execution") {
				return g, true
			}
			note("the minimised run does not repeat in a fresh process: %s", tail(o, 300))
		}
	} else {
		note("minimising failed: %s", tail(msg, 300))
	}
	// as it was found
	o, code, _ := c.command(160*time.Second, "verify2", "replay", in)
	if code == 1 {
		f.Note = "not minimised"
		return f, true
	}
	_ = o
	return nil, false
}

// crashPlan: the plan of a run that ends the whole process.
func (c *checker) crashPlan(x crash) *found {
	o, code, _ := c.command(60*time.Second, "plan", "plan", c.prop, strconv.FormatUint(c.seed, 10), strconv.Itoa(x.idx))
	if code != 0 || !json.Valid([]byte(o)) {
		return nil
	}
	cl := "panic"
	if x.hang {
		cl = "livelock"
	}
	return &found{Plan: json.RawMessage(o), Viol: violation{Class: cl, Detail: fmt.Sprintf("run %d ends the whole process: %s", x.idx, x.msg)}, Hash: uint64(x.idx), Note: "the simulator's process dies, so the run was not minimised"}
}

func replay(p paths, file string) int {
	f, err := readFound(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var pl struct {
		Prop string `json:"prop"`
	}
	json.Unmarshal(f.Plan, &pl)
	bin, _, err := build(p, pl.Prop == "C11")
	if err != nil {
		fmt.Fprintln(os.Stderr, "vsim:", err)
		return 2
	}
	file, _ = filepath.Abs(file)
	dir, err := os.MkdirTemp(p.build, "replay-")
	if err != nil {
		return 2
	}
	defer os.RemoveAll(dir)
	c := &checker{p: p, prop: pl.Prop, bin: bin, dir: dir, env: os.Environ()}
	o, code, _ := c.command(600*time.Second, "replay", "replay", file, "trace")
	fmt.Print(o)
	if code < 0 || code > 2 {
		code = 1
		fmt.Println("the simulator's process died")
	}
	return code
}
