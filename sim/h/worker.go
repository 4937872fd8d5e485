package h

import (
	"bufio"
	"context"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"github.com/bwesterb/go-xmssmt/zsim/zrt"
)

// Batch is what one worker did.
type Batch struct {
	Runs       int            `json:"runs"`
	Nontrivial int            `json:"nontrivial"`
	Steps      int64          `json:"steps"`
	Switches   int64          `json:"switches"`
	Preempt    int64          `json:"preemptions"`
	SimTime    int64          `json:"simtime"`
	Wall       float64        `json:"wall"`
	Faults     map[string]int `json:"faults"`
	Counts     map[string]int `json:"counts"`
	Known      map[string]int `json:"known"`
	Pairs      []uint64       `json:"pairs"`
	Seeds      [][2]uint64    `json:"seeds"` // index, hash of sampled runs
	Samples    []string       `json:"samples"`
	Others     []string       `json:"others"` // violations of other properties, a few
	Found      *Found         `json:"found,omitempty"`
	Vague      *Found         `json:"vague,omitempty"` // a race that a fresh process did not report
	Harness    string         `json:"harness,omitempty"`
	HarnessIdx int            `json:"harnessidx,omitempty"`
}

// Found is a violation with the plan that shows it.
type Found struct {
	Plan  *Plan     `json:"plan"`
	Viol  Violation `json:"violation"`
	Hash  uint64    `json:"hash"`
	Trace []string  `json:"trace,omitempty"`
	Note  string    `json:"note,omitempty"`
}

func raceLog() string {
	for _, f := range strings.Fields(os.Getenv("GORACE")) {
		if strings.HasPrefix(f, "log_path=") {
			return fmt.Sprintf("%s.%d", f[9:], os.Getpid())
		}
	}
	return ""
}

var raceSeen int64

// raceReport returns what the race detector reported since the last call, as
// far as library code is involved.
func raceReport() string {
	n := raceLog()
	if n == "" {
		return ""
	}
	st, err := os.Stat(n)
	if err != nil || st.Size() <= raceSeen {
		return ""
	}
	b, err := os.ReadFile(n)
	if err != nil {
		return ""
	}
	s := string(b[raceSeen:])
	raceSeen = int64(len(b))
	for _, rep := range strings.Split(s, "==================") {
		if !strings.Contains(rep, "DATA RACE") {
			continue
		}
		if d := raceSummary(rep); d != "" {
			return d
		}
	}
	return ""
}

// raceSummary names the two accesses.
func raceSummary(rep string) string {
	lines := strings.Split(rep, "\n")
	var acc []string
	lib := true
	for i, l := range lines {
		t := strings.TrimSpace(l)
		if (strings.Contains(t, " by goroutine ") || strings.Contains(t, " by main goroutine")) && (strings.HasPrefix(t, "Read") || strings.HasPrefix(t, "Write") || strings.HasPrefix(t, "Previous") || strings.HasPrefix(t, "Atomic")) {
			kind := strings.Fields(t)[0]
			if kind == "Previous" {
				kind = strings.Fields(t)[1]
			}
			at := ""
			// The innermost frame that is not the standard library's.
			for j := i + 1; j < len(lines) && strings.TrimSpace(lines[j]) != ""; j += 2 {
				f := strings.TrimSpace(lines[j])
				k := strings.Index(f, "go-xmssmt/")
				if k < 0 {
					continue
				}
				f = f[k+len("go-xmssmt/"):]
				if len(f) > 2 && f[0] == 'p' && f[1] >= '0' && f[1] <= '9' {
					if k := strings.LastIndex(f, "/"); k >= 0 {
						f = f[k+1:]
					}
					at = strings.TrimSuffix(f, "()")
					at = at[strings.Index(at, ".")+1:]
				}
				break
			}
			if at == "" {
				lib = false
			}
			acc = append(acc, strings.ToLower(kind)+" in "+at)
		}
	}
	if len(acc) < 2 || !lib {
		return ""
	}
	return "unsynchronised accesses: " + acc[0] + " and " + acc[1]
}

// run executes a plan, including the verdict of the race detector.
func run(p *Plan, trace, pairs bool) *Result {
	r := Execute(p, trace, pairs)
	if d := raceReport(); d != "" && len(r.Viol) == 0 {
		if Accepts(p.Prop, "race") {
			r.Viol = append(r.Viol, Violation{Class: "race", Detail: d})
		}
	}
	return r
}

// runFresh executes a plan in a process of its own: what the race detector
// sees depends on what the process did before.
func runFresh(p *Plan, trace bool) *Result {
	if !zrt.RaceMode {
		return run(p, trace, false)
	}
	bad := func(err error) *Result { return &Result{Harness: "fresh process: " + err.Error()} }
	dir, err := os.MkdirTemp(os.Getenv("VSIM_DIR"), "one-")
	if err != nil {
		return bad(err)
	}
	defer os.RemoveAll(dir)
	in, out := filepath.Join(dir, "in"), filepath.Join(dir, "out")
	b, err := json.Marshal(p)
	if err != nil {
		return bad(err)
	}
	if err := os.WriteFile(in, b, 0600); err != nil {
		return bad(err)
	}
	args := []string{"one", in, out}
	if trace {
		args = append(args, "trace")
	}
	exe, err := os.Executable()
	if err != nil {
		return bad(err)
	}
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, exe, args...)
	var env []string
	for _, e := range os.Environ() {
		if strings.HasPrefix(e, "GORACE=") {
			f := strings.Fields(e[7:])
			for i := range f {
				if strings.HasPrefix(f[i], "log_path=") {
					f[i] = "log_path=" + filepath.Join(dir, "race")
				}
			}
			e = "GORACE=" + strings.Join(f, " ")
		}
		env = append(env, e)
	}
	cmd.Env = env
	if o, err := cmd.CombinedOutput(); err != nil {
		return bad(fmt.Errorf("%v: %.200s", err, o))
	}
	if b, err = os.ReadFile(out); err != nil {
		return bad(err)
	}
	r := new(Result)
	if err := json.Unmarshal(b, r); err != nil {
		return bad(err)
	}
	return r
}

// Worker runs plans from, from+stride, ... until the budget is used up.
func Worker(prop string, seed uint64, from, stride, count int, budget float64, status, hashes string) *Batch {
	start := time.Now()
	b := &Batch{Faults: map[string]int{}, Counts: map[string]int{}, Known: map[string]int{}}
	pairs := map[uint64]struct{}{}
	hf, err := os.Create(hashes)
	if err != nil {
		b.Harness = err.Error()
		return b
	}
	hw := bufio.NewWriter(hf)
	var sf *os.File
	sf, err = os.Create(status)
	if err != nil {
		b.Harness = err.Error()
		return b
	}
	debug.SetGCPercent(400)
	idx := from
	for n := 0; n < count; n++ {
		if time.Since(start).Seconds() > budget {
			break
		}
		fmt.Fprintf(sf, "%d\n", idx)
		p := Generate(prop, seed, idx)
		r := run(p, false, n%8 == 0)
		b.Runs++
		b.Steps += r.Stats.Steps
		b.Switches += r.Stats.Switches
		b.Preempt += r.Stats.Preemptions
		b.SimTime += r.SimTime
		faults := 0
		for k, v := range r.Faults {
			b.Faults[k] += v
			faults += v
		}
		for k, v := range r.Counts {
			b.Counts[k] += v
		}
		for _, o := range r.Others {
			if len(b.Others) < 20 {
				b.Others = append(b.Others, fmt.Sprintf("run %d: %s", idx, o))
			}
		}
		for k := range r.Stats.Pairs {
			pairs[k] = struct{}{}
		}
		if r.Counts["calls"] > r.Counts["calls failed"] && (r.Stats.Preemptions > 0 || faults > 0) {
			b.Nontrivial++
			binary.Write(hw, binary.LittleEndian, r.Hash)
		}
		if n < 3 || n%64 == 0 {
			b.Seeds = append(b.Seeds, [2]uint64{uint64(idx), r.Hash})
		}
		if n < 2 {
			j, _ := json.Marshal(p)
			b.Samples = append(b.Samples, fmt.Sprintf("run %d: %s => %d steps, %d preemptions, %d faults, hash %016x", idx, j, r.Stats.Steps, r.Stats.Preemptions, faults, r.Hash))
		}
		if r.Harness != "" {
			b.Harness = r.Harness
			b.HarnessIdx = idx
			break
		}
		if len(r.Viol) > 0 {
			v := r.Viol[0]
			if v.Class == "race" {
				if f := runFresh(p, false); len(f.Viol) == 0 {
					b.Counts["races not seen again in a fresh process"]++
					if b.Vague == nil {
						b.Vague = &Found{Plan: p, Viol: v, Hash: r.Hash}
					}
					idx += stride
					continue
				} else {
					v = f.Viol[0]
				}
			}
			if v.Known != "" {
				b.Known[v.Known]++
				b.Counts["known "+v.Known]++
			} else {
				b.Found = &Found{Plan: p, Viol: v, Hash: r.Hash}
				break
			}
		}
		idx += stride
		if n%64 == 63 {
			runtime.GC()
		}
	}
	hw.Flush()
	hf.Close()
	for k := range pairs {
		b.Pairs = append(b.Pairs, k)
	}
	sort.Slice(b.Pairs, func(i, j int) bool { return b.Pairs[i] < b.Pairs[j] })
	b.Wall = time.Since(start).Seconds()
	return b
}

// quietGC keeps the collector, whose timing the simulator does not decide,
// away from a single run under the race detector.
func quietGC() {
	if zrt.RaceMode {
		debug.SetGCPercent(-1)
		debug.SetMemoryLimit(2 << 30)
	}
}

// Main is the command line of the simulator.
func Main(args []string) int {
	runtime.GOMAXPROCS(1)
	debug.SetMaxStack(256 << 20)
	num := func(i int) int {
		v := 0
		fmt.Sscanf(args[i], "%d", &v)
		return v
	}
	writeJSON := func(path string, v interface{}) int {
		f, err := os.Create(path)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		e := json.NewEncoder(f)
		e.SetIndent("", " ")
		if err := e.Encode(v); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		if err := f.Close(); err != nil {
			return 2
		}
		return 0
	}
	if len(args) == 0 {
		return 2
	}
	switch args[0] {
	case "worker": // prop seed from stride count budget out
		b := Worker(args[1], uint64(num(2)), num(3), num(4), num(5), float64(num(6)), args[7]+".status", args[7]+".hashes")
		return writeJSON(args[7]+".json", b)
	case "hash": // prop seed index...: for the determinism test
		for i := 3; i < len(args); i++ {
			r := run(Generate(args[1], uint64(num(2)), num(i)), false, false)
			fmt.Printf("%d %d\n", num(i), r.Hash)
		}
		return 0
	case "plan": // prop seed index
		j, _ := json.Marshal(Generate(args[1], uint64(num(2)), num(3)))
		fmt.Println(string(j))
		return 0
	case "run": // prop seed index [trace]
		p := Generate(args[1], uint64(num(2)), num(3))
		if j, err := json.MarshalIndent(p, "", " "); err == nil && len(args) > 4 {
			fmt.Println(string(j))
		}
		quietGC()
		r := run(p, len(args) > 4, false)
		for _, l := range r.Trace {
			fmt.Println(l)
		}
		fmt.Printf("hash %016x steps %d preemptions %d simtime %d harness %q\nfaults %v\ncounts %v\n", r.Hash, r.Stats.Steps, r.Stats.Preemptions, r.SimTime, r.Harness, r.Faults, r.Counts)
		for _, v := range r.Viol {
			fmt.Printf("%s: %s (step %d) %s\n", v.Class, v.Detail, v.Step, v.Known)
		}
		return 0
	case "one": // in out [trace]
		quietGC()
		p := new(Plan)
		if err := readJSON(args[1], p); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		return writeJSON(args[2], run(p, len(args) > 3, false))
	case "shrink": // in out seconds
		var f Found
		if err := readJSON(args[1], &f); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		g := Shrink(&f, float64(num(3)))
		if g == nil {
			fmt.Fprintln(os.Stderr, "the violation does not reproduce")
			return 3
		}
		return writeJSON(args[2], g)
	case "replay": // file [trace]
		var f Found
		if err := readJSON(args[1], &f); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		quietGC()
		r := run(f.Plan, true, false)
		if len(args) > 2 {
			for _, l := range r.Trace {
				fmt.Println(l)
			}
		}
		if r.Harness != "" {
			fmt.Println("trouble in the harness:", r.Harness)
			return 2
		}
		if len(r.Viol) == 0 {
			fmt.Println("no violation")
			return 0
		}
		same := "the recorded execution"
		if r.Hash != f.Hash {
			same = "a different execution from the recorded one"
		}
		fmt.Printf("%s: %s\n(%s, hash %016x)\n", r.Viol[0].Class, r.Viol[0].Detail, same, r.Hash)
		return 1
	}
	return 2
}

func readJSON(path string, v interface{}) error {
	b, err := os.ReadFile(path)
	if err != nil {
		return err
	}
	return json.Unmarshal(b, v)
}
