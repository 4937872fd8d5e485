package main

import (
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
)

// Clones of the library in one simulator: each simulated process runs one.
var clones = []string{"p0", "p1", "p2"}

type paths struct {
	verif, repo, build, src, mod string
}

func getPaths() paths {
	v := os.Getenv("VSIM_VERIF")
	if v == "" {
		v = "/verif"
	}
	r := os.Getenv("VSIM_REPO")
	if r == "" {
		r = "/repo"
	}
	b := os.Getenv("VSIM_BUILD")
	if b == "" {
		b = filepath.Join(v, ".build")
	}
	return paths{v, r, b, filepath.Join(b, "src"), filepath.Join(b, "mod")}
}

func lockBuild(p paths) func() {
	os.MkdirAll(p.build, 0755)
	f, err := os.OpenFile(filepath.Join(p.build, "lock"), os.O_RDWR|os.O_CREATE, 0644)
	if err != nil {
		return func() {}
	}
	syscall.Flock(int(f.Fd()), syscall.LOCK_EX)
	return func() { f.Close() }
}

// syncTree makes dst an exact copy of the filtered part of src.
func syncTree(dst, src string, filter func(rel string, d fs.DirEntry) bool) error {
	want := map[string]bool{}
	err := copyTree(dst, src, func(rel string, d fs.DirEntry) bool {
		ok := filter(rel, d)
		if ok && !d.IsDir() {
			want[rel] = true
		}
		return ok
	})
	if err != nil {
		return err
	}
	return filepath.WalkDir(dst, func(p string, d fs.DirEntry, err error) error {
		if err != nil || d.IsDir() {
			return err
		}
		rel, _ := filepath.Rel(dst, p)
		if !want[rel] {
			return os.Remove(p)
		}
		return nil
	})
}

// build rewrites the current tree and compiles the simulator.  It returns
// the path of the binary and a digest of the library's sources.
func build(p paths, race bool) (string, string, error) {
	defer lockBuild(p)()
	skipDir := func(rel string, d fs.DirEntry) bool {
		n := d.Name()
		if d.IsDir() {
			return !strings.HasPrefix(n, ".") && n != "testdata" && n != "vendor"
		}
		if strings.HasSuffix(n, "_test.go") {
			return false
		}
		return strings.HasSuffix(n, ".go") || strings.HasSuffix(n, ".s") || strings.HasSuffix(n, ".h") || rel == "go.mod" || rel == "go.sum"
	}
	if err := syncTree(p.src, p.repo, skipDir); err != nil {
		return "", "", err
	}
	digest, err := digestTree(p.src)
	if err != nil {
		return "", "", err
	}
	pkgs, err := goList(p.src, ".")
	if err != nil {
		return "", "", fmt.Errorf("listing the library: %v", err)
	}
	exports := map[string]string{}
	for _, q := range pkgs {
		exports[q.ImportPath] = q.Export
	}
	// What gets rewritten: the library's own packages, and dependencies that
	// reach for the file system, processes, time or randomness.
	impure := set("os io/ioutil path/filepath crypto/rand math/rand math/rand/v2 net os/exec")
	clone := map[string]string{} // import path -> path below the clone
	var todo []*listPkg
	for _, q := range pkgs {
		if q.Standard {
			continue
		}
		if q.ImportPath == modPath {
			clone[q.ImportPath] = ""
			todo = append(todo, q)
		} else if strings.HasPrefix(q.ImportPath, modPath+"/") {
			clone[q.ImportPath] = strings.TrimPrefix(q.ImportPath, modPath)
			todo = append(todo, q)
		} else if shims[q.ImportPath] == nil && !strings.HasPrefix(q.ImportPath, "golang.org/x/") {
			for _, im := range q.Imports {
				if impure[im] {
					clone[q.ImportPath] = "/zdep/" + sanitize(q.ImportPath)
					todo = append(todo, q)
					break
				}
			}
		}
	}
	adapter, err := os.ReadFile(filepath.Join(p.verif, "sim/adapter.go.txt"))
	if err != nil {
		return "", "", err
	}
	sites := newSiteTable()
	for _, c := range clones {
		for _, q := range todo {
			sub := clone[q.ImportPath]
			var ad []byte
			if sub == "" {
				ad = []byte(strings.ReplaceAll(string(adapter), "@CLONE@", c))
			}
			label := strings.TrimPrefix(sub, "/")
			remap := func(path string) string {
				if s, ok := clone[path]; ok {
					return modPath + "/" + c + s
				}
				return ""
			}
			var resets []string
			if sub == "" {
				for _, o := range todo {
					if s := clone[o.ImportPath]; s != "" {
						resets = append(resets, modPath+"/"+c+s)
					}
				}
			}
			if err := rewritePackage(q, label, filepath.Join(p.mod, c)+sub, exports, remap, sites, ad, resets); err != nil {
				return "", "", err
			}
		}
	}
	if len(sites.names) >= 1<<16 {
		return "", "", fmt.Errorf("too many preemption points: %d", len(sites.names))
	}
	// The simulator itself.
	err = syncTree(filepath.Join(p.mod, "zsim"), filepath.Join(p.verif, "sim"), func(rel string, d fs.DirEntry) bool {
		return d.IsDir() || strings.HasSuffix(d.Name(), ".go") && !strings.HasSuffix(d.Name(), "_test.go") || rel == "zrt/zz_sites.go"
	})
	if err != nil {
		return "", "", err
	}
	if err := writeIfChanged(filepath.Join(p.mod, "zsim/zrt/zz_sites.go"), sites.source()); err != nil {
		return "", "", err
	}
	gm, err := os.ReadFile(filepath.Join(p.src, "go.mod"))
	if err != nil {
		return "", "", err
	}
	var lines []string
	for _, l := range strings.Split(string(gm), "\n") {
		f := strings.Fields(l)
		if len(f) == 2 && (f[0] == "go" || f[0] == "toolchain") {
			continue
		}
		lines = append(lines, l)
	}
	gomod := strings.Join(lines, "\n") + "\ngo 1.21\n\nrequire github.com/anishathalye/porcupine v1.3.1\n"
	gs, _ := os.ReadFile(filepath.Join(p.src, "go.sum"))
	extra, err := os.ReadFile(filepath.Join(p.verif, "tools/go.sum.extra"))
	if err != nil {
		return "", "", err
	}
	modfile := filepath.Join(p.mod, "go.mod")
	stamp := filepath.Join(p.build, "gomod.in")
	if old, err := os.ReadFile(stamp); err != nil || string(old) != gomod+string(gs)+string(extra) {
		os.WriteFile(modfile, []byte(gomod), 0644)
		os.WriteFile(filepath.Join(p.mod, "go.sum"), append(append(gs, '\n'), extra...), 0644)
		os.WriteFile(stamp, []byte(gomod+string(gs)+string(extra)), 0644)
	}
	name := "sim"
	args := []string{"go", "build", "-o", filepath.Join(p.build, name)}
	if race {
		name = "sim-race"
		// The simulator's own bookkeeping is not instrumented: only accesses
		// made by the library count.
		args = []string{"go", "build", "-race", "-o", filepath.Join(p.build, name), "-gcflags=" + modPath + "/zsim/...=-race=false -l"}
		if o := poolOverlay(p); o != "" {
			args = append(args, "-overlay", o)
		}
	}
	args = append(args, "./zsim/cmd")
	if _, err := run(p.mod, args...); err != nil {
		return "", "", fmt.Errorf("building the simulator: %v", err)
	}
	return filepath.Join(p.build, name), digest, nil
}

func digestTree(dir string) (string, error) {
	var files []string
	err := filepath.WalkDir(dir, func(p string, d fs.DirEntry, err error) error {
		if err == nil && !d.IsDir() {
			files = append(files, p)
		}
		return err
	})
	if err != nil {
		return "", err
	}
	sort.Strings(files)
	h := sha256.New()
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			return "", err
		}
		rel, _ := filepath.Rel(dir, f)
		fmt.Fprintf(h, "%s %d\n", rel, len(b))
		h.Write(b)
	}
	return hex.EncodeToString(h.Sum(nil))[:16], nil
}

// poolOverlay makes the standard library's sync.Pool, as fmt uses it, keep
// nothing under the race detector: it drops things at random there, which
// changes what the detector remembers, and synchronises those who share what
// it kept.
func poolOverlay(p paths) string {
	out, err := run(p.mod, "go", "env", "GOROOT")
	if err != nil {
		return ""
	}
	src := filepath.Join(strings.TrimSpace(string(out)), "src", "sync", "pool.go")
	b, err := os.ReadFile(src)
	if err != nil || strings.Count(string(b), "if runtime_randn(4) == 0 {") != 1 {
		return ""
	}
	dst, ov := filepath.Join(p.build, "pool.go"), filepath.Join(p.build, "overlay.json")
	s := strings.Replace(string(b), "if runtime_randn(4) == 0 {", "if runtime_randn(1) == 0 {", 1)
	if old, err := os.ReadFile(dst); err != nil || string(old) != s {
		os.WriteFile(dst, []byte(s), 0644)
	}
	os.WriteFile(ov, []byte(fmt.Sprintf("{\"Replace\": {%q: %q}}", src, dst)), 0644)
	return ov
}
