package h

import (
	"strings"

	"github.com/bwesterb/go-xmssmt/zsim/zos"
	"github.com/bwesterb/go-xmssmt/zsim/zrt"
)

// leaks judges what a process holds once it has closed everything it opened.
func (w *World) leaks(s *session) {
	if len(w.viol) > 0 || s.crashed {
		return
	}
	for _, ps := range w.paths {
		for _, h := range ps.handles {
			if h.s == s && h.closeRet == 0 {
				return // left open on purpose
			}
		}
	}
	if len(s.inflight) > 0 {
		return
	}
	zrt.Sleep(3600 * 1e9) // whatever still runs in the background ends
	w.counts["leak checks"]++
	if l := zrt.LiveTasks(s.proc); len(l) > 0 {
		w.fail("leak", "%d goroutines are still there an hour after every key was closed: %s", len(l), strings.Join(l, ", "))
		return
	}
	if l := zos.OpenFiles(s.proc); len(l) > 0 {
		w.fail("leak", "files still open although every key was closed: %s", strings.Join(l, ", "))
		return
	}
	failed := 0
	for _, f := range w.fired {
		if f.s == s && f.kind == "munmap" {
			failed++
		}
	}
	if n := zos.Mappings(s.proc); n > failed {
		w.fail("leak", "%d mappings still there although every key was closed; unmapping failed %d times", n, failed)
		return
	}
	if len(w.fired) > 0 || w.powerS > 0 || len(w.p.Stages) > 0 && len(w.p.Stages[0].Sess) > 1 {
		return
	}
	for _, o := range w.sess {
		if o.crashed {
			return
		}
	}
	for _, ps := range w.paths {
		for _, h := range ps.handles {
			if h.closeRet == 0 {
				return // its process ended with the key open
			}
		}
	}
	for _, f := range zos.List() {
		b := f[strings.LastIndex(f, "/")+1:]
		if f == zos.Dir || f == "/" || f == "/tmp" || !strings.HasPrefix(f, zos.Dir+"/") && !strings.HasPrefix(f, "/tmp/") {
			continue
		}
		if strings.HasPrefix(f, "/tmp/") || strings.Contains(b, ".") && !strings.HasSuffix(b, ".cache") {
			w.fail("leak", "%s was left behind although every key was closed", f)
			return
		}
	}
	w.counts["leftover file checks"]++
}

func genC25(g *gen) {
	if g.Chance(.05) {
		g.stale(false)
		return
	}
	if g.Chance(.8) {
		g.p.Params = g.fast()
	}
	m := stdMix
	m.precompute = 6
	l := life{maxStages: 3, clients: 4, ops: 12, m: m, pClose: 1, tail: 4, pPre: .5}
	all := append(append(append(append([]target(nil), cacheTargets...), bookTargets...), loadTargets...), lockTargets...)
	switch g.Intn(8) {
	case 0, 1:
		l.pFault, l.targets, l.faultMax = .9, cacheTargets, 30
	case 2, 3, 4:
		l.pFault, l.targets, l.faultMax = .9, all, 40
	case 5:
		l.pDamage, l.damages = .8, cacheDamages
	case 6:
		l.store, l.pFault, l.targets, l.faultMax = true, .8, storeTargets, 50
	}
	g.life(l)
	for i := range g.p.Stages {
		s := &g.p.Stages[i].Sess[0]
		if len(s.Pre) == 0 || s.Pre[0].K != "open" || s.Pre[0].Path >= 100 {
			continue
		}
		o := s.Pre[0]
		// failing attempts, and attempts while it is open
		for k := g.Intn(3); k > 0; k-- {
			s.Pre = append([]Op{o}, s.Pre...)
		}
		if g.Chance(.2) {
			s.Pre = append([]Op{{K: "open", How: "load", Path: 0, H: g.nh()}}, s.Pre...)
		}
		if g.Chance(.3) {
			s.Post = append(s.Post, Op{K: "signpath", Path: 0, Msg: g.nmsg(), Len: 20})
		}
		if g.Chance(.3) && len(s.Post) > 0 {
			s.Post = append(s.Post, Op{K: "verify", H: g.Intn(8), Key: g.Intn(8)})
		}
		for k := range s.Faults {
			if g.Chance(.5) {
				s.Faults[k].Arm = false
			}
		}
	}
}
