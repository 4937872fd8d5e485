package h

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"math"
	"os"
	"strings"
	"syscall"
	"unsafe"

	"github.com/bwesterb/go-xmssmt/zsim/ref"
	"github.com/bwesterb/go-xmssmt/zsim/simapi"
	"github.com/bwesterb/go-xmssmt/zsim/zos"
	"github.com/bwesterb/go-xmssmt/zsim/zrt"
)

// DefaultStepLimit ends runs that make no progress.
const DefaultStepLimit = 400e6

// Execute runs a plan.
func Execute(p *Plan, trace bool, pairs bool) *Result {
	w := &World{p: p, paths: map[int]*pathState{}, hs: map[int]*handle{}, byProc: map[*zrt.Proc]*session{}, counts: map[string]int{}, usedEnt: map[int]string{}, faults: map[string]int{}, rng: zrt.NewRNG(zrt.Mix(p.Seed ^ 0x77)), pidsDead: map[int]bool{}}
	zos.Reset(p.Seed)
	zos.AddLink(zos.Dir, "/lnk")
	for i := 0; i < 8; i++ {
		zos.AddLink(pathName(i), fmt.Sprintf("/other/l%d", i))
	}
	zos.F.Hook = w.hook
	zos.F.WriteBack = p.WriteBack
	zos.F.Monitor = w.modeMonitor
	zos.F.OnUnlink = w.unlinkLock
	zos.F.OnEntropy = func(off, n int, fail bool) {
		if s := w.byProc[zrt.CurProc()]; s != nil {
			w.entSegs = append(w.entSegs, entSeg{s, zrt.Cur(), off, n, w.tick(), fail})
		}
	}
	limit := p.StepLimit
	if limit == 0 {
		limit = DefaultStepLimit
	}
	sim := zrt.Run(zrt.Config{Seed: p.Sched, Policy: p.Policy, Replay: p.Schedule, StepLimit: limit, Trace: trace, Pairs: pairs}, w.main)
	for _, ps := range w.paths {
		if ps.store != nil {
			ps.store.free()
		}
	}
	res := &Result{Viol: w.viol, Hash: sim.Hash(), Stats: sim.Stats, SimTime: zrtNow(sim), Faults: w.faults, Counts: w.counts, Recorded: sim.Recorded(), Trace: sim.Trace, Harness: w.harness, Others: w.others}
	for _, pc := range sim.Panics {
		if !pc.Lib {
			res.Harness = fmt.Sprintf("panic in the harness: %s\n%s", pc.Value, pc.Stack)
			continue
		}
		cl := "panic"
		if pc.Fault {
			cl = "memfault"
		}
		if !Accepts(p.Prop, cl) && strings.Contains(pc.Stack, ".zSig.Bytes(") && Accepts(p.Prop, "bad-sig") {
			// What was returned is no signature at all.
			cl = "bad-sig"
		}
		if !Accepts(p.Prop, cl) {
			res.Counts["other property: "+cl]++
			res.Others = append(res.Others, cl+": "+pc.Value+" at "+panicSite(pc.Stack))
		} else if len(res.Viol) == 0 {
			res.Viol = append(res.Viol, Violation{Class: cl, Detail: pc.Task + ": " + pc.Value + " at " + panicSite(pc.Stack), Known: w.knownTag()})
		}
	}
	switch sim.Abort {
	case "deadlock", "livelock":
		if !Accepts(p.Prop, sim.Abort) {
			res.Counts["other property: "+sim.Abort]++
			res.Others = append(res.Others, sim.Abort+": "+sim.AbortWhy)
		} else if len(res.Viol) == 0 {
			res.Viol = append(res.Viol, Violation{Class: sim.Abort, Detail: sim.AbortWhy, Known: w.knownTag()})
		}
	}
	if len(res.Viol) == 0 && res.Harness == "" && sim.Abort == "" && Accepts(p.Prop, "nonlinearizable") {
		w.checkLin(res)
	}
	for k, n := range zos.F.Ops {
		res.Counts["io "+k] += n
	}
	return res
}

func zrtNow(s *zrt.Sim) int64 { return s.NowNs() }

// panicSite names the innermost library frame of a stack.
func panicSite(st string) string {
	lines := strings.Split(st, "\n")
	seen := false
	for i, l := range lines {
		if strings.HasPrefix(l, "panic(") || strings.HasPrefix(l, "runtime.sigpanic") {
			seen = true
		}
		if seen && i+1 < len(lines) && (strings.Contains(l, "go-xmssmt/p0.") || strings.Contains(l, "go-xmssmt/p1.") || strings.Contains(l, "go-xmssmt/p2.")) {
			f := strings.TrimSpace(l)
			if k := strings.LastIndex(f, "("); k > 0 {
				f = f[:k]
			}
			if k := strings.LastIndex(f, "/"); k > 0 {
				f = f[k+1:]
			}
			return f
		}
	}
	return "?"
}

func (w *World) modeMonitor(path string, mode os.FileMode, data []byte) {
	if len(w.viol) > 0 {
		return
	}
	for _, b := range data {
		if !(b >= '0' && b <= '9' || b == '\n' || b == ' ') {
			w.fail("secret-exposed", "%s has mode %o and contains more than a process number (%d bytes)", path, mode, len(data))
			return
		}
	}
}

// ---- faults and crashes

func kindMatches(f, op string) bool {
	return f == "any" || f == "" || f == op || f == "bk" && (op == "create" || op == "write" || op == "sync" || op == "rename" || op == "dirsync" || op == "close" || op == "open")
}

func (w *World) pathMatches(want, path string) bool {
	switch want {
	case "":
		return true
	case "key":
		return !strings.Contains(path[strings.LastIndex(path, "/")+1:], ".") && path != zos.Dir
	case "dir":
		return path == zos.Dir
	case "book": // bookkeeping: anything but lock and cache
		return !strings.Contains(path, ".lock") && !strings.Contains(path, ".cache")
	}
	return strings.Contains(path, want)
}

func (w *World) hook(op *zos.Op) zos.Action {
	a := w.decide(op)
	switch {
	case op.Kind == "rename":
		w.dirty = true
	case op.Kind == "dirsync" && a.Err == 0 && a.Before == nil:
		w.synced()
	}
	return a
}

func (w *World) decide(op *zos.Op) zos.Action {
	a := zos.Action{Short: -1}
	s := w.byProc[zrt.CurProc()]
	if s == nil || w.quietF {
		return a
	}
	s.ioOps++
	for i := range s.p.Faults {
		f := &s.p.Faults[i]
		if f.Arm && !s.armed || !kindMatches(f.Kind, op.Kind) || !w.pathMatches(f.Path, op.Path) {
			continue
		}
		s.fcount[i]++
		n := f.Count
		if n == 0 {
			n = 1
		}
		if s.fcount[i] < f.Nth || s.fcount[i] >= f.Nth+n {
			continue
		}
		if op.Kind == "stat" && f.Kind != "stat" || op.Kind == "munmap" && f.Kind != "munmap" {
			continue
		}
		name := op.Kind
		if f.Err == 0 {
			// a short read: not an error
			if op.Kind == "read" || op.Kind == "entropy" {
				a.Short = op.Size * f.Short / 1000
				if a.Short == 0 {
					a.Short = 1
				}
				w.faults["short "+op.Kind]++
			}
			continue
		}
		a.Err = syscall.Errno(f.Err)
		a.Applied = f.Applied
		if f.Short > 0 && (op.Kind == "write" || op.Kind == "entropy") {
			a.Short = op.Size * f.Short / 1000
			name += " (torn)"
		} else if f.Applied {
			name += " (applied)"
		}
		w.faults[name+" "+a.Err.Error()]++
		w.addFired(s, op.Kind, op.Path, a.Err)
		break
	}
	if c := s.p.Crash; c != nil && c.Mode == "io" && (!c.Arm || s.armed) && !s.crashed && (c.IO == "" || c.IO == op.Kind) {
		s.crashN++
		if s.crashN >= c.N {
			f := func() { w.crash(s, op.Kind) }
			switch c.When {
			case "half":
				if op.Kind == "write" {
					a.Half = true
				}
				a.After = f
			case "after":
				a.After = f
			default:
				a.Before = f
			}
		}
	}
	return a
}

func (w *World) crash(s *session, at string) {
	if s.crashed {
		return
	}
	s.crashed = true
	c := s.p.Crash
	w.faults["crash: "+c.Kind+" ("+c.Mode+")"]++
	if c.Kind == "power" {
		w.power = true
		for _, p := range zrt.Procs() {
			zrt.Kill(p)
		}
		return
	}
	zrt.Kill(s.proc)
}

// ---- processes

func (w *World) died(s *session) {
	if s.dead > 0 {
		return
	}
	s.dead = w.tick()
	w.pidsDead[s.proc.Pid] = true
	for _, ps := range w.paths {
		for _, h := range ps.handles {
			if h.s == s && !h.ended {
				w.endCrash(h)
			}
		}
		for _, c := range ps.attempts {
			if c.s == s && c.ret == 0 && c.op.K == "signpath" {
				ps.signing--
			}
		}
		if ps.store != nil && ps.store.owner == s {
			ps.store.crashed()
		}
	}
	zos.ProcessDied(s.proc)
}

func (w *World) start(s *session) {
	p := s.p
	page := p.Page
	if page == 0 {
		page = 4096
	}
	s.proc = zrt.NewProc(p.Slot, p.Pid, page, p.CPUs)
	s.proc.OnKill = append(s.proc.OnKill, func() { w.died(s) })
	w.byProc[s.proc] = s
	s.fcount = make([]int, len(p.Faults))
	s.inflight = map[*call]bool{}
	s.lib = Libs[p.Slot]
	s.main = zrt.Spawn(s.proc, fmt.Sprintf("p%d", s.proc.ID), func() {
		if p.Delay > 0 {
			zrt.Sleep(p.Delay)
		}
		s.lib.Reset()
		s.lib.SetVector(!p.NoVector)
		s.lib.SetLogger(func(m string) {
			w.logLines++
		})
		arm := func() {
			s.armed = true
			if c := p.Crash; c != nil && c.Arm {
				w.arm(s)
			}
		}
		if c := p.Crash; c != nil && !c.Arm {
			w.arm(s)
		}
		if p.Shared {
			share := func(o *Op) {
				if o.K == "open" && (strings.HasSuffix(o.How, "derive") || o.How == "generate") {
					s.lib.ShareContext(w.params(o), int(o.T))
				}
			}
			for i := range p.Pre {
				share(&p.Pre[i])
			}
			for _, l := range p.Clients {
				for i := range l {
					share(&l[i])
				}
			}
		}
		cl := &client{w: w, s: s, name: fmt.Sprintf("p%d", s.proc.ID)}
		cl.run(p.Pre)
		arm()
		var ts []*zrt.Task
		for i, ops := range p.Clients {
			c := &client{w: w, s: s, name: fmt.Sprintf("p%d.c%d", s.proc.ID, i)}
			ops := ops
			ts = append(ts, zrt.Spawn(s.proc, c.name, func() { c.run(ops) }))
		}
		zrt.Join(ts...)
		cl.run(p.Post)
		if w.p.Prop == "C25" {
			w.leaks(s)
		}
		zrt.DisarmCrashFor(s)
		zrt.Kill(s.proc)
	})
}

func (w *World) arm(s *session) {
	c := s.p.Crash
	switch c.Mode {
	case "step":
		zrt.ArmCrash(c.N, 0, 0, func() { w.crash(s, "step") })
	case "site":
		n := zrt.SiteByName(c.Site)
		if n == 0 && zrt.NSites > 1 {
			n = 1 + c.SiteN%(zrt.NSites-1)
		}
		zrt.ArmCrash(0, n, int(c.N), func() { w.crash(s, "site") })
	default:
		return
	}
	zrt.SetCrashOwner(s)
}

func (w *World) main() {
	for i := range w.p.Stages {
		st := &w.p.Stages[i]
		w.stage = i
		for _, d := range st.Damage {
			w.damage(d)
		}
		var ss []*session
		for j := range st.Sess {
			s := &session{p: &st.Sess[j], n: len(w.sess)}
			w.sess = append(w.sess, s)
			ss = append(ss, s)
			w.start(s)
		}
		for _, s := range ss {
			zrt.Join(s.main)
		}
		zrt.DisarmCrash()
		w.endStage(st.After)
		if a, _ := zrt.Aborted(); a != "" {
			return
		}
	}
	if !w.p.NoEpi {
		w.epilogue()
	}
	w.final()
}

func (w *World) endStage(after string) {
	for _, s := range w.sess {
		if !s.proc.Dead {
			zrt.Kill(s.proc)
		}
	}
	zrt.DrainKilled()
	if w.power || after == "power" {
		w.power = false
		w.powerS++
		w.faults["power loss"]++
		zos.PowerLoss(zrt.Mix(w.p.Seed ^ w.powerS<<32))
		for _, n := range w.pathNums() {
			if ps := w.paths[n]; ps.store != nil {
				ps.store.powerLost()
			} else if ps.cm != nil {
				ps.cm.reverted()
			} else {
				ps.reverted()
			}
		}
	} else if after == "settle" {
		zos.Settle()
	}
}

func (w *World) pathNums() []int {
	var l []int
	for n := range w.paths {
		l = append(l, n)
	}
	for i := range l {
		for j := i + 1; j < len(l); j++ {
			if l[j] < l[i] {
				l[i], l[j] = l[j], l[i]
			}
		}
	}
	return l
}

// epilogue: all faults have stopped; every key must be usable again.
func (w *World) epilogue() {
	w.quietF = true
	for _, n := range w.pathNums() {
		ps := w.paths[n]
		if ps.ctr != nil {
			continue
		}
		only := true
		for _, id := range ps.poss {
			if id != nil {
				only = false
			}
		}
		if only {
			continue
		}
		how := "load"
		if ps.store != nil {
			how = "memload"
		}
		h := 1000 + n
		s := &session{p: &Session{Slot: len(w.sess) % 3, Pre: []Op{
			{K: "open", How: how, Path: n, H: h},
			{K: "sign", H: h, Msg: 900000 + n*10, Len: 33, N: 1},
			{K: "sign", H: h, Msg: 900001 + n*10, Len: 7},
			{K: "settle", H: h},
			{K: "close", H: h},
		}}, n: len(w.sess)}
		w.sess = append(w.sess, s)
		w.start(s)
		zrt.Join(s.main)
		w.endStage("")
		if a, _ := zrt.Aborted(); a != "" {
			return
		}
	}
}

// ---- clients

type client struct {
	w    *World
	s    *session
	name string
}

func (c *client) run(ops []Op) {
	for i := range ops {
		if len(c.w.viol) > 0 {
			return
		}
		c.do(&ops[i])
	}
}

func (c *client) handle(op *Op) *handle {
	h := c.w.hs[op.H]
	if h == nil || h.k == nil || h.s != c.s {
		return nil
	}
	zrt.RaceAcquire(unsafe.Pointer(h))
	return h
}

func (w *World) params(op *Op) simapi.Params {
	if op.P != nil {
		return *op.P
	}
	return w.p.Params
}

func (c *client) do(op *Op) {
	w := c.w
	switch op.K {
	case "open":
		c.open(op)
		return
	case "signpath":
		c.signPath(op)
		return
	case "sleep":
		zrt.Sleep(int64(op.N))
		return
	case "settle":
		zrt.JoinProc()
		c.settled(op)
		return
	case "verify":
		c.verify(op)
		return
	case "vdescribe":
		if len(w.sigs) > 0 {
			pk := w.sigs[op.H%len(w.sigs)].id.pk
			if c.s.sharedVerifier(pk) != nil {
				cl := w.begin(c.s, c.name, op, nil)
				if c.s.sharedD[string(pk)]() == "" {
					w.fail("counter", "empty description of a public key")
				}
				w.end(cl, nil)
			}
		}
		return
	case "ctrfuzz":
		c.ctrFuzz(op)
		return
	case "ctrstore":
		c.ctrStore(op)
		return
	case "ctrsnap", "ctrcmp", "ctrlist":
		c.ctrSnap(op)
		return
	case "seed":
		c.seedKey(op)
		return
	case "bad":
		c.bad(op)
		return
	}
	h := c.handle(op)
	if h == nil {
		return
	}
	switch op.K {
	case "sign", "signr":
		c.sign(op, h)
	case "signfast":
		c.signFast(op, h)
	case "borrow", "borrowif":
		c.borrow(op, h)
	case "skip":
		c.skip(op, h)
	case "close":
		c.close(op, h)
	case "seqno":
		quiet := len(c.s.inflight) == 0 && h.closeInv == 0
		invoked, rsum := h.invoked, h.rsum
		cl := w.begin(c.s, c.name, op, h)
		v := h.k.SeqNo()
		cl.out, cl.ok = v, true
		w.end(cl, nil)
		if v < h.base || v > h.base+h.invoked {
			w.fail("counter", "%s: SeqNo() = %d although the key was opened at %d and %d signatures were asked for", h.path.name, v, h.base, h.invoked)
		}
		h.quietSeq = -1
		if quiet && h.closeInv == 0 && invoked == h.invoked && rsum == h.rsum {
			h.quietSeq = int64(v)
		}
	case "borrowed":
		cl := w.begin(c.s, c.name, op, h)
		v := h.k.Borrowed()
		cl.out, cl.ok = uint64(v), true
		w.end(cl, nil)
		if uint64(v) > h.rmax {
			w.fail("counter", "%s: BorrowedSeqNos() = %d although at most %d were asked for", h.path.name, v, h.rmax)
		}
	case "unretired":
		cl := w.begin(c.s, c.name, op, h)
		v := h.k.Unretired()
		w.end(cl, nil)
		n := 0
		for _, o := range h.calls {
			if (o.op.K == "sign" || o.op.K == "signr") && (o.ret == 0 || o.ret > cl.inv) {
				n++
			}
		}
		if int(v) > n {
			w.fail("unretired", "%s: UnretiredSeqNos() = %d with %d signing calls in progress", h.path.name, v, n)
		}
	case "cached":
		cl := w.begin(c.s, c.name, op, h)
		h.k.Cached()
		w.end(cl, nil)
	case "describe":
		cl := w.begin(c.s, c.name, op, h)
		d := h.k.Describe()
		w.end(cl, nil)
		if d == "" {
			w.fail("counter", "empty description")
		}
	case "pubkey":
		cl := w.begin(c.s, c.name, op, h)
		b := h.k.PublicKey()
		t := h.k.PublicKeyText()
		w.end(cl, nil)
		if !bytes.Equal(b, h.id_.pk) {
			w.fail("wrong-pk", "%s: PublicKey() differs from the key's public key", h.path.name)
		}
		if pk, err := c.s.lib.ParsePKText([]byte(t)); err != nil || !bytes.Equal(pk, b) {
			w.fail("wrong-pk", "%s: textual public key does not decode to the public key: %v", h.path.name, err)
		}
	case "precompute":
		cl := w.begin(c.s, c.name, op, h)
		h.precomp = true
		h.k.Precompute()
		w.end(cl, nil)
	default:
		panic("harness: unknown op " + op.K)
	}
}

// ---- opening

func (c *client) open(op *Op) {
	w := c.w
	ps := w.path(op.Path)
	p := w.params(op)
	path := pathAlias(op.Path, op.N)
	cl := w.begin(c.s, c.name, op, nil)
	cl.path = ps
	ps.attempts = append(ps.attempts, cl)
	cl.ent0 = len(zos.F.Entropy)
	if ps.store != nil {
		ps.store.opened(c.s)
	}
	var before []byte
	var existed bool
	before, existed = zos.Peek(ps.name)
	threads := int(op.T)
	var k simapi.Key
	var pk []byte
	var lost uint32
	var err *simapi.Error
	var fresh *ident
	switch op.How {
	case "derive", "memderive":
		fresh = newIdent(refKey(p, op.Key))
		ps.poss = append(ps.poss, fresh)
		a, b, d := seeds(p, op.Key)
		if op.How == "derive" {
			k, pk, err = c.s.lib.Derive(path, p, threads, a, b, d)
		} else {
			k, pk, err = c.s.lib.DeriveInto(ps.store, p, threads, a, b, d)
		}
		// the caller owns its buffers and wipes them
		for i := range a {
			a[i], b[i], d[i] = 0xee, 0xee, 0xee
		}
	case "generate", "genalg":
		fresh = &ident{used: map[uint64]string{}, maxUsed: -1, exact: -1, gen: cl, genP: p}
		ps.poss = append(ps.poss, fresh)
		if op.How == "generate" {
			k, pk, err = c.s.lib.Generate(path, p, threads)
		} else {
			alg, _ := c.s.lib.AlgName(p)
			k, pk, err = c.s.lib.GenerateAlg(alg, path)
		}
	case "load":
		k, pk, lost, err = c.s.lib.Load(path)
	case "memload":
		k, pk, lost, err = c.s.lib.LoadFrom(ps.store)
	default:
		panic("harness: unknown way to open: " + op.How)
	}
	w.end(cl, err)
	if len(w.viol) > 0 {
		return
	}
	if err != nil {
		cl.zombie = w.faultedLock(cl)
		c.openFailed(op, ps, cl, fresh, before, existed)
		return
	}
	cl.zombie = true // holds the key until the handle below takes over
	if s := w.swallowedOpen(cl); s != "" && w.fail("error-swallowed", "%s: %s reported success although a step of it failed: %s", ps.name, op.How, s) {
		return
	}
	// it succeeded: nobody else may have it
	if o := w.heldThrough(ps, cl.ret, cl.ret); o != nil {
		if w.fail("double-open", "%s: opened by %s (%s) while %s has it open", ps.name, c.name, op.How, o.s.main.Name) {
			return
		}
	}
	h := &handle{id: op.H, path: ps, k: k, s: c.s, openInv: cl.inv, openRet: cl.ret, quietSeq: -1, threads: threads}
	w.supersede(ps, h)
	var id *ident
	if fresh != nil {
		if fresh.gen != nil {
			if !w.resolve(fresh, pk, ps.name) {
				w.fail("wrong-pk", "%s: the generated public key matches neither the stored seeds nor the entropy used", ps.name)
				return
			}
			if !c.checkEntropy(fresh, cl, ps) {
				return
			}
		}
		if !bytes.Equal(pk, fresh.pk) {
			w.fail("wrong-pk", "%s: %s returned a public key that differs from the reference", ps.name, op.How)
			return
		}
		id = fresh
		ps.poss = []*ident{id}
	} else {
		for i := len(ps.poss) - 1; i >= 0; i-- {
			if x := ps.poss[i]; x != nil && w.resolve(x, pk, ps.name) {
				// The same key may have been derived again: or not, if that
				// failed.
				if seq := uint64(k.SeqNo()); id == nil || (seq < id.lo || seq > id.hi) && seq >= x.lo && seq <= x.hi {
					id = x
				}
			}
		}
		if id == nil {
			w.fail("wrong-pk", "%s: loaded with a public key that belongs to no key generated there", ps.name)
			return
		}
		if ps.store == nil && w.dirty {
			ps.unacknowledged(id)
		}
		ps.poss = []*ident{id}
	}
	h.id_ = id
	h.base = k.SeqNo()
	var borrowed uint32
	kpk := pk
	if !zrt.RaceMode || w.p.Seed&1 == 0 { // what is initialised late is raced for
		borrowed, kpk = k.Borrowed(), k.PublicKey()
	}
	// from here on nothing yields until other clients may use the handle
	h.model = &posModel{seq: h.base, lo: h.base, hi: h.base, nextHi: h.base}
	ps.handles = append(ps.handles, h)
	for i, x := range ps.attempts {
		if x == cl {
			ps.attempts = append(ps.attempts[:i:i], ps.attempts[i+1:]...)
			break
		}
	}
	w.hs[op.H] = h
	zrt.RaceReleaseMerge(unsafe.Pointer(h))
	cl.h = h
	w.counts["opens"]++
	if borrowed != 0 {
		w.fail("counter", "%s: freshly opened key reports %d reserved numbers", ps.name, borrowed)
		return
	}
	if fresh != nil {
		if h.base != 0 {
			w.fail("seq-gap", "%s: a fresh key starts at sequence number %d", ps.name, h.base)
			return
		}
	} else {
		w.loaded(ps, id, h.base, uint64(lost), cl)
	}
	if !bytes.Equal(kpk, id.pk) {
		w.fail("wrong-pk", "%s: the private key's public key differs from the one returned", ps.name)
	}
}

func (c *client) openFailed(op *Op, ps *pathState, cl *call, fresh *ident, before []byte, existed bool) {
	w := c.w
	err := cl.err
	if fresh != nil && err.Locked {
		// nothing was written
		ps.drop(fresh)
	}
	if fresh != nil && fresh.gen != nil {
		for _, g := range w.entSegs {
			if g.s == c.s && g.fail && g.clk >= cl.inv && g.clk <= cl.ret {
				// the entropy source failed
				after, exists := zos.Peek(ps.name)
				if w.maybeHeld(ps, cl.inv, cl.ret, cl) {
					continue // somebody else may have changed it
				}
				if exists != existed || !bytes.Equal(before, after) {
					w.fail("entropy-key", "%s: key generation failed with the entropy source but changed the key", ps.name)
					return
				}
				ps.drop(fresh)
				break
			}
		}
	}
	if w.faulted(cl) {
		return
	}
	if ps.store == nil {
		if o := w.heldThrough(ps, cl.inv, cl.ret); o != nil {
			if !err.Locked {
				w.fail("bad-locked", "%s: in use by %s, but opening it reports %q, which does not say it is locked", ps.name, o.s.main.Name, err.Msg)
			}
			return
		}
		if err.Locked {
			if !w.maybeHeld(ps, cl.inv, cl.ret, cl) {
				if w.pidReused(ps) {
					if w.p.Prop != "C08" {
						// Subject of C08 only.
						zrt.Stop("known", "K2")
						return
					}
					w.failKnown("stuck-lock", "K2", fmt.Sprintf("%s: reported as locked (%s) although the process that had it is gone: its number is used by another process", ps.name, err.Msg))
					return
				}
				w.fail("stuck-lock", "%s: reported as locked (%s) although nobody has it open", ps.name, err.Msg)
			}
			return
		}
		if w.maybeHeld(ps, cl.inv, cl.ret, cl) {
			return
		}
	}
	for _, id := range ps.poss {
		if id != nil && op.K == "signpath" && (id.ref == nil || id.hi > id.ref.Max()) {
			return // may have no numbers left
		}
		if id == nil && (op.How == "load" || op.How == "memload" || op.K == "signpath") {
			return
		}
	}
	cls := "lost-key"
	if fresh != nil {
		cls = "spurious-fail"
	}
	w.fail(cls, "%s: %s failed without any fault: %s", ps.name, op.How, err.Msg)
}

func (ps *pathState) drop(id *ident) {
	for i, x := range ps.poss {
		if x == id {
			ps.poss = append(ps.poss[:i:i], ps.poss[i+1:]...)
			return
		}
	}
}

// checkEntropy: the three seeds are fresh and distinct parts of what the
// entropy source produced during the call.
func (c *client) checkEntropy(id *ident, cl *call, ps *pathState) bool {
	w := c.w
	n := int(id.ref.P.N)
	e := zos.F.Entropy
	streams := w.entropyOf(cl)
	mine := map[int]string{}
	for _, sd := range []struct {
		what string
		b    []byte
	}{{"public seed", id.ref.Pub}, {"secret seed", id.ref.Seed}, {"PRF seed", id.ref.Prf}} {
		var found []int
		reused := ""
	search:
		for _, s := range streams {
			for a := 0; a+n <= len(s); a++ {
				pos := s[a : a+n]
				same := true
				for i, o := range pos {
					if e[o] != sd.b[i] {
						same = false
						break
					}
				}
				if !same {
					continue
				}
				used := ""
				for _, o := range pos {
					if u := w.usedEnt[o]; u != "" {
						used = u
					}
					if u := mine[o]; u != "" {
						used = u
					}
				}
				if used != "" {
					reused = used
					continue
				}
				found = pos
				break search
			}
		}
		if found == nil {
			if reused != "" {
				w.fail("entropy-reuse", "%s: the %s uses the same entropy as the %s", ps.name, sd.what, reused)
			} else {
				w.fail("entropy-fresh", "%s: the %s did not come from the entropy source during this call", ps.name, sd.what)
			}
			return false
		}
		for _, o := range found {
			mine[o] = sd.what + " of " + ps.name
		}
	}
	for o, u := range mine {
		w.usedEnt[o] = u
	}
	w.counts["generated keys checked"]++
	return true
}

// seedKey installs a key at a chosen position through the store interface, as
// an application that manages positions itself would.
func (c *client) seedKey(op *Op) {
	w := c.w
	ps := w.path(op.Path)
	p := w.params(op)
	id := newIdent(refKey(p, op.Key))
	sk := append(append(append([]byte(nil), id.ref.Seed...), id.ref.Prf...), id.ref.Pub...)
	cl := w.begin(c.s, c.name, op, nil)
	cl.path = ps
	var st simapi.Store
	var err *simapi.Error
	if ps.store != nil {
		ps.store.opened(c.s)
		st = ps.store
	} else {
		st, err = c.s.lib.OpenFS(ps.name)
	}
	var e error
	if err == nil {
		e = st.Reset(sk, p)
		if e == nil {
			e = st.SetSeqNo(op.N)
		}
		if e2 := st.Close(); e == nil {
			e = e2
		}
	} else {
		e = errors.New(err.Msg)
	}
	w.end(cl, err)
	if e != nil {
		w.fail("spurious-fail", "%s: installing a key failed: %v", ps.name, e)
		return
	}
	id.lo, id.hi, id.exact, id.lost0, id.nextHi = op.N, op.N, int64(op.N), true, op.N
	ps.poss = []*ident{id}
}

// ---- signing

type errReader struct{ s string }

func (e *errReader) Error() string { return e.s }

func readerErr(n int) error {
	switch n % 4 {
	case 1:
		return io.ErrUnexpectedEOF
	case 2:
		return syscall.EIO
	case 3:
		return io.ErrClosedPipe
	}
	return &errReader{"stream failed"}
}

type simReader struct {
	b     []byte
	pos   int
	spec  *Rdr
	i     int
	fails bool
	reads int
}

func (r *simReader) Read(p []byte) (int, error) {
	zrt.SyncPoint()
	if r.spec.Sleep > 0 {
		zrt.Sleep(r.spec.Sleep)
	}
	r.reads++
	if len(p) == 0 {
		return 0, nil
	}
	limit := len(r.b)
	fail := r.spec.FailAt >= 0
	if fail && r.spec.FailAt < limit {
		limit = r.spec.FailAt
	}
	end := error(io.EOF)
	if fail {
		end = readerErr(r.spec.Err)
	}
	if r.pos >= limit {
		r.fails = fail
		return 0, end
	}
	n := len(p)
	if k := len(r.spec.Chunks); k > 0 {
		s := r.spec.Chunks[r.i%k]
		r.i++
		if s == 0 && r.reads%100 != 99 {
			return 0, nil
		}
		if s < n && s > 0 {
			n = s
		}
	}
	if n > limit-r.pos {
		n = limit - r.pos
	}
	copy(p, r.b[r.pos:r.pos+n])
	// the rest of the buffer may be used as scratch space
	for i := n; i < len(p) && i < n+8; i++ {
		p[i] = 0xdd
	}
	r.pos += n
	if r.pos == limit {
		if !fail && r.spec.EOFData {
			return n, io.EOF
		}
		if fail && r.spec.FailNow {
			r.fails = true
			return n, end
		}
	}
	return n, nil
}

type writerToReader struct{ *simReader }

func (r writerToReader) WriteTo(w io.Writer) (int64, error) {
	var t int64
	buf := make([]byte, 700)
	for {
		n, err := r.Read(buf)
		if n > 0 {
			k, e := w.Write(buf[:n])
			t += int64(k)
			if e != nil {
				return t, e
			}
		}
		if err == io.EOF {
			return t, nil
		}
		if err != nil {
			return t, err
		}
	}
}

func (r *Rdr) reader(b []byte) (io.Reader, *simReader) {
	s := &simReader{b: b, spec: r}
	switch r.Kind % 5 {
	case 1:
		return writerToReader{s}, s
	case 2:
		if r.FailAt < 0 {
			return bytes.NewReader(b), s
		}
	case 3:
		return bufio.NewReaderSize(s, 64), s
	case 4:
		if r.FailAt < 0 {
			return bytes.NewBuffer(append([]byte(nil), b...)), s
		}
	}
	return s, s
}

func (c *client) sign(op *Op, h *handle) {
	w := c.w
	msg := message(op.Msg, op.Len)
	cl := w.begin(c.s, c.name, op, h)
	cl.path = h.path
	h.invoked++
	h.inflight++
	h.quietSeq = -1
	lateInv := h.closeRet > 0 && h.closed
	if m := h.model; m != nil {
		m.nextHi = m.seq + 1
		if m.b == 0 && (m.hi < m.seq+1 || !m.skipped) {
			m.hi = m.seq + 1
		}
		if m.skipped && m.seq+1 < m.lo {
			m.lo = m.seq + 1 // takes back what the reservation before the skip left
		}
	}
	var sig simapi.Sig
	var err *simapi.Error
	fails := false
	if op.K == "sign" {
		m := append([]byte(nil), msg...)
		sig, err = h.k.Sign(m)
		for i := range m {
			m[i] = 0xcc
		}
	} else {
		rd, sr := op.R.reader(msg)
		sig, err = h.k.SignFrom(rd)
		fails = op.R.FailAt >= 0
		_ = sr
	}
	var idx uint64
	var b []byte
	if err == nil {
		var e error
		idx = sig.SeqNo()
		b, e = sig.Bytes()
		if e != nil {
			w.fail("bad-sig", "a returned signature cannot be encoded: %v", e)
			return
		}
		cl.ok, cl.out = true, idx
	}
	w.end(cl, err)
	h.inflight--
	if len(w.viol) > 0 {
		return
	}
	if err != nil {
		h.badSigns++
		h.model = nil
		if sig != nil {
			w.fail("sig-with-error", "%s: a failing signing call returned a signature as well", h.path.name)
			return
		}
		if fails || h.base+h.invoked > h.id_.ref.Max() || h.closeInv > 0 || w.faulted(cl) {
			return
		}
		w.fail("spurious-fail", "%s: signing failed without any fault: %s", h.path.name, err.Msg)
		return
	}
	h.okSigns++
	h.lastIdx = idx
	if s := w.swallowed(cl); s != "" && w.fail("error-swallowed", "%s: a signing call succeeded although a step of its own failed: %s", h.path.name, s) {
		return
	}
	if m := h.model; m != nil {
		m.seq++
		if m.b > 0 {
			m.b--
		}
		m.lo, m.hi, m.nextHi = m.seq+m.b, m.seq+m.b, m.seq
		m.skipped = false
	}
	if fails {
		w.fail("stream-ignored", "%s: signing succeeded although the message stream failed before its end", h.path.name)
		return
	}
	if lateInv && w.fail("closed-use", "%s: signing succeeded on a handle that had been closed", h.path.name) {
		return
	}
	if idx < h.base || idx >= h.base+h.invoked {
		if _, dup := h.id_.used[idx]; !dup && idx <= h.id_.ref.Max() {
			if w.fail("seq-gap", "%s: signature carries sequence number %d although the key was opened at %d and %d signatures were asked for", h.path.name, idx, h.base, h.invoked) {
				return
			}
		}
	}
	if !w.returned(h.path, h.id_, idx, b, msg, fmt.Sprintf("call %d by %s", cl.n, cl.client)) {
		return
	}
	if st := h.path.store; st != nil {
		if v := st.recorded(); v <= idx {
			w.fail("store-unrecorded", "%s: signature with sequence number %d returned, but the store's number is %d", h.path.name, idx, v)
			return
		}
	}
	if op.N&1 == 1 {
		ok, err := h.k.VerifyOwn(sig, msg)
		if err != nil || !ok {
			w.fail("verify-reject", "%s: the key's own signature %d does not verify: %v %v", h.path.name, idx, ok, errMsg(err))
			return
		}
		w.counts["verified"]++
	}
}

func errMsg(e *simapi.Error) string {
	if e == nil {
		return ""
	}
	return e.Msg
}

func (c *client) borrow(op *Op, h *handle) {
	w := c.w
	cl := w.begin(c.s, c.name, op, h)
	h.rsum += op.N
	if op.N > h.rmax {
		h.rmax = op.N
	}
	h.quietSeq = -1
	if m := h.model; m != nil {
		m.nextHi = m.seq
		lo, hi := m.lo, m.hi
		m.lo = m.seq
		m.hi = m.seq + m.b
		if m.skipped {
			if lo < m.lo {
				m.lo = lo
			}
			if hi > m.hi {
				m.hi = hi
			}
		}
		if m.seq+op.N > m.hi {
			m.hi = m.seq + op.N
		}
		if op.K == "borrowif" && m.b > uint64(op.T) {
			m.lo, m.hi = m.seq+m.b, m.seq+m.b
		} else if op.N >= m.b && !m.skipped {
			m.lo = m.seq + m.b
		}
	}
	var err *simapi.Error
	if op.K == "borrow" {
		err = h.k.Borrow(uint32(op.N))
	} else {
		err = h.k.BorrowIfBelow(uint32(op.N), op.T)
	}
	cl.ok = err == nil
	w.end(cl, err)
	if err == nil {
		if s := w.swallowed(cl); s != "" && w.fail("error-swallowed", "%s: reserving numbers reported success although a step of it failed: %s", h.path.name, s) {
			return
		}
	}
	if m := h.model; m != nil {
		if err != nil {
			h.model = nil
		} else {
			if op.K == "borrow" || m.b <= uint64(op.T) {
				m.b = op.N
			}
			if m.b > 0 {
				m.skipped = false
			}
			if !m.skipped {
				m.lo, m.hi = m.seq+m.b, m.seq+m.b
			}
		}
	}
	if err != nil && !w.faulted(cl) && h.closeInv == 0 && h.base+h.invoked+op.N <= h.id_.ref.Max() {
		w.fail("spurious-fail", "%s: reserving %d failed without any fault: %s", h.path.name, op.N, err.Msg)
	}
	if err == nil && h.closed && h.closeRet < cl.inv && op.K == "borrow" && op.N > 0 {
		w.fail("closed-use", "%s: reserving numbers succeeded on a handle that had been closed", h.path.name)
	}
}

// skip moves the key forward, as DangerousSetSeqNo() may.  The store learns of
// it with the next call that tells it.
//
// If other calls are under way (op.Key is 1) it has to go beyond any number
// they might take before it has its effect.
func (c *client) skip(op *Op, h *handle) {
	w := c.w
	if h.closeInv > 0 || h.id_.gen != nil || h.skipping {
		return
	}
	seq := h.k.SeqNo()
	busy := h.inflight > 0
	for cl := range c.s.inflight {
		busy = busy || cl.h == h
	}
	if h.closeInv > 0 || h.skipping || busy && op.Key != 1 {
		return
	}
	ahead := uint64(0)
	if op.Key == 1 {
		ahead = h.base + h.invoked + 256 - seq
	}
	to := seq + ahead + op.N
	if to < seq {
		to = math.MaxUint64
	}
	arg, max := to, h.id_.ref.Max()
	if to > max {
		to = max // there is nothing beyond
		if op.Len == 0 {
			arg = to
		} else {
			w.counts["sequence number moved beyond the end"]++
		}
	}
	if op.Key == 1 {
		h.skipping = true
		h.model = nil
		h.badSigns++ // nobody knows how many of the numbers are skipped
		w.counts["sequence numbers moved forward while in use"]++
		if n := to - h.base + uint64(h.inflight); h.invoked < n {
			h.invoked = n
		}
	} else {
		h.invoked += to - seq
	}
	h.skipped += to - seq
	h.quietSeq = -1
	h.precomp = false // not until the end of a subtree
	if m := h.model; m != nil {
		m.nextHi = to
	}
	cl := w.begin(c.s, c.name, op, h)
	cl.out = to
	h.k.DangerousSetSeqNo(arg)
	cl.ok = true
	w.end(cl, nil)
	h.skipping = false
	h.quietSeq = -1
	h.precomp = false
	if m := h.model; m != nil {
		m.seq, m.b, m.skipped = to, 0, true
	}
	w.counts["sequence numbers moved forward"]++
}

func (c *client) close(op *Op, h *handle) {
	w := c.w
	cl := w.begin(c.s, c.name, op, h)
	again := h.closed || h.closing > 0
	if h.closeInv == 0 {
		h.closeInv = cl.inv
	}
	h.closing++
	h.closes++
	n := h.closes
	signing := h.inflight > 0
	if m := h.model; m != nil {
		if !m.skipped || m.seq < m.lo {
			m.lo = m.seq
		}
		if m.seq > m.hi {
			m.hi = m.seq
		}
	}
	err := h.k.Close()
	cl.ok = err == nil
	h.closing--
	w.end(cl, err)
	if len(w.viol) > 0 {
		return
	}
	if h.closed || err != nil && (again || n > 1 || h.closes > n) {
		return // closing twice, or again after a failure: any answer will do
	}
	if err != nil {
		if !w.faulted(cl) {
			w.fail("spurious-fail", "%s: close failed without any fault: %s", h.path.name, err.Msg)
			return
		}
		h.closeRet = cl.ret
		// Whatever failed, the key must not stay locked, unless it was the
		// removal of the lock.
		h.released = !w.faultedLock(cl)
		w.endCrash(h)
		return
	}
	h.closed = true
	h.closeRet = cl.ret
	_ = signing
	if ps := h.path; ps.store != nil && !bytes.Equal(h.k.PublicKey(), h.id_.pk) {
		// The store is closed: the public key is the library's own.
		w.fail("wrong-pk", "%s: PublicKey() differs from the key's public key after the key was closed", ps.name)
		return
	}
	if s := w.swallowed(cl); s != "" && w.fail("error-swallowed", "%s: close reported success although a step of it failed: %s", h.path.name, s) {
		return
	}
	w.endClose(h)
}

func (c *client) signPath(op *Op) {
	w := c.w
	ps := w.path(op.Path)
	msg := message(op.Msg, op.Len)
	cl := w.begin(c.s, c.name, op, nil)
	cl.path = ps
	ps.attempts = append(ps.attempts, cl)
	ps.signing++
	los := map[*ident]uint64{} // others may have the key before this returns
	for _, id := range ps.poss {
		if id != nil {
			id.loosen(1)
			los[id] = id.lo
		}
	}
	b, err := c.s.lib.SignPath(pathAlias(op.Path, op.N), msg)
	w.end(cl, err)
	ps.signing--
	if err != nil {
		cl.zombie = w.faultedLock(cl)
		c.openFailed(op, ps, cl, nil, nil, false)
		return
	}
	sig, e := c.s.lib.ParseSig(b)
	if e != nil {
		w.fail("bad-sig", "%s: Sign returned a signature that does not parse: %v", ps.name, e)
		return
	}
	idx := sig.SeqNo()
	var id *ident
	for _, x := range ps.poss {
		if x != nil && x.gen == nil {
			if id != nil {
				return // ambiguous
			}
			id = x
		}
	}
	if id == nil {
		return
	}
	lo := id.lo
	if x, ok := los[id]; ok && x < lo {
		lo = x
	}
	if idx < lo || idx > id.hi {
		w.fail("seq-gap", "%s: Sign used sequence number %d, expected %d to %d", ps.name, idx, lo, id.hi)
		return
	}
	if !w.returned(ps, id, idx, b, msg, fmt.Sprintf("call %d by %s", cl.n, cl.client)) {
		return
	}
	if ps.signing == 0 && w.heldThrough(ps, cl.ret, cl.ret) == nil {
		busy := false
		for _, h := range ps.handles {
			if !h.ended {
				busy = true
			}
		}
		for _, a := range ps.attempts {
			if a.ret == 0 {
				busy = true
			}
		}
		if !busy && int64(idx) == id.maxUsed {
			id.lo, id.hi, id.nextHi = idx+1, idx+1, idx+1
			id.exact, id.lost0 = int64(idx+1), true
		}
	}
}

func (id *ident) loosen(n uint64) {
	id.hi += n
	id.nextHi += n
	id.exact = -1
	id.lost0 = false
}

// signFast signs while tasks of the library run only if nothing else can.
func (c *client) signFast(op *Op, h *handle) {
	w := c.w
	o := *op
	o.K, o.N = "sign", 0
	n, start := h.okSigns, zrt.Step()
	zrt.Stall(true)
	c.sign(&o, h)
	stalled := zrt.Stall(false)
	cost := zrt.Step() - start
	if len(w.viol) > 0 || h.okSigns != n+1 || !h.atHand[h.lastIdx>>(h.id_.ref.P.H/h.id_.ref.P.D)] {
		return
	}
	w.counts["signatures with the subtree at hand"]++
	if h.minCost == 0 || cost < h.minCost {
		h.minCost = cost
	}
	if cost > h.maxCost {
		h.maxCost = cost
	}
	// Making a subtree takes more than ten times as long.
	if h.maxCost > 3*h.minCost+8000 || stalled > 8000 {
		w.fail("sign-stalled", "%s: signing with number %d took %d steps (another signature %d), %d of them in the background, although its subtree was in the cache", h.path.name, h.lastIdx, h.maxCost, h.minCost, stalled)
	}
}

// precomputed checks that the next subtree is there.
func (c *client) precomputed(h *handle, seq uint64) {
	w := c.w
	p := h.id_.ref.P
	th := p.H / p.D
	if h.atHand == nil {
		h.atHand = map[uint64]bool{}
	}
	if h.okSigns > 0 && h.lastIdx>>th == seq>>th {
		h.atHand[seq>>th] = true
	}
	next := seq>>th + 1
	if !h.precomp || next >= uint64(1)<<(p.H-th) || w.sessFaulted(h.s) {
		return
	}
	need := map[[2]uint64]bool{}
	addPath(p, need, next)
	if h.atHand[seq>>th] {
		need[[2]uint64{0, seq >> th}] = true
	}
	w.counts["precomputed subtree checks"]++
	if n := h.k.Cached(); n < len(need) {
		w.fail("precompute-missing", "%s: %d subtrees cached at rest at sequence number %d; the next subtree with those above it makes %d", h.path.name, n, seq, len(need))
		return
	}
	if st := h.path.store; st != nil {
		for a := range need {
			if st.trees[a] == nil {
				w.fail("precompute-missing", "%s: subtree %v is not in the store at rest at sequence number %d, although precomputation is enabled", h.path.name, a, seq)
				return
			}
		}
	}
	h.atHand[next] = true
}

func addPath(p simapi.Params, m map[[2]uint64]bool, t uint64) {
	th := p.H / p.D
	for l := uint32(0); l < p.D; l++ {
		n := uint64(1) << (p.H - th*(l+1))
		if t < n {
			m[[2]uint64{uint64(l), t}] = true
		}
		t >>= th
	}
}

// settled checks what must hold when nothing is in progress in the process.
func (c *client) settled(op *Op) {
	w := c.w
	h := c.handle(op)
	if h == nil || h.closeInv > 0 {
		return
	}
	if v := h.k.Unretired(); v != 0 {
		w.fail("unretired", "%s: UnretiredSeqNos() = %d with no signing call in progress", h.path.name, v)
		return
	}
	seq := h.k.SeqNo()
	h.quietSeq = int64(seq)
	if h.badSigns == 0 && seq != h.base+h.okSigns+h.skipped {
		w.fail("counter", "%s: SeqNo() = %d at rest, after opening at %d and %d signatures", h.path.name, seq, h.base, h.okSigns)
		return
	}
	c.precomputed(h, seq)
	if op.How != "bound" || h.skipped > 0 {
		return // what is skipped may stay cached
	}
	allowed := allowedTrees(h.id_.ref.P, seq)
	if n := h.k.Cached(); n > len(allowed) {
		w.fail("cache-unbounded", "%s: %d subtrees cached at rest at sequence number %d; the current and next path have %d", h.path.name, n, seq, len(allowed))
		return
	}
	w.counts["cache bound checks"]++
	if st := h.path.store; st != nil {
		for a := range st.trees {
			if !allowed[a] {
				w.fail("cache-unbounded", "%s: subtree %v kept in the store at rest at sequence number %d", h.path.name, a, seq)
				return
			}
		}
	}
	if op.N > 0 && h.path.store == nil {
		// one signer at a time: no more slots than were ever needed at once
		if b, ok := zos.Peek(h.path.name + ".cache"); ok {
			sz := c.s.lib.CachedSubTreeSize(h.id_.ref.P)
			al := c.s.proc.PageSize
			slot := (sz + 13 + al - 1) / al * al
			if max := int(op.N); len(b) > (max+1)*slot+al {
				w.fail("cache-unbounded", "%s: the cache file has %d bytes, room for more than %d subtrees", h.path.name, len(b), max+1)
			}
		}
	}
}

// allowedTrees are the subtrees on the path of seq and of the next subtree.
func allowedTrees(p simapi.Params, seq uint64) map[[2]uint64]bool {
	m := map[[2]uint64]bool{}
	th := p.H / p.D
	add := func(t uint64) { addPath(p, m, t) }
	if seq>>p.H != 0 {
		add((seq - 1) >> th)
	}
	add(seq >> th)
	if t := seq>>th + 1; t < uint64(1)<<(p.H-th) {
		add(t)
	}
	return m
}

// final checks after everything ended.
func (w *World) final() {}

var _ = ref.ParamBytes
