package h

import (
	"bytes"
	"fmt"
	"runtime"
	"strings"
	"syscall"

	"github.com/bwesterb/go-xmssmt/zsim/ref"
	"github.com/bwesterb/go-xmssmt/zsim/simapi"
	"github.com/bwesterb/go-xmssmt/zsim/zos"
	"github.com/bwesterb/go-xmssmt/zsim/zrt"
)

// Libs are the copies of the library, one per concurrently running process.
var Libs []simapi.Lib

// ident is one key pair, and what is known of its use.
type ident struct {
	ref     *ref.Key
	pk      []byte
	used    map[uint64]string
	maxUsed int64
	lo, hi  uint64 // where the next load may find the sequence number
	exact   int64  // where it must find it, or -1
	lost0   bool   // the next load must report no lost signatures
	nextHi  uint64 // no number at or above this was ever handed out
	gen     *call  // generation still unresolved: seeds are among the entropy this call consumed
	genP    simapi.Params
}

type pathState struct {
	name     string
	store    *memStore
	poss     []*ident // what may be there; nil: nothing usable
	handles  []*handle
	attempts []*call // opens that failed or are under way
	lastEnd  int64   // when a handle last ceased to be
	signing  int     // Sign(path, ...) calls under way
	snap     []byte  // copy of the cache
	snapOK   bool
	ctr      map[[2]uint64]uint64 // container model
	ctrSnap  map[[2]uint64]uint64
	ctrOK    bool
	cm       *ctrModel
	genBytes []byte
	// What was loaded came from a rename that no directory sync has followed
	// yet: a power loss may bring back what was there before.
	volOn bool
	vol   []*ident
	volHi uint64
}

// call is one call of the library.
type call struct {
	n      int
	op     *Op
	s      *session
	client string
	h      *handle
	inv    int64
	ret    int64
	win    int64
	err    *simapi.Error
	out    uint64
	ok     bool
	zombie bool
	path   *pathState
	ent0   int
}

type handle struct {
	id       int
	path     *pathState
	id_      *ident
	k        simapi.Key
	s        *session
	openInv  int64
	openRet  int64
	closeInv int64
	closeRet int64
	closed   bool
	closing  int  // calls under way
	closes   int  // calls made
	released bool // closing failed, but not because of the lock
	ended    bool
	base     uint64
	invoked  uint64
	okSigns  uint64
	badSigns uint64
	skipped  uint64
	skipping bool
	inflight int
	rsum     uint64 // sum of all reservations asked for
	rmax     uint64
	quietSeq int64 // sequence number read while nothing else was under way
	model    *posModel
	calls    []*call
	maxCl    int
	precomp  bool
	threads  int
	lastIdx  uint64
	atHand   map[uint64]bool // bottom subtrees known to be cached
	minCost  int64
	maxCost  int64
}

// posModel follows a handle that is used by one client at a time without I/O
// errors: the exact sequence number and number of reserved ones.
type posModel struct {
	seq, b  uint64
	lo, hi  uint64 // container sequence numbers possible at this instant
	nextHi  uint64
	skipped bool // and the store does not know
}

type fired struct {
	clk  int64
	s    *session
	kind string
	path string
	err  syscall.Errno
	task *zrt.Task
}

type session struct {
	p        *Session
	n        int
	proc     *zrt.Proc
	lib      simapi.Lib
	armed    bool
	fcount   []int
	crashN   int64
	crashed  bool
	inflight map[*call]bool
	dead     int64
	ioOps    int
	main     *zrt.Task
	opsDone  int64
	pid      int
	shared   map[string]func(sig, msg []byte) (bool, error)
	sharedD  map[string]func() string
}

// World is the state of one execution.
type World struct {
	p        *Plan
	clk      int64
	ncall    int
	paths    map[int]*pathState
	hs       map[int]*handle
	sess     []*session
	byProc   map[*zrt.Proc]*session
	fired    []fired
	viol     []Violation
	counts   map[string]int
	faults   map[string]int
	power    bool
	powerS   uint64
	sigs     []sigRec
	calls    []*call
	entSegs  []entSeg
	others   []string
	k1       bool           // known finding K1 struck in this run
	usedEnt  map[int]string // by offset in the entropy stream
	logLines int
	harness  string
	rng      *zrt.RNG
	stage    int
	quietF   bool // faults switched off
	dirty    bool // a rename has not been followed by a directory sync
	pidsDead map[int]bool
}

type sigRec struct {
	id  *ident
	idx uint64
	msg []byte
	b   []byte
}

type entSeg struct {
	s    *session
	t    *zrt.Task
	off  int
	n    int
	clk  int64
	fail bool
}

// synced: the directory's entries are durable.
func (w *World) synced() {
	w.dirty = false
	for _, ps := range w.paths {
		ps.volOn, ps.vol = false, nil
	}
}

// unacknowledged: nothing has vouched yet for the durability of what is
// being loaded.
func (ps *pathState) unacknowledged(id *ident) {
	for _, x := range ps.poss {
		if x != id {
			ps.vol = append(ps.vol, x)
		}
	}
	if id.hi > ps.volHi || !ps.volOn {
		ps.volHi = id.hi
	}
	ps.volOn = true
}

// reverted: a power loss may have undone unacknowledged changes.
func (ps *pathState) reverted() {
	if !ps.volOn {
		return
	}
	ps.poss = append(ps.poss, ps.vol...)
	for _, id := range ps.poss {
		if id == nil {
			continue
		}
		if id.hi < ps.volHi {
			id.hi = ps.volHi
		}
		id.lo, id.exact, id.lost0, id.nextHi = uint64(id.maxUsed+1), -1, false, id.hi
	}
	ps.volOn, ps.vol = false, nil
}

func (w *World) tick() int64 { w.clk++; return w.clk }

// fail records a violation and ends the run.
func (w *World) fail(class, format string, a ...interface{}) bool {
	d := fmt.Sprintf(format, a...)
	return w.failKnown(class, "", d)
}

// failKnown reports whether the run is over.  Violations of other properties
// than the one being checked are counted, and the run goes on.
func (w *World) failKnown(class, known, d string) bool {
	if len(w.viol) > 0 {
		return true
	}
	if known == "" {
		known = w.knownTag()
	}
	if !Accepts(w.p.Prop, class) {
		w.counts["other property: "+class]++
		w.others = append(w.others, class+": "+d)
		zrt.Ev("other", 0, 0, class+": "+d)
		switch class {
		case "wrong-pk", "double-open", "entropy-key", "entropy-reuse", "entropy-fresh":
			// Who has which key is not known any more.
			zrt.Stop("other", class)
			return true
		}
		return false
	}
	w.viol = append(w.viol, Violation{Class: class, Detail: d, Step: zrt.Step(), Known: known})
	zrt.Ev("VIOLATION", 0, 0, class+": "+d)
	zrt.Stop("violation", class)
	return true
}

func (w *World) knownTag() string {
	if w.k1 {
		return "K1"
	}
	return ""
}

func pathName(n int) string { return fmt.Sprintf("%s/k%d", zos.Dir, n) }

// aliases of a path, all meaning the same file
func pathAlias(n int, how uint64) string {
	switch how % 8 {
	case 1:
		return fmt.Sprintf("k%d", n)
	case 2:
		return fmt.Sprintf("%s/../sim/./k%d", zos.Dir, n)
	case 4: // through a link to the directory
		return fmt.Sprintf("/lnk/k%d", n)
	case 5: // through a link to the file
		if _, ok := zos.Peek(pathName(n)); ok {
			return fmt.Sprintf("/other/l%d", n)
		}
	}
	return pathName(n)
}

func (w *World) path(n int) *pathState {
	ps := w.paths[n]
	if ps == nil {
		ps = &pathState{name: pathName(n), poss: []*ident{nil}}
		if n >= 100 {
			ps.name = fmt.Sprintf("store%d", n)
			ps.store = newStore(w, n)
		}
		w.paths[n] = ps
	}
	return ps
}

// ---- key pool

type poolKey struct {
	p simapi.Params
	i int
}

var pool = map[poolKey]*ref.Key{}
var poolOrder []poolKey

func seeds(p simapi.Params, i int) (pub, sk, prf []byte) {
	if i%20 == 19 || i == 23 {
		// the same for all parameters
		p = simapi.Params{N: p.N}
	}
	r := zrt.NewRNG(zrt.Mix(uint64(i)*0x9e37 + uint64(p.N)<<32 + uint64(p.H)<<20 + uint64(p.D)<<10 + uint64(p.W)<<44 + uint64(p.Func)<<60 + uint64(p.Prf)<<58))
	mk := func() []byte {
		b := make([]byte, p.N)
		for j := range b {
			b[j] = byte(r.Uint64() >> 17)
		}
		return b
	}
	pub, sk, prf = mk(), mk(), mk()
	if i%20 == 18 {
		// shares its public seed with another key
		pub, _, _ = seeds(p, i-1)
	}
	return
}

func refKey(p simapi.Params, i int) *ref.Key {
	pk := poolKey{p, i}
	k := pool[pk]
	if k == nil {
		a, b, c := seeds(p, i)
		k = ref.New(p, a, b, c)
		pool[pk] = k
		poolOrder = append(poolOrder, pk)
		if len(poolOrder) > 3000 {
			for _, o := range poolOrder[:1500] {
				delete(pool, o)
			}
			poolOrder = append([]poolKey(nil), poolOrder[1500:]...)
		}
	}
	return k
}

func newIdent(k *ref.Key) *ident {
	return &ident{ref: k, pk: k.PK(), used: map[uint64]string{}, maxUsed: -1, exact: -1}
}

func message(id, n int) []byte {
	b := make([]byte, n)
	r := zrt.NewRNG(zrt.Mix(uint64(id) ^ 0x6d7367))
	for i := range b {
		b[i] = byte(r.Uint64() >> 11)
	}
	if n >= 4 {
		b[0], b[1], b[2] = byte(id>>16), byte(id>>8), byte(id)
	}
	return b
}

// ---- calls

func (w *World) begin(s *session, client string, op *Op, h *handle) *call {
	w.ncall++
	c := &call{n: w.ncall, op: op, s: s, client: client, h: h, inv: w.tick()}
	c.win = c.inv
	for o := range s.inflight {
		if o.inv < c.win {
			c.win = o.inv
		}
	}
	s.inflight[c] = true
	w.calls = append(w.calls, c)
	if h != nil {
		h.calls = append(h.calls, c)
		n := 0
		for _, o := range h.calls {
			if o.ret == 0 {
				n++
			}
		}
		if n > h.maxCl {
			h.maxCl = n
		}
	}
	zrt.Ev("call", int64(c.n), int64(op.H), client+" "+op.K+" "+op.How)
	return c
}

func (w *World) end(c *call, err *simapi.Error) {
	c.ret = w.tick()
	c.err = err
	delete(c.s.inflight, c)
	c.s.opsDone++
	w.counts["calls"]++
	if err != nil {
		w.counts["calls failed"]++
	}
	if zrt.Tracing() {
		m := "ok"
		if err != nil {
			m = "error: " + err.Msg
		}
		zrt.Ev("return", int64(c.n), int64(c.op.H), c.client+" "+c.op.K+" "+m)
	} else {
		e := int64(0)
		m := "ok"
		if err != nil {
			e = 1
			m = "error: " + err.Msg
		}
		_ = e
		zrt.Ev("return", int64(c.n), int64(c.op.H), c.client+" "+c.op.K+" "+m)
	}
}

// faulted: an injected error may explain that the call failed.
func (w *World) faulted(c *call) bool {
	for i := len(w.fired) - 1; i >= 0; i-- {
		f := w.fired[i]
		if f.clk < c.win {
			return false
		}
		if f.s == c.s && (c.ret == 0 || f.clk <= c.ret) && w.concerns(&f, c) {
			return true
		}
	}
	return false
}

// concerns: the fault hit something of the key that the call is about.  Only
// where the faults are confined to some of the keys is this looked at.
func (w *World) concerns(f *fired, c *call) bool {
	if w.p.Prop != "C26" {
		return true
	}
	ps := c.path
	if c.h != nil {
		ps = c.h.path
	}
	return ps == nil || f.path == ps.name || strings.HasPrefix(f.path, ps.name+".")
}

// swallowed finds a bookkeeping step that failed on the calling task during a
// call that nevertheless reported success.
func (w *World) swallowed(c *call) string {
	for i := len(w.fired) - 1; i >= 0; i-- {
		f := w.fired[i]
		if f.clk < c.inv {
			break
		}
		if f.task != zrt.Cur() || f.clk > c.ret {
			continue
		}
		if strings.HasPrefix(f.kind, "store.") {
			switch f.kind {
			case "store.SetSeqNo", "store.BorrowSeqNos", "store.GetSubTree":
				return f.kind + " of " + f.path
			case "store.Close":
				if c.op.K == "close" {
					return f.kind + " of " + f.path
				}
			}
			continue
		}
		if strings.Contains(f.path, ".lock") || strings.Contains(f.path, ".cache") {
			continue
		}
		switch f.kind {
		case "create", "open", "write", "sync", "rename", "dirsync", "close", "truncate":
			return f.kind + " of " + f.path + " (" + f.err.Error() + ")"
		}
	}
	return ""
}

// swallowedOpen finds a call of the caller's store that failed while a key was
// opened successfully.
func (w *World) swallowedOpen(c *call) string {
	for i := len(w.fired) - 1; i >= 0; i-- {
		f := w.fired[i]
		if f.clk < c.inv {
			break
		}
		if f.task != zrt.Cur() || f.clk > c.ret {
			continue
		}
		switch f.kind {
		case "store.GetSubTree":
			// Failing to prepare for the first signatures of a new key is no
			// reason to refuse it.
			if c.op.How == "memderive" {
				continue
			}
			fallthrough
		case "store.Reset", "store.ResetCache", "store.ListSubTrees", "store.GetPrivateKey", "store.GetSeqNo":
			return f.kind + " of " + f.path
		}
	}
	return ""
}

func (w *World) faultedLock(c *call) bool {
	for i := len(w.fired) - 1; i >= 0; i-- {
		f := w.fired[i]
		if f.clk < c.win {
			return false
		}
		if f.s == c.s && strings.Contains(f.path, ".lock") {
			return true
		}
	}
	return false
}

func (w *World) sessFaulted(s *session) bool {
	for _, f := range w.fired {
		if f.s == s {
			return true
		}
	}
	return false
}

func (w *World) addFired(s *session, kind, path string, e syscall.Errno) {
	w.fired = append(w.fired, fired{w.tick(), s, kind, path, e, zrt.Cur()})
}

// ---- identities

// resolve finds out which key an unresolved generation made.
func (w *World) resolve(id *ident, pk []byte, path string) bool {
	if id.gen == nil {
		return bytes.Equal(id.pk, pk)
	}
	p := id.genP
	n := int(p.N)
	if len(pk) != 4+2*n || !bytes.Equal(pk[:4], ref.ParamBytes(p)) {
		return false
	}
	try := func(pub, sk, prf []byte) bool {
		k := ref.New(p, pub, sk, prf)
		if bytes.Equal(k.PK(), pk) {
			id.ref, id.pk, id.gen = k, pk, nil
			return true
		}
		return false
	}
	pub := append([]byte(nil), pk[4+n:]...)
	var streams [][]byte
	mine := false
	for _, s := range w.entropyOf(id.gen) {
		e := make([]byte, len(s))
		for i, o := range s {
			e[i] = zos.F.Entropy[o]
		}
		streams = append(streams, e)
		mine = mine || bytes.Contains(e, pub)
	}
	others := false
	for _, x := range w.path(id.gen.op.Path).poss {
		others = others || x != id && x != nil
	}
	if !mine && others {
		return false // made by another call
	}
	if b, ok := zos.Peek(path); ok && len(b) >= 3*n {
		t := append([]byte(nil), b[len(b)-3*n:]...)
		if bytes.Equal(t[2*n:], pub) && try(pub, t[:n], t[n:2*n]) {
			return true
		}
	}
	for _, e := range streams {
		for a := 0; a+n <= len(e); a += n {
			for b := 0; b+n <= len(e); b += n {
				if a != b && !bytes.Equal(e[b:b+n], pub) && try(pub, e[a:a+n], e[b:b+n]) {
					return true
				}
			}
		}
	}
	return false
}

// entropyOf is where in the entropy stream the bytes lie that the tasks of the
// session consumed during a call: for each task, and for all of them together
// if there are several.
func (w *World) entropyOf(c *call) [][]int {
	var all []int
	var ts []*zrt.Task
	by := map[*zrt.Task][]int{}
	for _, g := range w.entSegs {
		if g.s == c.s && g.clk >= c.inv && (c.ret == 0 || g.clk <= c.ret) {
			if by[g.t] == nil {
				ts = append(ts, g.t)
			}
			for o := g.off; o < g.off+g.n; o++ {
				by[g.t] = append(by[g.t], o)
				all = append(all, o)
			}
		}
	}
	var out [][]int
	for _, t := range ts {
		out = append(out, by[t])
	}
	if len(out) > 1 {
		out = append(out, all)
	}
	return out
}

// superseded: the path was opened anew, so whatever handles were there are
// not holding it any more.
func (w *World) supersede(ps *pathState, except *handle) {
	for _, h := range ps.handles {
		if h != except && !h.ended {
			w.endCrash(h)
		}
	}
}

// endClose records that a handle was closed properly.
func (w *World) endClose(h *handle) {
	if h.ended {
		return
	}
	h.ended = true
	h.path.lastEnd = w.clk
	id := h.id_
	lo := h.base + h.okSigns
	if uint64(id.maxUsed+1) > lo {
		lo = uint64(id.maxUsed + 1)
	}
	id.lo, id.hi, id.exact = lo, h.base+h.invoked, -1
	id.lost0 = true
	if h.inflight == 0 {
		if h.badSigns == 0 {
			id.exact = int64(h.base + h.invoked)
		} else if h.quietSeq >= 0 {
			id.exact = h.quietSeq
		}
	}
	id.nextHi = id.hi
}

// endCrash records that a handle is gone without having been closed.
func (w *World) endCrash(h *handle) {
	if h.ended {
		return
	}
	h.ended = true
	h.path.lastEnd = w.clk
	id := h.id_
	id.lo = h.base
	if id.maxUsed >= 0 && uint64(id.maxUsed+1) > id.lo {
		id.lo = uint64(id.maxUsed + 1)
	}
	id.nextHi = h.base + h.invoked
	r := h.rmax
	if w.sessFaulted(h.s) {
		r = h.rsum
	}
	id.hi = h.base + h.invoked + r
	id.exact = -1
	id.lost0 = false
	if m := h.model; m != nil && h.maxCl <= 1 && !w.sessFaulted(h.s) {
		if m.lo > id.lo {
			id.lo = m.lo
		}
		if m.hi < id.hi {
			id.hi = m.hi
		}
		if m.nextHi < id.nextHi {
			id.nextHi = m.nextHi
		}
		w.counts["exact position checks"]++
	}
}

// loaded judges what an open reports.
func (w *World) loaded(ps *pathState, id *ident, seq uint64, lost uint64, c *call) {
	hi, nextHi, exact, lost0 := id.hi, id.nextHi, id.exact, id.lost0
	for _, a := range ps.attempts {
		if a.op.K != "signpath" || a.ret > 0 && (a.ret < ps.lastEnd || a.err != nil && a.err.Locked) {
			continue
		}
		// Sign(path, ...) loads the key, and keeps the number of lost
		// signatures to itself.
		if a.inv < ps.lastEnd {
			hi++
		}
		nextHi = hi
		if a.inv < ps.lastEnd || a.ret == 0 {
			exact = -1
			lost0 = false
		}
	}
	if id.maxUsed >= 0 && seq <= uint64(id.maxUsed) {
		w.fail("regress", "%s: opened at sequence number %d although %d was already used for a returned signature", ps.name, seq, id.maxUsed)
		return
	}
	if seq < id.lo {
		w.fail("seq-gap", "%s: opened at sequence number %d, below %d", ps.name, seq, id.lo)
		return
	}
	if exact >= 0 && seq != uint64(exact) {
		w.fail("seq-gap", "%s: opened at sequence number %d, but the key was closed at %d", ps.name, seq, exact)
		return
	}
	if seq > hi {
		w.fail("seq-gap", "%s: opened at sequence number %d, beyond %d, the highest number in use or reserved before", ps.name, seq, hi)
		return
	}
	if lost0 && lost != 0 {
		w.fail("lost-wrong", "%s: %d lost signatures reported after a successful close", ps.name, lost)
		return
	}
	if seq > nextHi && lost < seq-nextHi {
		w.fail("lost-under", "%s: opened at %d with %d lost signatures reported, but at most %d were handed out, so at least %d reserved ones were skipped", ps.name, seq, lost, nextHi, seq-nextHi)
		return
	}
}

// returned judges a signature returned by a signing call.
func (w *World) returned(ps *pathState, id *ident, idx uint64, b []byte, msg []byte, what string) bool {
	w.counts["signatures"]++
	if p, dup := id.used[idx]; dup {
		w.fail("reuse", "%s: sequence number %d used for two signatures: %s and %s", ps.name, idx, p, what)
		return false
	}
	id.used[idx] = what
	if int64(idx) > id.maxUsed {
		id.maxUsed = int64(idx)
	}
	if idx > id.ref.Max() {
		w.fail("exhausted-range", "%s: returned signature with sequence number %d, beyond the key's last, %d", ps.name, idx, id.ref.Max())
		return false
	}
	want := id.ref.Sign(idx, msg)
	if !bytes.Equal(want, b) {
		k := 0
		for k < len(b) && k < len(want) && b[k] == want[k] {
			k++
		}
		w.fail("bad-sig", "%s: signature with sequence number %d (%s) differs from the reference at byte %d (lengths %d and %d)", ps.name, idx, what, k, len(b), len(want))
		return false
	}
	if len(w.sigs) < 64 {
		w.sigs = append(w.sigs, sigRec{id, idx, msg, append([]byte(nil), b...)})
	}
	return true
}

// ---- who may hold a key

// heldThrough: another handle surely had the path open from a to b.
func (w *World) heldThrough(ps *pathState, a, b int64) *handle {
	for _, h := range ps.handles {
		if h.openRet > 0 && h.openRet <= a && (h.closeInv == 0 || h.closeInv > b) && (h.s.dead == 0 || h.s.dead > b) {
			return h
		}
	}
	return nil
}

// maybeHeld: another handle or attempt may have held the path at some moment
// from a to b.
func (w *World) maybeHeld(ps *pathState, a, b int64, self *call) bool {
	for _, h := range ps.handles {
		if h.openInv > b {
			continue
		}
		end := h.closeRet
		if !h.closed && !h.released {
			end = 0
		}
		if h.s.dead > 0 && (end == 0 || h.s.dead < end) {
			end = h.s.dead
		}
		if end == 0 || end >= a {
			return true
		}
	}
	for _, c := range ps.attempts {
		if c == self || c.inv > b {
			continue
		}
		end := c.ret
		if c.zombie {
			end = 0
		}
		if c.s.dead > 0 && (end == 0 || c.s.dead < end) {
			end = c.s.dead
		}
		if end == 0 || end >= a {
			return true
		}
	}
	return false
}

// lockOwner is the number in a lock file, if it is that of a live process.
func lockOwner(b []byte) int {
	var pid int
	if _, err := fmt.Sscanln(string(b), &pid); err != nil || pid <= 0 || !zrt.Alive(pid) {
		return 0
	}
	return pid
}

// unlinkLock recognises known finding K1: the lockfile package itself, having
// found a lock file stale, removes the one a live process has put in its place.
func (w *World) unlinkLock(path string, b []byte) {
	if !strings.HasSuffix(path, ".lock") {
		return
	}
	if pid := lockOwner(b); pid == 0 || pid == zrt.CurProc().Pid {
		return
	}
	var pcs [16]uintptr
	fr := runtime.CallersFrames(pcs[:runtime.Callers(3, pcs[:])])
	for {
		f, more := fr.Next()
		if !strings.Contains(f.Function, "/zos.") {
			if !strings.HasSuffix(f.Function, "lockfile.Lockfile.TryLock") {
				return
			}
			break
		}
		if !more {
			return
		}
	}
	w.counts["known K1: live lock removed by the lockfile package"]++
	zrt.Ev("K1", 0, 0, path)
	w.k1 = true
	if w.p.Prop != "C08" {
		// What follows is another process using the same key: the subject
		// of C08 only.
		zrt.Stop("known", "K1")
	}
}

// pidReused: the lock file names a live process that never had the key open.
func (w *World) pidReused(ps *pathState) bool {
	if ps.store != nil {
		return false
	}
	b, ok := zos.Peek(ps.name + ".lock")
	if !ok {
		return false
	}
	var pid int
	fmt.Sscanf(string(b), "%d", &pid)
	return w.pidsDead[pid] && zrt.Alive(pid)
}
