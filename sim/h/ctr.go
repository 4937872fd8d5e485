package h

import (
	"bytes"
	"fmt"
	"math"
	"strings"

	"github.com/bwesterb/go-xmssmt/zsim/simapi"
	"github.com/bwesterb/go-xmssmt/zsim/zos"
	"github.com/bwesterb/go-xmssmt/zsim/zrt"
)

// The built-in file store, used directly, against a model of its documented
// interface, with I/O errors and crashes.

// ctrKey is what a key file can say.
type ctrKey struct {
	init bool
	p    simapi.Params
	sk   uint64 // which private key
	seq  uint64
	lost uint32
}

// ctrModel is what is known of a store between and during sessions.
type ctrModel struct {
	vis []ctrKey // what a process may find, as long as the machine stays up
	dur []ctrKey // what may be on stable storage
	// cache
	known bool // otherwise anything may be there, or nothing
	inits bool // the cache is initialised (if known)
	trees map[[2]uint64]uint64
	vague map[[2]uint64]bool // perhaps there, perhaps not; contents unknown
	all   bool               // every subtree may have gone missing
	peak  int                // most subtrees at once since the cache was reset
	fault bool
}

func (k ctrKey) String() string {
	if !k.init {
		return "uninitialised"
	}
	return fmt.Sprintf("key %d of height %d at %d (%d lost)", k.sk%1000, k.p.H, k.seq, k.lost)
}

func ctrKeys(l []ctrKey) string {
	var s []string
	for _, k := range l {
		s = append(s, k.String())
	}
	return strings.Join(s, " or ")
}

func addKey(l []ctrKey, k ctrKey) []ctrKey {
	for _, o := range l {
		if o == k {
			return l
		}
	}
	return append(append([]ctrKey(nil), l...), k)
}

func (m *ctrModel) attempt(k ctrKey) { m.vis, m.dur = addKey(m.vis, k), addKey(m.dur, k) }
func (m *ctrModel) done(k ctrKey)    { m.vis, m.dur = []ctrKey{k}, []ctrKey{k} }

func (m *ctrModel) reverted() {
	m.vis = m.dur
	m.known = false
}

func (m *ctrModel) emptyCache(inits bool) {
	m.known, m.inits, m.all, m.peak = true, inits, false, 0
	m.trees, m.vague = map[[2]uint64]uint64{}, map[[2]uint64]bool{}
}

type ctrRun struct {
	c    *client
	w    *World
	ps   *pathState
	m    *ctrModel
	op   *Op
	st   simapi.Store
	cur  ctrKey
	live map[[2]uint64][]byte
	sz   int
	over bool
}

func (x *ctrRun) bad(class, f string, a ...interface{}) {
	x.over = true
	x.w.fail(class, "%s (file store, page size %d): %s", x.ps.name, x.c.s.proc.PageSize, fmt.Sprintf(f, a...))
}

// call runs one call of the store.  It reports the call's error, and whether
// an injected fault fired while it ran.
func (x *ctrRun) call(name string, f func() error) (error, bool) {
	w := x.w
	op := &Op{K: "store." + name}
	cl := w.begin(x.c.s, x.c.name, op, nil)
	n := len(w.fired)
	err := f()
	var e *simapi.Error
	if err != nil {
		e = &simapi.Error{Msg: err.Error()}
	}
	w.end(cl, e)
	w.counts["store calls checked"]++
	hit := len(w.fired) > n
	if hit {
		x.m.fault = true
	}
	if err != nil && !hit {
		x.bad("store-contract", "%s fails without cause: %v", name, err)
	}
	if err == nil && (name == "BorrowSeqNos" || name == "SetSeqNo" || name == "Reset") {
		if s := w.swallowed(cl); s != "" {
			x.bad("error-swallowed", "%s reports success although the %s failed", name, s)
		}
	}
	return err, hit
}

func (x *ctrRun) sk(seed uint64, p simapi.Params) []byte { return pattern(seed, 3*int(p.N)) }

// readKey compares what the store says with what it may say.
func (x *ctrRun) readKey(may []ctrKey, when string) {
	if x.over {
		return
	}
	var fit []ctrKey
	q := x.st.Initialized()
	seq, lost, e := x.st.GetSeqNo()
	sk, e2 := x.st.GetPrivateKey()
	if (q == nil) != (e != nil) || (q == nil) != (e2 != nil) {
		x.bad("store-contract", "%s: initialised: %v, but reading the sequence number: %v, the private key: %v", when, q != nil, e, e2)
		return
	}
	for _, k := range may {
		if !k.init && q == nil || k.init && q != nil && *q == k.p && seq == k.seq && lost == k.lost && bytes.Equal(sk, x.sk(k.sk, k.p)) {
			fit = append(fit, k)
		}
	}
	if len(fit) == 0 {
		got := "uninitialised"
		if q != nil {
			got = fmt.Sprintf("height %d at %d (%d lost)", q.H, seq, lost)
			known := false
			for _, k := range may {
				known = known || bytes.Equal(sk, x.sk(k.sk, k.p))
			}
			if !known {
				got += " with another private key"
			}
		}
		x.bad("store-numbers", "%s the store says: %s; it should be: %s", when, got, ctrKeys(may))
		return
	}
	x.cur = fit[0]
}

func (x *ctrRun) checkLive() {
	if x.over {
		return
	}
	for _, a := range sortedKeys(x.m.trees) {
		if b := x.live[a]; b != nil && !bytes.Equal(b[:x.sz], pattern(x.m.trees[a], x.sz)) {
			x.bad("store-contract", "the contents of subtree %v were overwritten", a)
			return
		}
	}
}

// cacheOpened compares the cache with the model after opening.
func (x *ctrRun) cacheOpened() {
	if x.over || !x.cur.init {
		return
	}
	m := x.m
	x.sz = x.c.s.lib.CachedSubTreeSize(x.cur.p)
	x.live = map[[2]uint64][]byte{}
	if !x.st.CacheInitialized() {
		if m.known && m.inits && !m.all {
			x.bad("store-contract", "the cache is not initialised on reopening, although it was and nothing happened to it")
			return
		}
		m.emptyCache(false)
		return
	}
	if m.known && !m.inits {
		m.known = false
	}
	l, e := x.st.ListSubTrees()
	if e != nil {
		x.bad("store-contract", "ListSubTrees fails right after opening: %v", e)
		return
	}
	seen := map[[2]uint64]bool{}
	for _, a := range l {
		if seen[a] {
			x.bad("store-contract", "ListSubTrees reports %v twice", a)
			return
		}
		seen[a] = true
		if !x.st.HasSubTree(uint32(a[0]), a[1]) {
			x.bad("store-contract", "HasSubTree denies %v, which ListSubTrees reports", a)
			return
		}
		if _, ok := m.trees[a]; m.known && !ok && !m.vague[a] {
			x.bad("store-contract", "subtree %v is there after reopening, but was dropped or never made", a)
			return
		}
	}
	if m.known && !m.all {
		for _, a := range sortedKeys(m.trees) {
			if !seen[a] && !m.vague[a] {
				x.bad("store-contract", "subtree %v is gone after reopening", a)
				return
			}
		}
	}
	old := m.trees
	wasKnown, wasVague := m.known, m.vague
	peak := m.peak
	if !m.known {
		peak = len(l) + 64
	}
	m.trees, m.vague = map[[2]uint64]uint64{}, map[[2]uint64]bool{}
	m.known, m.inits, m.all, m.peak = true, true, false, peak
	l = append([][2]uint64(nil), l...)
	for i := range l {
		for j := i + 1; j < len(l); j++ {
			if l[j][0] < l[i][0] || l[j][0] == l[i][0] && l[j][1] < l[i][1] {
				l[i], l[j] = l[j], l[i]
			}
		}
	}
	for _, a := range l {
		v, ok := old[a]
		if wasKnown && ok && !wasVague[a] {
			m.trees[a] = v
		} else {
			m.trees[a] = 0
			m.vague[a] = true
		}
	}
	for _, a := range l {
		x.get(a)
		if x.over {
			return
		}
	}
}

func (x *ctrRun) resetCacheModel(err error, hit bool) {
	m := x.m
	x.live = map[[2]uint64][]byte{}
	if err == nil {
		m.emptyCache(true)
		if !x.st.CacheInitialized() {
			x.bad("store-contract", "the cache is not initialised after it was reset")
		}
		return
	}
	if x.st.CacheInitialized() {
		// still usable: what is in it is its own affair
		m.known, m.inits = false, true
		x.cacheOpened()
		return
	}
	m.emptyCache(false)
	m.known = false
}

// get fetches a subtree and fills it.
func (x *ctrRun) get(a [2]uint64) {
	m := x.m
	v, want := m.trees[a]
	vague := m.vague[a]
	if !want {
		// the call may die in the middle
		m.trees[a], m.vague[a] = 0, true
	}
	var b []byte
	var ex bool
	err, hit := x.call("GetSubTree", func() error {
		var e error
		b, ex, e = x.st.GetSubTree(uint32(a[0]), a[1])
		return e
	})
	if x.over {
		return
	}
	if hit {
		m.all = true // the header of the cache file may be torn
	}
	if err != nil {
		if want {
			return // still there
		}
		delete(m.trees, a)
		m.vague[a] = true
		if x.st.HasSubTree(uint32(a[0]), a[1]) {
			m.trees[a] = 0
		}
		return
	}
	if ex != want && !vague {
		x.bad("store-contract", "GetSubTree(%v) says it exists: %v; it should be %v", a, ex, want)
		return
	}
	if len(b) < x.sz {
		x.bad("store-contract", "GetSubTree(%v) returns %d bytes, a subtree needs %d", a, len(b), x.sz)
		return
	}
	if ex && !vague && !bytes.Equal(b[:x.sz], pattern(v, x.sz)) {
		x.bad("store-contract", "the contents of subtree %v are not what was stored", a)
		return
	}
	x.live[a] = b
	x.fill(a)
}

func (x *ctrRun) fill(a [2]uint64) {
	m := x.m
	b := x.live[a]
	if b == nil {
		return
	}
	m.vague[a] = true
	v := x.w.rng.Uint64() | 1
	copy(b[:x.sz], pattern(v, x.sz))
	m.trees[a] = v
	delete(m.vague, a)
	if len(m.trees) > m.peak {
		m.peak = len(m.trees)
	}
}

func (x *ctrRun) drop(a [2]uint64) {
	m := x.m
	v, want := m.trees[a]
	was := m.vague[a]
	m.vague[a] = true
	err, hit := x.call("DropSubTree", func() error { return x.st.DropSubTree(uint32(a[0]), a[1]) })
	if x.over {
		return
	}
	has := x.st.HasSubTree(uint32(a[0]), a[1])
	if hit {
		m.all = true
	}
	if err == nil && has || has && !want {
		x.bad("store-contract", "subtree %v is still there after it was dropped", a)
		return
	}
	if err != nil && has {
		// not dropped
		m.trees[a] = v
		if !was {
			delete(m.vague, a)
		}
		if !hit {
			return
		}
		m.vague[a] = true
		delete(x.live, a)
		return
	}
	delete(m.trees, a)
	delete(x.live, a)
	if err == nil {
		delete(m.vague, a)
	}
}

func (x *ctrRun) checkList() {
	if x.over || !x.m.inits {
		return
	}
	m := x.m
	l, e := x.st.ListSubTrees()
	if e != nil {
		x.bad("store-contract", "ListSubTrees fails: %v", e)
		return
	}
	seen := map[[2]uint64]bool{}
	for _, a := range l {
		if _, ok := m.trees[a]; !ok || seen[a] {
			x.bad("store-contract", "ListSubTrees reports %v, which is not there (or twice)", a)
			return
		}
		seen[a] = true
	}
	for _, a := range sortedKeys(m.trees) {
		if !seen[a] {
			x.bad("store-contract", "ListSubTrees does not report %v", a)
			return
		}
	}
	// the cache file does not outgrow what was ever in it at once
	if !m.fault {
		b, _ := zos.Peek(x.ps.name + ".cache")
		slot, al := 4096, 4096
		if len(b) >= 17 && b[12] == 1 {
			if v := int(uint32(b[13])<<24 | uint32(b[14])<<16 | uint32(b[15])<<8 | uint32(b[16])); v > 0 {
				al = v
			}
			slot = (x.sz + 13 + al - 1) / al * al
			if n := (len(b) - al) / slot; n > m.peak {
				x.bad("store-contract", "the cache file has room for %d subtrees, but there were never more than %d: space of dropped subtrees is not reused", n, m.peak)
			}
		}
	}
}

func (x *ctrRun) write(name string, k ctrKey, f func() error) error {
	old := x.cur
	x.m.attempt(k)
	err, _ := x.call(name, f)
	if x.over {
		return err
	}
	if err == nil {
		x.m.done(k)
		x.readKey([]ctrKey{k}, "after "+name)
		return nil
	}
	x.w.counts["store calls failed by faults"]++
	x.readKey([]ctrKey{old}, "after a failed "+name)
	return err
}

func (x *ctrRun) reset(r *zrt.RNG) {
	p := x.w.params(x.op)
	if r.Intn(3) == 0 {
		p.H, p.D = uint32(2+2*r.Intn(3)), 2
	}
	k := ctrKey{init: true, p: p, sk: r.Uint64()}
	old := x.cur
	m := x.m
	m.attempt(k)
	if m.known {
		m.known = false
	}
	err, hit := x.call("Reset", func() error { return x.st.Reset(x.sk(k.sk, p), p) })
	if x.over {
		return
	}
	if err == nil {
		m.done(k)
		x.readKey([]ctrKey{k}, "after Reset")
		x.sz = x.c.s.lib.CachedSubTreeSize(p)
		x.resetCacheModel(nil, false)
		return
	}
	x.readKey([]ctrKey{{}, old, k}, "after a failed Reset")
	if x.over {
		return
	}
	if x.cur.init {
		x.sz = x.c.s.lib.CachedSubTreeSize(x.cur.p)
		x.resetCacheModel(err, hit)
	} else {
		m.emptyCache(false)
		m.known = false
		x.live = nil
	}
}

func (c *client) ctrStore(op *Op) {
	w := c.w
	ps := w.path(op.Path)
	r := zrt.NewRNG(zrt.Mix(op.N ^ 0xc24))
	if ps.cm == nil {
		ps.cm = &ctrModel{vis: []ctrKey{{}}, dur: []ctrKey{{}}}
		ps.cm.emptyCache(false)
	}
	m := ps.cm
	x := &ctrRun{c: c, w: w, ps: ps, m: m, op: op}
	m.fault = m.fault || !m.known
	for _, s := range w.sess {
		m.fault = m.fault || s.crashed
	}
	for round := 0; round < 1+r.Intn(3); round++ {
		if !x.openStore() || x.over {
			return
		}
		steps := 3 + r.Intn(16)
		for i := 0; i < steps && !x.over; i++ {
			x.step(r)
		}
		if x.over {
			return
		}
		if r.Intn(4) == 0 {
			return // forgotten
		}
		if !x.closeStore(r) {
			return
		}
	}
}

func (x *ctrRun) openStore() bool {
	w, m := x.w, x.m
	for try := 0; ; try++ {
		var st simapi.Store
		var serr *simapi.Error
		err, _ := x.call("Open", func() error {
			st, serr = x.c.s.lib.OpenFS(x.ps.name)
			if serr != nil {
				return serr
			}
			return nil
		})
		if x.over {
			return false
		}
		if err == nil {
			x.st = st
			break
		}
		w.counts["store opens failed by faults"]++
		if serr.Locked {
			x.bad("store-contract", "opening fails as locked, but no one has it open: %v", err)
			return false
		}
		if try > 3 {
			return false
		}
	}
	w.counts["store opens"]++
	hit := w.sessFaulted(x.c.s)
	if hit {
		m.all = true
	}
	may := m.vis
	x.readKey(may, "on opening")
	if x.over {
		return false
	}
	m.vis = []ctrKey{x.cur}
	x.cacheOpened()
	return !x.over
}

func (x *ctrRun) step(r *zrt.RNG) {
	m := x.m
	if !x.cur.init {
		x.reset(r)
		return
	}
	k := x.cur
	a := [2]uint64{uint64(r.Intn(3)), uint64(r.Intn(3))}
	switch n := r.Intn(24); {
	case n < 5:
		amt := uint32(r.Intn(20))
		switch r.Intn(12) {
		case 0:
			amt = math.MaxUint32
		case 1:
			amt = 0
		}
		k.seq += uint64(amt)
		if k.lost+amt < k.lost {
			k.lost = math.MaxUint32
		} else {
			k.lost += amt
		}
		var v uint64
		if x.write("BorrowSeqNos", k, func() error {
			var e error
			v, e = x.st.BorrowSeqNos(amt)
			return e
		}) == nil && !x.over && v != k.seq-uint64(amt) {
			x.bad("store-numbers", "BorrowSeqNos(%d) returns %d, the sequence number was %d", amt, v, k.seq-uint64(amt))
		}
	case n < 10:
		k.lost = 0
		switch r.Intn(4) {
		case 0:
			k.seq = r.Uint64() >> uint(1+r.Intn(63))
		case 1:
			k.seq -= uint64(r.Intn(5)) % (k.seq + 1)
		default:
			k.seq += uint64(r.Intn(5))
		}
		x.write("SetSeqNo", k, func() error { return x.st.SetSeqNo(k.seq) })
	case n < 16:
		if m.inits {
			x.get(a)
		} else {
			x.resetCache()
		}
	case n < 19:
		if m.inits {
			x.drop(a)
		}
	case n < 21:
		if m.inits {
			_, want := m.trees[a]
			if has := x.st.HasSubTree(uint32(a[0]), a[1]); has != want {
				x.bad("store-contract", "HasSubTree(%v) is %v", a, has)
			}
		}
		x.checkList()
	case n < 22:
		x.readKey([]ctrKey{x.cur}, "later")
		for _, a := range sortedKeys(m.trees) {
			if x.live[a] != nil && r.Intn(3) == 0 {
				x.fill(a)
			}
		}
	case n < 23:
		if r.Intn(2) == 0 {
			x.resetCache()
		}
	default:
		if r.Intn(4) == 0 {
			x.reset(r)
			return
		}
		// no one else can have it meanwhile
		var serr *simapi.Error
		s2, serr := x.c.s.lib.OpenFS(pathAlias(x.op.Path, r.Uint64()))
		if serr == nil {
			x.bad("double-open", "opened a second time while it is open")
			_ = s2
			return
		}
		if !serr.Locked && !x.w.sessFaulted(x.c.s) {
			x.bad("bad-locked", "opening it a second time fails, but not as locked: %s", serr.Msg)
		}
	}
	x.checkLive()
}

func (x *ctrRun) resetCache() {
	x.m.known = false
	err, hit := x.call("ResetCache", func() error { return x.st.ResetCache() })
	if !x.over {
		x.resetCacheModel(err, hit)
	}
}

func (x *ctrRun) closeStore(r *zrt.RNG) bool {
	m := x.m
	x.checkList()
	if x.over {
		return false
	}
	x.live = nil
	err, hit := x.call("Close", func() error { return x.st.Close() })
	if x.over {
		return false
	}
	if err != nil {
		x.w.counts["store closes failed by faults"]++
		m.all = m.all || hit
		if e := x.st.Close(); e == nil {
			return true
		}
		// whether it is still locked is not known
		return false
	}
	if hit {
		m.all = true
	}
	if r.Intn(3) == 0 {
		// a closed store does nothing any more
		before, _ := zos.Peek(x.ps.name)
		names := len(zos.List())
		var did string
		if _, e := x.st.BorrowSeqNos(3); e == nil {
			did = "BorrowSeqNos"
		}
		if e := x.st.SetSeqNo(5); e == nil {
			did = "SetSeqNo"
		}
		if _, _, e := x.st.GetSubTree(0, 0); e == nil {
			did = "GetSubTree"
		}
		if x.st.HasSubTree(0, 0) {
			did = "HasSubTree"
		}
		if e := x.st.DropSubTree(0, 0); e == nil {
			did = "DropSubTree"
		}
		if e := x.st.ResetCache(); e == nil {
			did = "ResetCache"
		}
		if e := x.st.Reset(x.sk(1, x.w.p.Params), x.w.p.Params); e == nil {
			did = "Reset"
		}
		after, _ := zos.Peek(x.ps.name)
		if did != "" {
			x.bad("store-contract", "%s works on a closed store", did)
		} else if !bytes.Equal(before, after) || len(zos.List()) > names {
			x.bad("store-contract", "calls on a closed store changed files")
		}
	}
	return !x.over
}

func genC24(g *gen) {
	p := g.p
	g.pages = g.Chance(.5)
	p.Params = g.small()
	if g.Chance(.3) {
		p.Params = g.fam(uint32(g.Pick(4, 5, 6, 7)), 1)
		p.Params.D = 1
	}
	if p.Params.D == 1 && p.Params.H%2 == 1 {
		p.Params.H++
	}
	p.NoEpi = true
	n := 1 + g.Intn(4)
	for i := 0; i < n; i++ {
		s := g.sess()
		s.Pre = []Op{{K: "ctrstore", Path: 0, N: g.Uint64()}}
		st := Stage{}
		if g.Chance(.4) {
			s.Crash = g.crash(.5, false)
			if s.Crash.Mode == "step" {
				s.Crash.N = g.LogN(30000)
			}
		}
		if g.Chance(.5) {
			ts := bookTargets
			switch g.Intn(4) {
			case 0:
				ts = cacheTargets
			case 1:
				ts = append(append(append(append([]target(nil), bookTargets...), cacheTargets...), lockTargets...), loadTargets...)
			}
			s.Faults = g.faults(1+g.Intn(3), ts, 40, false)
		}
		st.Sess = []Session{s}
		if g.Chance(.15) {
			st.After = "power"
		} else if g.Chance(.1) {
			st.After = "settle"
		}
		p.Stages = append(p.Stages, st)
	}
	// and at last without faults
	s := g.sess()
	s.Pre = []Op{{K: "ctrstore", Path: 0, N: g.Uint64()}}
	p.Stages = append(p.Stages, Stage{Sess: []Session{s}})
}
