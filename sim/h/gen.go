package h

import (
	"syscall"

	"github.com/bwesterb/go-xmssmt/zsim/simapi"
	"github.com/bwesterb/go-xmssmt/zsim/zrt"
)

// gen draws plans.
type gen struct {
	*zrt.RNG
	p     *Plan
	h     int
	msg   int
	race  bool
	pages bool
}

// Generate makes the index'th plan of a property from the base seed.
func Generate(prop string, seed uint64, index int) *Plan {
	ph := uint64(0)
	for _, c := range prop {
		ph = ph*131 + uint64(c)
	}
	r := zrt.NewRNG(zrt.Mix(zrt.Mix(seed^ph<<20) + uint64(index)))
	p := &Plan{Prop: prop, Index: index, Seed: r.Uint64(), Sched: r.Uint64()}
	g := &gen{RNG: r, p: p, race: zrt.RaceMode}
	p.Policy = g.policy()
	p.Params = g.small()
	if g.Chance(0.3) {
		p.WriteBack = 0.02
	}
	f := generators[prop]
	if f == nil {
		panic("harness: no generator for " + prop)
	}
	f(g)
	g.badOpens(map[string]float64{"C04": .1, "C08": .06, "C09": .06, "C25": .15}[prop])
	return p
}

var generators = map[string]func(*gen){
	"C01": genC01, "C02": genC02, "C03": genC03, "C04": genC04, "C05": genC05,
	"C06": genC06, "C07": genC07, "C08": genC08, "C09": genC09, "C10": genC10,
	"C11": genC11, "C12": genC12, "C13": genC13, "C14": genC14, "C15": genC15,
	"C16": genC16, "C17": genC17, "C18": genC18, "C19": genC19, "C24": genC24, "C25": genC25, "C26": genC26, "C27": genC27,
}

func (g *gen) policy() zrt.Policy {
	switch x := g.Intn(100); {
	case x < 10:
		return zrt.Policy{}
	case x < 40:
		return zrt.Policy{PSync: []float64{.05, .2, .5}[g.Intn(3)]}
	case x < 65:
		return zrt.Policy{PSync: .05, Arms: g.Pick(3, 10, 30)}
	case x < 85:
		return zrt.Policy{Mean: 10 + g.LogN(20000), PSync: .02}
	}
	return zrt.Policy{Prio: true, Mean: 10 + g.LogN(20000), PSync: []float64{0, .05, .2}[g.Intn(3)]}
}

func (g *gen) fam(h, d uint32) simapi.Params {
	p := simapi.Params{H: h, D: d, W: 4}
	p.Func = uint8(g.Pick(0, 0, 1, 1, 1, 2))
	p.N = uint32(g.Pick(16, 16, 24, 32, 32, 64))
	p.Prf = uint8(g.Pick(0, 0, 1))
	switch g.Intn(12) {
	case 0, 1:
		p.W = 16
	case 2:
		if h/d <= 2 && p.N <= 32 {
			p.W = 256
		}
	}
	return p
}

// small keys: a few to a few dozen signatures, so that runs cross subtrees
func (g *gen) small() simapi.Params {
	hd := [][2]uint32{{2, 1}, {3, 1}, {2, 2}, {4, 2}, {4, 2}, {6, 3}, {3, 3}, {4, 4}, {6, 2}, {1, 1}, {5, 5}, {6, 6}}[g.Intn(12)]
	return g.fam(hd[0], hd[1])
}

// fast keys: cheapest hashing, for runs that are about something else
func (g *gen) fast() simapi.Params {
	hd := [][2]uint32{{2, 1}, {3, 1}, {2, 2}, {4, 2}, {6, 3}, {3, 3}, {6, 2}, {4, 4}}[g.Intn(8)]
	return simapi.Params{Func: uint8(g.Pick(0, 1)), N: 16, H: hd[0], D: hd[1], W: 4, Prf: uint8(g.Pick(0, 1))}
}

// sibling differs in the hash function or the prf only.
func (g *gen) sibling(p simapi.Params, k int) *simapi.Params {
	if p.Func > 1 || k > 1 {
		p.Prf ^= 1
	}
	if p.Func <= 1 && k < 3 {
		p.Func ^= 1
	}
	return &p
}

// many-layered keys that reach far positions
func (g *gen) tall() simapi.Params {
	p := simapi.Params{Func: uint8(g.Pick(0, 1)), N: 16, W: 4}
	switch g.Intn(4) {
	case 0:
		p.H, p.D = 36, 18
	case 1:
		p.H, p.D = 33, 33
	case 2:
		p.H, p.D = 40, 20
	case 3:
		p.H, p.D = 36, 12
	}
	return p
}

// farPos is an interesting position of a tall key
func (g *gen) farPos(p simapi.Params) uint64 {
	th := uint64(1) << (p.H / p.D)
	switch g.Intn(5) {
	case 0, 1, 2:
		return 1<<32 - uint64(g.Intn(12))
	case 3:
		return 1<<32 + uint64(g.Intn(3))*th - uint64(g.Intn(3))
	}
	return uint64(1)<<uint(4+g.Intn(int(p.H)-5)) - uint64(g.Intn(4))
}

func (g *gen) nh() int { g.h++; return g.h }

func (g *gen) nmsg() int { g.msg++; return g.msg }

func (g *gen) rdr(fail bool, n int) *Rdr {
	r := &Rdr{FailAt: -1, EOFData: g.Chance(.4), Kind: g.Pick(0, 0, 0, 1, 2, 3, 4), Err: g.Intn(4)}
	k := g.Intn(4)
	for i := 0; i < k; i++ {
		r.Chunks = append(r.Chunks, g.Pick(0, 0, 1, 1, 2, 7, 31, 32, 64, 65, 100, 511, 512, 513, 4096))
	}
	any := false
	for _, c := range r.Chunks {
		any = any || c > 0
	}
	if !any && len(r.Chunks) > 0 {
		r.Chunks = append(r.Chunks, 1+g.Intn(64))
	}
	if any && g.Chance(.15) {
		// a long run of empty reads, but fewer than the hundred after which
		// some readers of the standard library give up
		i := g.Intn(len(r.Chunks))
		z := make([]int, 3+int(g.LogN(90)))
		r.Chunks = append(r.Chunks[:i:i], append(z, r.Chunks[i:]...)...)
		e := 0
		for _, c := range r.Chunks {
			if c == 0 {
				e++
			}
		}
		for i := 0; e > 95; {
			if r.Chunks[i] == 0 {
				r.Chunks = append(r.Chunks[:i:i], r.Chunks[i+1:]...)
				e--
			} else {
				i++
			}
		}
	}
	if g.Chance(.2) {
		r.Sleep = 1000 * g.LogN(1000)
	}
	if fail {
		r.FailAt = g.Intn(n + 1)
		r.FailNow = g.Chance(.5)
		r.Kind = g.Pick(0, 0, 1, 3)
	}
	return r
}

// big makes the message of a call longer than buffers usually are.
func (g *gen) big(o *Op) {
	o.Len = g.Pick(1024, 4095, 4096, 4097, 8192, 16384, 32767, 32768, 32769, 40000, 65536, 70000, 98304, 131072)
	r := o.R
	if r == nil {
		return
	}
	z := len(r.Chunks) > 0
	r.Chunks = nil
	for k := g.Intn(4); z && k > 0; k-- {
		r.Chunks = append(r.Chunks, g.Pick(0, 511, 512, 513, 4095, 4096, 4097, 20000, 32767, 32768, 32769))
	}
	if len(r.Chunks) > 0 {
		r.Chunks = append(r.Chunks, g.Pick(512, 4096, 5000, 32768))
	}
	if r.FailAt >= 0 {
		r.FailAt = g.Intn(o.Len + 1)
		if g.Chance(.6) {
			r.FailAt = g.Pick(512, 1024, 4096, 8192, 32768, 65536)
			if r.FailAt > o.Len {
				r.FailAt = o.Len
			}
		}
	}
}

func (g *gen) msgLen() int {
	switch g.Intn(8) {
	case 0:
		return 0
	case 1:
		return 1 + g.Intn(3)
	case 2:
		return g.Pick(55, 56, 63, 64, 65, 127, 128, 135, 136, 137, 167, 168, 169, 511, 512, 513)
	case 3:
		return 500 + g.Intn(5000)
	}
	return 4 + g.Intn(200)
}

// mix is the relative frequency of the calls clients make.
type mix struct {
	sign, signr, failr, borrow, borrowif, seqno, borrowed, unretired, cached, describe, pubkey, precompute, sleep, vfy int
}

var stdMix = mix{sign: 30, signr: 6, failr: 2, borrow: 7, borrowif: 5, seqno: 3, borrowed: 3, unretired: 2, cached: 1, describe: 1, pubkey: 1, precompute: 3, sleep: 2}
var signMix = mix{sign: 30, signr: 5, borrow: 2, precompute: 2, sleep: 2}

func (g *gen) borrowN() uint64 {
	switch g.Intn(6) {
	case 0:
		return 0
	case 1:
		return 1
	case 2:
		return uint64(2 + g.Intn(3))
	case 3:
		return uint64(g.Intn(1 << (g.p.Params.H % 8)))
	}
	return uint64(g.Intn(8))
}

func (g *gen) op(h int, m mix) Op {
	x := []int{m.sign, m.signr, m.failr, m.borrow, m.borrowif, m.seqno, m.borrowed, m.unretired, m.cached, m.describe, m.pubkey, m.precompute, m.sleep, m.vfy}
	t := 0
	for _, v := range x {
		t += v
	}
	k := g.Intn(t)
	i := 0
	for k >= x[i] {
		k -= x[i]
		i++
	}
	o := Op{H: h}
	switch i {
	case 0:
		o.K, o.Msg, o.Len, o.N = "sign", g.nmsg(), g.msgLen(), uint64(g.Pick(0, 0, 0, 1))
	case 1:
		o.K, o.Msg, o.Len = "signr", g.nmsg(), g.msgLen()
		o.R = g.rdr(false, o.Len)
	case 2:
		o.K, o.Msg, o.Len = "signr", g.nmsg(), g.msgLen()
		o.R = g.rdr(true, o.Len)
	case 3:
		o.K, o.N = "borrow", g.borrowN()
	case 4:
		o.K, o.N, o.T = "borrowif", g.borrowN(), uint32(g.Intn(5))
	case 5:
		o.K = "seqno"
	case 6:
		o.K = "borrowed"
	case 7:
		o.K = "unretired"
	case 8:
		o.K = "cached"
	case 9:
		o.K = "describe"
	case 10:
		o.K = "pubkey"
	case 11:
		o.K = "precompute"
	case 12:
		o.K, o.N = "sleep", uint64(g.LogN(5000000))
	case 13:
		o = Op{K: "verify", H: g.Intn(64), Key: g.Intn(64), How: []string{"", "shared", "stream"}[g.Intn(3)], R: g.rdr(false, 0)}
	}
	return o
}

func (g *gen) ops(h, n int, m mix) []Op {
	var l []Op
	for i := 0; i < n; i++ {
		l = append(l, g.op(h, m))
	}
	return l
}

// split divides n operations over k clients
func (g *gen) clients(h, k, n int, m mix) [][]Op {
	c := make([][]Op, k)
	for i := range c {
		c[i] = g.ops(h, (n+i)/k, m)
	}
	return c
}

func (g *gen) threads() uint32 { return uint32(g.Pick(0, 1, 1, 1, 2, 3)) }

func (g *gen) sess() Session {
	s := Session{Slot: g.Intn(3), CPUs: g.Pick(1, 1, 2, 3), NoVector: g.Chance(.3)}
	if g.pages {
		s.Page = g.Pick(4096, 4096, 8192, 16384, 65536)
	}
	return s
}

// close sequence: sometimes retried, sometimes forgotten
func (g *gen) end(h int, pClose float64) []Op {
	var l []Op
	if g.Chance(.3) {
		l = append(l, Op{K: "settle", H: h})
	}
	if g.Chance(pClose) {
		l = append(l, Op{K: "close", H: h})
		if g.Chance(.2) {
			l = append(l, Op{K: "close", H: h})
		}
	}
	return l
}

// skips lets a session move its key forward, before or after its clients run.
func (g *gen) skips(s *Session, h int) {
	n := uint64(g.Pick(0, 1, 2, 3, 5, 16, 40))
	switch g.Intn(8) {
	case 0:
		n = g.Uint64() % (1 << (g.p.Params.H % 64))
	case 1:
		n = 1<<(g.p.Params.H/g.p.Params.D) + uint64(g.Intn(3))
	case 2:
		n = uint64(g.LogN(1 << 30))
	}
	o := Op{K: "skip", H: h, N: n}
	if g.Chance(.3) {
		o.Len = 1 // also beyond the end
		if g.Chance(.2) {
			o.N = uint64(1) << uint(g.p.Params.H+uint32(g.Intn(int(64-g.p.Params.H))))
			if g.Chance(.3) {
				o.N--
			}
		}
	}
	if g.Chance(.4) {
		s.Pre = append(s.Pre, o)
		return
	}
	i := g.Intn(len(s.Post) + 1)
	s.Post = append(s.Post[:i:i], append([]Op{o}, s.Post[i:]...)...)
}

func (g *gen) errno(kind string) int {
	switch kind {
	case "write", "truncate", "create", "sync", "link":
		return int([]syscall.Errno{syscall.EIO, syscall.ENOSPC, syscall.EDQUOT, syscall.EIO}[g.Intn(4)])
	case "open":
		return int([]syscall.Errno{syscall.EIO, syscall.EMFILE, syscall.ENFILE, syscall.EACCES}[g.Intn(4)])
	case "mmap":
		return int([]syscall.Errno{syscall.ENOMEM, syscall.EAGAIN, syscall.EIO}[g.Intn(3)])
	case "rename":
		return int([]syscall.Errno{syscall.EIO, syscall.ENOSPC, syscall.EBUSY}[g.Intn(3)])
	}
	return int(syscall.EIO)
}

type target struct{ kind, path string }

var bookTargets = []target{{"create", "book"}, {"write", "book"}, {"write", "book"}, {"sync", "book"}, {"close", "book"}, {"rename", "book"}, {"dirsync", "book"}, {"dirsync", "dir"}, {"open", "dir"}, {"close", "dir"}, {"any", "book"}, {"bk", "book"}, {"open", "book"}}
var cacheTargets = []target{{"open", ".cache"}, {"create", ".cache"}, {"write", ".cache"}, {"truncate", ".cache"}, {"mmap", ".cache"}, {"mmap", ".cache"}, {"munmap", ".cache"}, {"read", ".cache"}, {"close", ".cache"}, {"any", ".cache"}}
var loadTargets = []target{{"open", "key"}, {"read", "key"}, {"read", "key"}, {"stat", "key"}, {"close", "key"}, {"any", "key"}}
var lockTargets = []target{{"any", ".lock"}, {"create", ".lock"}, {"create", ""}, {"link", ""}, {"write", ".lock"}, {"read", ".lock"}, {"unlink", ".lock"}, {"open", ".lock"}, {"stat", ".lock"}, {"sync", ".lock"}, {"any", "lock"}}

func (g *gen) fault(ts []target, max int64) Fault {
	t := ts[g.Intn(len(ts))]
	f := Fault{Kind: t.kind, Path: t.path, Nth: int(g.LogN(max)), Err: g.errno(t.kind)}
	switch g.Intn(6) {
	case 0:
		f.Count = 2
	case 1:
		f.Count = 2 + g.Intn(4)
	case 2:
		f.Count = 1000000 // as long as the process lives
		if g.Chance(.7) {
			f.Count = 10
		}
	}
	if g.Chance(.35) {
		f.Applied = true
	}
	if t.kind == "write" && g.Chance(.6) {
		f.Short = g.Intn(1000)
	}
	if t.kind == "read" && g.Chance(.4) {
		// fewer bytes than asked for, which is no error
		f.Err, f.Applied, f.Short = 0, false, g.Intn(1000)
	}
	return f
}

func (g *gen) faults(n int, ts []target, max int64, arm bool) []Fault {
	var l []Fault
	for i := 0; i < n; i++ {
		f := g.fault(ts, max)
		f.Arm = arm
		switch f.Kind {
		case "store.Reset", "store.ResetCache", "store.GetPrivateKey", "store.ListSubTrees", "store.GetSeqNo":
			// called but once, when a key is opened
			f.Arm, f.Nth = false, 1+g.Intn(2)
		}
		l = append(l, f)
	}
	return l
}

func (g *gen) crash(power float64, arm bool) *Crash {
	c := &Crash{Kind: "kill", Arm: arm}
	if g.Chance(power) {
		c.Kind = "power"
	}
	switch x := g.Intn(100); {
	case x < 55:
		c.Mode = "io"
		c.N = g.LogN(60)
		if g.Chance(.3) {
			c.IO = []string{"write", "rename", "sync", "dirsync", "create", "truncate", "mmap", "close", "link", "unlink", "open"}[g.Intn(11)]
			c.N = g.LogN(8)
		}
		c.When = []string{"before", "half", "after", "after"}[g.Intn(4)]
	case x < 80:
		c.Mode = "step"
		c.N = g.LogN(300000)
	default:
		c.Mode = "site"
		c.SiteN = g.Intn(1 << 16)
		c.N = g.LogN(16)
	}
	return c
}

// alias picks one of the names of a path.
func (g *gen) alias() uint64 {
	if g.Chance(.15) {
		return uint64(4 + g.Intn(2))
	}
	return uint64(g.Intn(4))
}

func (g *gen) openOp(how string, path, h, key int) Op {
	return Op{K: "open", How: how, Path: path, H: h, Key: key, N: g.alias(), T: g.threads()}
}

// life is the general plan: a key is made, used in several sessions by
// several clients, and closed or not.
type life struct {
	stages, maxStages int
	clients           int
	ops               int
	m                 mix
	pClose            float64
	pCrash, pPower    float64
	pFault            float64
	targets           []target
	faultMax          int64
	pAfterPower       float64
	pSettle           float64
	pDamage           float64
	damages           []string
	store             bool
	far               bool
	pPre              float64 // precomputation switched on at once
	tail              int     // operations after the clients, in the same session
	crossPath         bool
	jump              bool // the key is moved forward while in use
}

func (g *gen) life(l life) {
	p := g.p
	path := 0
	how, loadHow := "derive", "load"
	if l.store {
		path, how, loadHow = 100, "memderive", "memload"
	}
	n := 1 + g.Intn(l.maxStages)
	start := 0
	if l.far {
		p.Params = g.tall()
		pos := g.farPos(p.Params)
		s := g.sess()
		s.Pre = []Op{{K: "seed", Path: path, Key: g.Intn(6), N: pos}}
		p.Stages = append(p.Stages, Stage{Sess: []Session{s}, After: "settle"})
		start = 1
		how = loadHow
	}
	key := g.Intn(20)
	for i := 0; i < n; i++ {
		s := g.sess()
		h := g.nh()
		w := loadHow
		if i == 0 {
			w = how
		}
		s.Pre = []Op{g.openOp(w, path, h, key)}
		if i == 0 && w != loadHow && !l.store && g.Chance(.15) {
			s.Pre[0].How = "generate"
		}
		if g.Chance(l.pPre) {
			s.Pre = append(s.Pre, Op{K: "precompute", H: h})
		}
		k := 1 + g.Intn(l.clients)
		s.Clients = g.clients(h, k, 1+g.Intn(l.ops), l.m)
		if l.tail > 0 {
			s.Post = g.ops(h, g.Intn(l.tail+1), l.m)
		}
		s.Post = append(s.Post, g.end(h, l.pClose)...)
		if g.p.Params.H >= 9 && g.p.Params.H <= 36 && l.jump {
			g.jumps(&s, h)
		} else if g.Chance(.08) {
			g.skips(&s, h)
		}
		if g.Chance(l.pCrash) {
			s.Crash = g.crash(l.pPower, i == 0 || g.Chance(.7))
		}
		if l.pFault > 0 && g.Chance(l.pFault) {
			s.Faults = g.faults(1+g.Intn(3), l.targets, l.faultMax, i == 0 || g.Chance(.7))
		}
		st := Stage{Sess: []Session{s}}
		if g.Chance(l.pAfterPower) {
			st.After = "power"
		} else if g.Chance(l.pSettle) {
			st.After = "settle"
		}
		if i > 0 && l.pDamage > 0 && g.Chance(l.pDamage) {
			for j := 0; j <= g.Intn(3); j++ {
				st.Damage = append(st.Damage, Damage{Kind: l.damages[g.Intn(len(l.damages))], Path: path, Pos: g.Intn(1 << 20), N: g.Intn(1 << 16), Seed: g.Uint64()})
			}
		}
		p.Stages = append(p.Stages, st)
	}
	_ = start
}

// burst: several clients of a key need the same subtrees at the same time, and
// making them might fail.
func (g *gen) burst(store bool, pFault, pDamage float64, damages []string) {
	p := g.p
	hd := [][2]uint32{{2, 2}, {4, 2}, {3, 3}, {6, 3}, {4, 4}, {6, 2}}[g.Intn(6)]
	p.Params = simapi.Params{Func: uint8(g.Pick(0, 1)), N: 16, H: hd[0], D: hd[1], W: 4, Prf: uint8(g.Pick(0, 1))}
	path, how, load := 0, "derive", "load"
	if store {
		path, how, load = 100, "memderive", "memload"
		damages = []string{"erase", "erase", "swap", "flip", "flip"}
	}
	key := g.Intn(20)
	s := g.sess()
	h := g.nh()
	s.Pre = []Op{g.openOp(how, path, h, key)}
	for i := g.Intn(1 << hd[0] / 2); i > 0; i-- {
		s.Pre = append(s.Pre, Op{K: "sign", H: h, Msg: g.nmsg(), Len: g.msgLen()})
	}
	s.Post = []Op{{K: "close", H: h}}
	p.Stages = append(p.Stages, Stage{Sess: []Session{s}, After: "settle"})

	s = g.sess()
	h = g.nh()
	s.Pre = []Op{g.openOp(load, path, h, key)}
	if g.Chance(.3) {
		s.Pre = append(s.Pre, Op{K: "precompute", H: h})
	}
	n := 3 + g.Intn(4)
	for i := 0; i < n; i++ {
		s.Clients = append(s.Clients, g.ops(h, 1+g.Intn(3), mix{sign: 20, signr: 2, failr: 1, precompute: 1}))
	}
	if g.Chance(.2) {
		s.Clients = append(s.Clients, []Op{{K: "sleep", N: uint64(g.LogN(5000000))}, {K: "close", H: h}})
	}
	s.Post = append(g.ops(h, g.Intn(4), mix{sign: 1}), g.end(h, .8)...)
	st := Stage{}
	if g.Chance(pDamage) {
		for j := 0; j <= g.Intn(2); j++ {
			st.Damage = append(st.Damage, Damage{Kind: damages[g.Intn(len(damages))], Path: path, Pos: g.Intn(1 << 20), N: g.Intn(1 << 16), Seed: g.Uint64()})
		}
	}
	if g.Chance(pFault) {
		ts := []target{{"mmap", ".cache"}, {"mmap", ".cache"}, {"truncate", ".cache"}, {"write", ".cache"}, {"any", ".cache"}, {"munmap", ".cache"}}
		if store {
			ts = []target{{"store", ""}, {"store.GetSubTree", ""}, {"store.GetSubTree", ""}, {"store.DropSubTree", ""}}
		}
		s.Faults = g.faults(1+g.Intn(3), ts, 12, true)
		for i := range s.Faults {
			if s.Faults[i].Kind == "store" || s.Faults[i].Kind == "any" {
				s.Faults[i].Nth += g.Intn(12)
			}
		}
	}
	st.Sess = []Session{s}
	p.Stages = append(p.Stages, st)
	p.Policy = zrt.Policy{PSync: []float64{.1, .3, .5}[g.Intn(3)]}
	if g.Chance(.3) {
		p.Policy = g.policy()
	}
}

// ---- the properties

func genC01(g *gen) {
	l := life{maxStages: 4, clients: 4, ops: 14, m: stdMix, pClose: .6, tail: 3, pPre: .2}
	switch g.Intn(10) {
	case 0, 1, 2:
	case 3, 4:
		l.pCrash, l.pPower = .6, .4
		l.pAfterPower = .2
	case 5, 6:
		l.pFault, l.targets, l.faultMax = .7, bookTargets, 20
		l.pAfterPower = .3
	case 7:
		l.far = true
		l.maxStages = 3
	case 8:
		genC08(g)
		return
	case 9:
		l.store = true
		l.pCrash = .3
	}
	if g.Chance(.5) {
		g.p.Params = g.fast()
	}
	if g.Chance(.07) {
		g.p.Params, l.jump = g.jumpy(), true
	}
	g.life(l)
}

func genC02(g *gen) {
	if g.Chance(.6) {
		g.p.Params = g.fast()
	}
	m := stdMix
	m.borrow, m.borrowif = 12, 6
	l := life{maxStages: 4, clients: 3, ops: 10, m: m, pClose: .5, pCrash: .75, pPower: .55, pAfterPower: .25, tail: 3, pPre: .1, pSettle: .1}
	if g.Chance(.1) {
		l.far, l.maxStages = true, 3
	}
	if g.Chance(.15) {
		l.pFault, l.targets, l.faultMax = .3, bookTargets, 20
	}
	g.life(l)
}

func genC03(g *gen) {
	if g.Chance(.7) {
		g.p.Params = g.fast()
	}
	m := mix{sign: 30, signr: 3, borrow: 14, borrowif: 6, seqno: 3, borrowed: 2, sleep: 1}
	l := life{maxStages: 4, clients: 3, ops: 12, m: m, pClose: .5, pFault: .85, targets: bookTargets, faultMax: 25, pCrash: .25, pPower: .6, pAfterPower: .35, tail: 6}
	if g.Chance(.2) {
		l.store = true
		l.targets = storeTargets
		l.faultMax = 40
	}
	g.life(l)
}

var storeTargets = []target{{"store", ""}, {"store", ""}, {"store.SetSeqNo", ""}, {"store.BorrowSeqNos", ""}, {"store.GetSubTree", ""}, {"store.DropSubTree", ""}, {"store.Close", ""}, {"store.ResetCache", ""}, {"store.GetPrivateKey", ""}, {"store.GetSeqNo", ""}, {"store.ListSubTrees", ""}, {"store.Reset", ""}}

func genC04(g *gen) {
	p := g.p
	if g.Chance(.7) {
		p.Params = g.fast()
	}
	n := 1 + g.Intn(4)
	paths := 1 + g.Intn(2)
	type st struct{ key, used int }
	cur := map[int]int{}
	fresh := map[int]bool{}
	sib := map[int]int{}
	for i := 0; i < paths; i++ {
		fresh[i], sib[i] = true, -1
	}
	for i := 0; i < n; i++ {
		path := g.Intn(paths)
		s := g.sess()
		h := g.nh()
		how := "load"
		pars := (*simapi.Params)(nil)
		if fresh[path] || g.Chance(.45) {
			how = []string{"derive", "derive", "generate"}[g.Intn(3)]
			if !fresh[path] || how != "derive" || g.Chance(.5) {
				cur[path]++
			}
			if g.Chance(.4) {
				q := g.fast()
				pars = &q
			}
		}
		o := g.openOp(how, path, h, path*40+cur[path])
		if how == "derive" && p.Params.Func <= 1 && sib[path] < 3 && g.Chance(.35) {
			// the same seeds again, with other parameters
			o.Key, pars = path*40+39, &p.Params
			if sib[path] >= 0 {
				pars = g.sibling(p.Params, sib[path]+1)
			}
			sib[path]++
			o.Key -= 20
		}
		o.P = pars
		if pars != nil {
			o.Key += 20
			cur[path]++
		}
		s.Pre = []Op{o}
		if g.Chance(.3) {
			// try again at once
			r := o
			r.H = g.nh()
			if how != "load" && g.Chance(.5) {
				r.How = "load"
			}
			s.Pre = append(s.Pre, r)
			s.Clients = append(s.Clients, g.ops(r.H, g.Intn(4), stdMix))
			s.Post = append(s.Post, g.end(r.H, .7)...)
		}
		s.Clients = append(s.Clients, g.ops(h, g.Intn(5), stdMix))
		s.Post = append(s.Post, g.end(h, .7)...)
		stg := Stage{}
		switch g.Intn(5) {
		case 0:
		case 1, 2:
			s.Crash = g.crash(.6, g.Chance(.15))
		case 3:
			s.Faults = g.faults(1+g.Intn(3), append(append(append([]target(nil), bookTargets...), cacheTargets...), loadTargets...), 12, g.Chance(.15))
		case 4:
			s.Crash = g.crash(.6, g.Chance(.15))
			s.Faults = g.faults(1+g.Intn(2), append(append([]target(nil), bookTargets...), cacheTargets...), 12, false)
		}
		if g.Chance(.3) {
			stg.After = "power"
		}
		if i > 0 && g.Chance(.15) {
			stg.Damage = append(stg.Damage, Damage{Kind: "tmpjunk", Path: path, N: g.Intn(200), Seed: g.Uint64()})
		}
		if i > 0 && g.Chance(.2) {
			stg.Damage = append(stg.Damage, Damage{Kind: []string{"erase", "empty", "truncate", "trunchead", "garbage"}[g.Intn(5)], Path: path, Pos: g.Intn(1 << 20), Seed: g.Uint64()})
		}
		stg.Sess = []Session{s}
		p.Stages = append(p.Stages, stg)
		fresh[path] = false
	}
}

func genC05(g *gen) {
	if g.Chance(.2) {
		genC24(g)
		return
	}
	if g.Chance(.7) {
		g.p.Params = g.fast()
	}
	m := mix{sign: 20, signr: 3, failr: 1, borrow: 14, borrowif: 8, seqno: 4, borrowed: 3, sleep: 1, precompute: 1}
	l := life{maxStages: 5, clients: g.Pick(1, 1, 3), ops: 10, m: m, pClose: .6, tail: 3, pSettle: .1}
	switch g.Intn(5) {
	case 0, 1:
	case 2:
		l.pCrash, l.pPower = .7, .5
		l.pAfterPower = .3
	case 3:
		l.pFault, l.targets, l.faultMax, l.pClose = .5, bookTargets, 15, .8
	case 4:
		l.far = true
		l.maxStages = 3
		l.pCrash, l.pPower = .3, .5
	}
	g.life(l)
	if l.far && g.Chance(.3) {
		// reservations of extreme size
		for i := range g.p.Stages {
			s := &g.p.Stages[i].Sess[0]
			for _, c := range s.Clients {
				for j := range c {
					if c[j].K == "borrow" && g.Chance(.5) {
						c[j].N = uint64(1)<<32 - 1 - uint64(g.Intn(3))
					}
				}
			}
		}
	}
}

func genC06(g *gen) {
	if g.Chance(.1) {
		g.burst(g.Chance(.2), .5, .5, []string{"erase", "flipslot", "swap"})
		return
	}
	m := signMix
	m.pubkey, m.signr, m.vfy = 1, 8, 3
	l := life{maxStages: 3, clients: 4, ops: 12, m: m, pClose: .6, tail: 2, pPre: .5, pSettle: .1}
	switch g.Intn(12) {
	case 0:
		// more than one batch per subtree
		g.p.Params = simapi.Params{Func: uint8(g.Pick(0, 1)), N: 16, H: 6, D: 1, W: 4, Prf: uint8(g.Pick(0, 1))}
		if g.Chance(.4) {
			g.p.Params.H = 12
			g.p.Params.D = 2
		}
		l.maxStages, l.ops = 2, 6
	case 1:
		g.p.Params = g.fam(uint32(g.Pick(2, 4)), 2)
		g.p.Params.W = 16
	case 2:
		l.far = true
		l.maxStages = 2
	case 3:
		l.store = true
	case 4:
		l.pCrash, l.pPower, l.pAfterPower = .5, .5, .2
	case 5:
		l.pFault, l.targets, l.faultMax = .6, append(append([]target(nil), cacheTargets...), bookTargets...), 25
	case 6:
		// whole lifetime of a key
		l.ops = 40
		g.p.Params = g.fast()
		l.maxStages = 2
	}
	g.life(l)
}

var cacheDamages = []string{"erase", "empty", "truncate", "truncate", "trunchead", "extend", "flip", "flip", "fliphead", "flipslot", "flipslot", "flipslot", "slothead", "slothead", "swap", "swap", "copyslot", "count", "zerosect", "garbage", "restore", "restore", "torn", "fromother", "create-empty"}

func genC07(g *gen) {
	if g.Chance(.15) {
		g.burst(g.Chance(.15), .1, .95, cacheDamages)
		return
	}
	if g.Chance(.6) {
		g.p.Params = g.fast()
		if g.p.Params.D == 1 {
			g.p.Params.H, g.p.Params.D = 4, 2
		}
	}
	m := signMix
	m.vfy = 0
	l := life{maxStages: 4, clients: 4, ops: 10, m: m, pClose: .7, tail: 2, pPre: .3, pDamage: .9, damages: cacheDamages, pSettle: .4}
	switch g.Intn(8) {
	case 0:
		l.pCrash, l.pPower, l.pAfterPower = .6, .8, .3
		g.p.WriteBack = .1
	case 1:
		l.store = true
		l.damages = []string{"erase", "swap", "flip", "flip"}
	case 2:
		l.far = true
		l.maxStages = 3
	case 3:
		l.pCrash, l.pPower, l.pAfterPower = .3, .5, .2
	}
	g.life(l)
	if l.store || len(g.p.Stages) < 2 {
		return
	}
	// another key, so that caches can be mixed up
	mixup := false
	for i := range g.p.Stages {
		for j := range g.p.Stages[i].Damage {
			if g.p.Stages[i].Damage[j].Kind == "fromother" {
				g.p.Stages[i].Damage[j].N = 1
				mixup = true
			}
		}
	}
	if mixup {
		s := g.sess()
		h := g.nh()
		o := g.openOp("derive", 1, h, 20+g.Intn(5))
		if g.Chance(.4) {
			// of the same seeds, with other parameters
			for i := range g.p.Stages {
				for j := range g.p.Stages[i].Sess {
					for k, x := range g.p.Stages[i].Sess[j].Pre {
						if x.K == "open" || x.K == "seed" {
							g.p.Stages[i].Sess[j].Pre[k].Key = 23
						}
					}
				}
			}
			o.Key, o.P = 23, g.sibling(g.p.Params, 1+g.Intn(3))
		} else if g.Chance(.2) {
			// of the same public seed
			for i := range g.p.Stages {
				for j := range g.p.Stages[i].Sess {
					for k, x := range g.p.Stages[i].Sess[j].Pre {
						if x.K == "open" || x.K == "seed" {
							g.p.Stages[i].Sess[j].Pre[k].Key = 17
						}
					}
				}
			}
			o.Key = 18
		}
		s.Pre = []Op{o}
		s.Clients = [][]Op{g.ops(h, 1+g.Intn(4), m)}
		s.Post = []Op{{K: "close", H: h}}
		g.p.Stages = append([]Stage{{Sess: []Session{s}, After: "settle"}}, g.p.Stages...)
	}
	k := 1 + g.Intn(len(g.p.Stages)-1)
	g.p.Stages[k].Damage = append([]Damage{{Kind: "snap"}}, g.p.Stages[k].Damage...)
}

func genC08(g *gen) {
	p := g.p
	if g.Chance(.85) {
		p.Params = g.fast()
	}
	deriveRace := g.Chance(.25)
	risky := g.Chance(.25) // stale locks met by several processes at once
	if !deriveRace {
		s := g.sess()
		h := g.nh()
		s.Pre = []Op{g.openOp("derive", 0, h, g.Intn(10))}
		s.Clients = [][]Op{g.ops(h, g.Intn(3), stdMix)}
		s.Post = g.end(h, .7)
		if g.Chance(.25) {
			s.Crash = g.crash(.3, false)
		}
		if g.Chance(.15) {
			s.Faults = g.faults(1, append(append([]target(nil), lockTargets...), cacheTargets...), 6, false)
		}
		p.Stages = append(p.Stages, Stage{Sess: []Session{s}})
		if !risky {
			// clear a stale lock first
			s := g.sess()
			h := g.nh()
			s.Pre = []Op{g.openOp("load", 0, h, 0), {K: "close", H: h}}
			if g.Chance(.3) {
				s.Faults = g.faults(1, append(append(append([]target(nil), lockTargets...), cacheTargets...), loadTargets...), 6, false)
				s.Pre = append(s.Pre, g.openOp("load", 0, h+1, 0), Op{K: "close", H: h + 1})
				g.nh()
				r := g.nh()
				s2 := g.sess()
				s2.Pre = []Op{g.openOp("load", 0, r, 0), {K: "close", H: r}}
				p.Stages = append(p.Stages, Stage{Sess: []Session{s}}, Stage{Sess: []Session{s2}})
			} else {
				p.Stages = append(p.Stages, Stage{Sess: []Session{s}})
			}
		}
	}
	stages := 1 + g.Intn(2)
	side := g.Chance(.3)
	sideMade := map[int]bool{}
	for q := 0; q < stages; q++ {
		k := 1 + g.Intn(3)
		var st Stage
		slot := g.Intn(3)
		for i := 0; i < k; i++ {
			s := g.sess()
			s.Slot = (slot + i) % 3
			if g.Chance(.5) {
				s.Delay = g.LogN(20000000)
			}
			nc := 1 + g.Intn(3)
			for c := 0; c < nc; c++ {
				var ops []Op
				rounds := 1 + g.Intn(3)
				for r := 0; r < rounds; r++ {
					if side && g.Chance(.35) {
						// another key, by its side
						o := g.nh()
						x := 1 + i + 3*g.Intn(2)
						how := "load"
						if !sideMade[x] {
							how = "derive"
							sideMade[x] = true
						}
						ops = append(ops, g.openOp(how, x, o, 10+g.nh()))
						ops = append(ops, g.ops(o, g.Intn(2), mix{sign: 10, sleep: 6})...)
						if g.Chance(.8) {
							ops = append(ops, Op{K: "close", H: o})
						}
						if g.Chance(.5) {
							ops = append(ops, g.openOp("load", 0, g.nh(), 0))
						}
					}
					if g.Chance(.15) && !(deriveRace && q == 0) {
						ops = append(ops, Op{K: "signpath", Path: 0, N: g.alias(), Msg: g.nmsg(), Len: g.msgLen()})
						continue
					}
					h := g.nh()
					how := "load"
					if deriveRace && q == 0 {
						how = []string{"derive", "derive", "load", "generate"}[g.Intn(4)]
					} else if g.Chance(.06) {
						how = "derive"
					}
					ops = append(ops, g.openOp(how, 0, h, 10+g.nh()))
					ops = append(ops, g.ops(h, g.Intn(3), mix{sign: 10, borrow: 3, seqno: 1, sleep: 6, precompute: 1})...)
					if g.Chance(.85) {
						ops = append(ops, Op{K: "close", H: h})
						if g.Chance(.15) {
							ops = append(ops, Op{K: "close", H: h})
						}
					}
				}
				s.Clients = append(s.Clients, ops)
			}
			if risky && g.Chance(.3) && i == 0 {
				s.Crash = g.crash(.2, true)
			}
			if g.Chance(.12) {
				s.Faults = g.faults(1, append(append(append([]target(nil), lockTargets...), cacheTargets...), loadTargets...), 12, g.Chance(.5))
			}
			st.Sess = append(st.Sess, s)
		}
		if risky && g.Chance(.2) {
			st.Damage = append(st.Damage, Damage{Kind: "lockjunk", N: g.Intn(6)})
		}
		p.Stages = append(p.Stages, st)
	}
	if risky && g.Chance(.1) {
		// the dead process's number is used again
		for i := range p.Stages {
			p.Stages[i].Sess[0].Pid = 4242
		}
	}
}

// jumps has the key moved forward while it is in use.
func (g *gen) jumps(s *Session, h int) {
	if len(s.Clients) == 0 {
		return
	}
	for n := 1 + g.Intn(2); n > 0; n-- {
		o := Op{K: "skip", H: h, Key: 1, N: uint64(g.Pick(0, 1, 2, 3, 5, 16, 100))}
		if g.Chance(.2) {
			o.N, o.Len = uint64(g.LogN(1<<40)), 1
		}
		i := g.Intn(len(s.Clients))
		c := s.Clients[i]
		j := g.Intn(len(c) + 1)
		s.Clients[i] = append(append(append([]Op(nil), c[:j]...), o), c[j:]...)
	}
}

// jumpy are parameters of keys with room to move.
func (g *gen) jumpy() simapi.Params {
	hd := [][2]uint32{{10, 5}, {12, 6}, {12, 12}, {20, 10}, {9, 3}, {36, 18}}[g.Intn(6)]
	return simapi.Params{Func: uint8(g.Pick(0, 1)), N: 16, H: hd[0], D: hd[1], W: 4, Prf: uint8(g.Pick(0, 1))}
}

// stale: numbers are lost with a process, so that the subtrees it left in the
// cache are of no use any more, and dropping them fails as the key is loaded.
func (g *gen) stale(store bool) {
	p := g.p
	hd := [][2]uint32{{2, 2}, {4, 2}, {6, 3}, {6, 2}, {3, 3}, {4, 1}}[g.Intn(6)]
	p.Params = g.fam(hd[0], hd[1])
	if g.Chance(.7) {
		p.Params.N, p.Params.W = 16, 4
	}
	th := uint64(1) << (hd[0] / hd[1])
	path, how, load := 0, "derive", "load"
	if store {
		path, how, load = 100, "memderive", "memload"
	}
	m := mix{sign: 30, signr: 2, borrow: 4, precompute: 3, seqno: 1, unretired: 1, cached: 1}
	n := 2 + g.Intn(3)
	for i := 0; i < n; i++ {
		s := g.sess()
		h := g.nh()
		w := load
		if i == 0 {
			w = how
		}
		s.Pre = []Op{g.openOp(w, path, h, g.Intn(10))}
		if g.Chance(.6) {
			s.Pre = append(s.Pre, Op{K: "precompute", H: h})
		}
		if i < n-1 {
			s.Pre = append(s.Pre, Op{K: "borrow", H: h, N: 1 + uint64(g.Intn(int(2*th)))})
		}
		s.Clients = g.clients(h, 1+g.Intn(2), 1+g.Intn(6), m)
		if i == n-1 || g.Chance(.2) {
			s.Post = g.end(h, .9)
		}
		if i > 0 && g.Chance(.8) {
			ts := []target{{"mmap", ".cache"}, {"mmap", ".cache"}, {"mmap", ".cache"}, {"munmap", ".cache"}, {"any", ".cache"}}
			if store {
				ts = []target{{"store.DropSubTree", ""}, {"store.DropSubTree", ""}, {"store.GetSubTree", ""}, {"store", ""}}
			}
			s.Faults = g.faults(1+g.Intn(2), ts, 4, false)
		}
		p.Stages = append(p.Stages, Stage{Sess: []Session{s}})
	}
}

func genC09(g *gen) {
	if g.Chance(.05) {
		g.stale(g.Chance(.3))
		return
	}
	if g.Chance(.35) {
		g.burst(g.Chance(.3), .8, .6, []string{"erase", "erase", "flipslot", "slothead"})
		return
	}
	if g.Chance(.75) {
		g.p.Params = g.fast()
	}
	m := stdMix
	m.precompute = 6
	l := life{maxStages: 3, clients: 4, ops: 14, m: m, pClose: .8, tail: 5, pPre: .5}
	switch g.Intn(10) {
	case 0, 1:
		l.pFault, l.targets, l.faultMax = .9, cacheTargets, 30
	case 2, 3:
		l.pFault, l.targets, l.faultMax = .9, append(append(append(append([]target(nil), cacheTargets...), bookTargets...), loadTargets...), lockTargets...), 40
	case 4:
		l.store, l.pFault, l.targets, l.faultMax = true, .8, storeTargets, 50
	case 5:
		l.pDamage, l.damages = .8, cacheDamages
	case 6:
		l.pCrash, l.pPower = .5, .4
	case 7:
		l.far = true
		l.maxStages = 2
	case 8:
		g.p.Params, l.jump = g.jumpy(), true
	}
	g.life(l)
	// close while others are still at it
	if g.Chance(.5) {
		for i := range g.p.Stages {
			s := &g.p.Stages[i].Sess[0]
			if len(s.Clients) == 0 || len(s.Pre) == 0 || s.Pre[0].K != "open" {
				continue
			}
			h := s.Pre[0].H
			var ops []Op
			if g.Chance(.6) {
				ops = append(ops, Op{K: "sleep", N: uint64(g.LogN(10000000))})
			}
			if g.Chance(.5) {
				ops = append(ops, g.ops(h, 1+g.Intn(3), m)...)
			}
			ops = append(ops, Op{K: "close", H: h})
			s.Clients = append(s.Clients, ops)
			if g.Chance(.3) {
				s.Clients = append(s.Clients, []Op{{K: "close", H: h}})
			}
		}
	}
}

func genC10(g *gen) {
	p := g.p
	p.Params = g.fast()
	jumps := g.Chance(.12)
	if jumps {
		p.Params = g.jumpy()
	}
	path, how, load := 0, "derive", "load"
	if g.Chance(.25) {
		path, how, load = 100, "memderive", "memload"
	}
	m := mix{sign: 30, signr: 6, failr: 3, unretired: 6, cached: 2, borrow: 3, sleep: 2}
	if !jumps && g.Chance(.35) {
		// far positions
		p.Params = g.tall()
		s := g.sess()
		s.Pre = []Op{{K: "seed", Path: path, Key: g.Intn(6), N: g.farPos(p.Params)}}
		p.Stages = append(p.Stages, Stage{Sess: []Session{s}, After: "settle"})
		how = load
	}
	n := 1 + g.Intn(3)
	for i := 0; i < n; i++ {
		s := g.sess()
		h := g.nh()
		w := load
		if i == 0 {
			w = how
		}
		s.Pre = []Op{g.openOp(w, path, h, g.Intn(20))}
		pre := g.Chance(.5)
		if pre {
			s.Pre = append(s.Pre, Op{K: "precompute", H: h})
		}
		k := g.Pick(1, 1, 2, 3, 4)
		s.Clients = g.clients(h, k, 3+g.Intn(18), m)
		if jumps {
			g.jumps(&s, h)
		}
		slots := uint64(0)
		if !jumps && k == 1 && i == 0 && w == how && how == "derive" {
			// current path, next subtree path, and one being replaced each
			slots = uint64(3*p.Params.D + 1)
		}
		s.Post = []Op{{K: "settle", H: h, How: "bound", N: slots}}
		if g.Chance(.5) {
			s.Post = append(s.Post, g.ops(h, 1+g.Intn(5), m)...)
			s.Post = append(s.Post, Op{K: "settle", H: h, How: "bound"})
		}
		closed := g.Chance(.8)
		if closed {
			s.Post = append(s.Post, Op{K: "close", H: h})
			if path == 0 && !jumps && g.Chance(.5) {
				s.Post = append(s.Post, Op{K: "ctrlist", Path: 0})
			}
		}
		p.Stages = append(p.Stages, Stage{Sess: []Session{s}})
		if !closed {
			break
		}
	}
}

// genC27: precomputation, without faults.
func genC27(g *gen) {
	p := g.p
	hd := [][2]uint32{{6, 2}, {8, 2}, {9, 3}, {12, 4}, {6, 3}, {4, 2}, {3, 3}, {4, 4}, {12, 3}}[g.Intn(9)]
	p.Params = simapi.Params{Func: uint8(g.Pick(0, 1)), N: uint32(g.Pick(16, 16, 24)), H: hd[0], D: hd[1], W: uint16(g.Pick(4, 4, 16)), Prf: uint8(g.Pick(0, 1))}
	if g.Chance(.15) {
		p.Params = g.tall()
	}
	th := uint64(1) << (p.Params.H / p.Params.D)
	path, how, load := 0, "derive", "load"
	if g.Chance(.5) {
		path, how, load = 100, "memderive", "memload"
	}
	if g.Chance(.6) {
		// near where a subtree of the bottom or of a higher layer ends, or anywhere
		s := g.sess()
		var pos uint64
		switch g.Intn(3) {
		case 0:
			sz := uint64(1) << (p.Params.H / p.Params.D * uint32(1+g.Intn(int(p.Params.D))))
			pos = sz * uint64(1+g.Intn(int(th))) // might be past the end
			pos -= 1 + uint64(g.Intn(int(th)))
		case 1:
			pos = g.Uint64()
		case 2:
			pos = g.farPos(p.Params)
		}
		pos &= 1<<p.Params.H - 1
		s.Pre = []Op{{K: "seed", Path: path, Key: g.Intn(6), N: pos}}
		p.Stages = append(p.Stages, Stage{Sess: []Session{s}, After: "settle"})
		how = load
	}
	m := mix{sign: 30, signr: 4, failr: 3, borrow: 2, borrowif: 2, seqno: 1, cached: 2, sleep: 2}
	n := 1 + g.Intn(3)
	for i := 0; i < n; i++ {
		s := g.sess()
		h := g.nh()
		w := load
		if i == 0 {
			w = how
		}
		s.Pre = []Op{g.openOp(w, path, h, g.Intn(20))}
		if g.Chance(.3) {
			s.Pre = append(s.Pre, Op{K: "sign", H: h, Msg: g.nmsg()})
		}
		if g.Chance(.8) {
			s.Pre = append(s.Pre, Op{K: "precompute", H: h})
		}
		k := g.Pick(1, 2, 3, 4)
		ops := func(c, n int) {
			s.Clients = g.clients(h, c, n, m)
			if len(s.Clients) > 0 && g.Chance(.5) {
				c := g.Intn(len(s.Clients))
				l := s.Clients[c]
				j := g.Intn(len(l) + 1)
				s.Clients[c] = append(l[:j:j], append([]Op{{K: "precompute", H: h}}, l[j:]...)...)
			}
		}
		ops(k, 1+g.Intn(8))
		fast := func() {
			s.Post = append(s.Post, Op{K: "settle", H: h})
			for j := 1 + g.Intn(int(th)+3); j > 0; j-- {
				switch g.Intn(12) {
				case 0:
					s.Post = append(s.Post, Op{K: "settle", H: h})
				case 1:
					s.Post = append(s.Post, Op{K: "borrow", H: h, N: uint64(g.Intn(5))})
				case 2:
					s.Post = append(s.Post, Op{K: "precompute", H: h})
				case 3:
					s.Post = append(s.Post, Op{K: "sleep", N: uint64(g.LogN(1000000))})
				case 4:
					s.Post = append(s.Post, Op{K: "sign", H: h, Msg: g.nmsg()})
				}
				s.Post = append(s.Post, Op{K: "signfast", H: h, Msg: g.nmsg()})
			}
		}
		fast()
		if g.Chance(.5) {
			s.Post = append(s.Post, g.ops(h, 1+g.Intn(int(th)+2), m)...)
			fast()
		}
		s.Post = append(s.Post, Op{K: "settle", H: h, How: "bound"})
		if i < n-1 && g.Chance(.2) {
			// everything but the key may be lost
			s.Crash = &Crash{Kind: []string{"kill", "power"}[g.Intn(2)], Mode: "step", N: g.LogN(400000)}
		} else if g.Chance(.8) {
			s.Post = append(s.Post, Op{K: "close", H: h})
		} else {
			n = 0
		}
		st := Stage{Sess: []Session{s}}
		for g.Chance(.3) {
			d := []string{"flip", "flipslot", "flip", "erase", "swap", "copyslot"}[g.Intn(6)]
			st.Damage = append(st.Damage, Damage{Kind: d, Path: path, Pos: g.Intn(1 << 20), N: g.Intn(1 << 16), Seed: g.Uint64()})
		}
		p.Stages = append(p.Stages, st)
	}
}

func genC11(g *gen) {
	p := g.p
	if g.Chance(.1) {
		g.burst(g.Chance(.2), .3, .7, []string{"erase", "flipslot", "swap"})
		p.NoEpi = true
		return
	}
	if g.Chance(.2) {
		// several keys, often made from one Context
		genC26(g)
		shared := g.Chance(.6)
		for i := range p.Stages {
			for j := range p.Stages[i].Sess {
				s := &p.Stages[i].Sess[j]
				s.Shared = shared
				if g.Chance(.4) {
					// opened at the same time
					for _, o := range s.Pre {
						if o.K == "open" {
							s.Clients = append(s.Clients, []Op{o, {K: "verify", H: g.Intn(8), Key: g.Intn(8), How: "shared"}})
						}
					}
					s.Pre = nil
				}
			}
		}
		p.Policy = zrt.Policy{PSync: []float64{.05, .2, .5}[g.Intn(3)]}
		p.NoEpi = true
		return
	}
	p.Params = g.fast()
	p.Policy = zrt.Policy{PSync: []float64{.05, .2, .5}[g.Intn(3)]}
	switch g.Intn(4) {
	case 0:
		p.Policy = zrt.Policy{PSync: .1, Arms: 10}
	case 1:
		p.Policy = zrt.Policy{PSync: .02, Mean: 50 + g.LogN(5000)}
	}
	if g.Chance(.1) {
		p.Params.H, p.Params.D = 6, 1
	}
	m := mix{sign: 20, signr: 6, failr: 1, borrow: 4, borrowif: 4, seqno: 6, borrowed: 6, unretired: 4, cached: 6, describe: 6, pubkey: 4, precompute: 4, sleep: 2, vfy: 6}
	l := life{maxStages: 2, clients: 4, ops: 18, m: m, pClose: .8, tail: 2, pPre: .3}
	if g.Chance(.15) {
		l.pFault, l.targets, l.faultMax = .5, append(append([]target(nil), cacheTargets...), bookTargets...), 30
	}
	if g.Chance(.2) {
		l.pDamage, l.damages = .9, []string{"flipslot", "flip", "swap", "erase"}
	}
	if g.Chance(.15) {
		l.store = true
	}
	if g.Chance(.12) {
		g.p.Params, l.jump = g.jumpy(), true
	}
	g.life(l)
	// sharing public keys
	if g.Chance(.5) {
		for i := range p.Stages {
			s := &p.Stages[i].Sess[0]
			for j := range s.Clients {
				for k := 0; k < 1+g.Intn(3); k++ {
					o := Op{K: "verify", H: g.Intn(8), Key: g.Intn(8), How: "shared"}
					if g.Chance(.4) {
						o = Op{K: "vdescribe", H: g.Intn(8)}
					}
					s.Clients[j] = append(s.Clients[j], o)
				}
			}
			if g.Chance(.4) && len(s.Pre) > 0 {
				s.Clients = append(s.Clients, []Op{{K: "sleep", N: uint64(g.LogN(10000000))}, {K: "close", H: s.Pre[0].H}})
			}
		}
	}
	p.NoEpi = true
}

var sigDamages = []string{"flip", "flip", "flip", "flip", "flip", "fliphead", "fliphead", "trunc", "trunc", "trunchead", "truncone", "extend", "zero", "zerotail", "torn", "swapblocks", "params", "params", "paramset", "other", "empty", "dup", "cutmiddle", "index", "index"}

func genC12(g *gen) {
	p := g.p
	s := g.sess()
	keys := 1 + g.Intn(2)
	if g.Chance(.25) {
		p.Params = g.tall()
	}
	var pre []Op
	var vs [][]Op
	for k := 0; k < keys; k++ {
		h := g.nh()
		var pars *simapi.Params
		if k > 0 && g.Chance(.5) {
			q := g.small()
			// relatives of the first key's parameters are the most confusable
			if g.Chance(.6) {
				q = p.Params
				switch g.Intn(4) {
				case 0:
					q.Func = (q.Func + 1) % 3
				case 1:
					q.Prf ^= 1
				case 2:
					if q.H < 30 && q.D == 1 {
						q.H++
					}
				case 3:
					q.N = uint32(g.Pick(16, 24, 32, 64))
				}
			}
			pars = &q
		}
		var o Op
		if p.Params.H > 30 && pars == nil {
			pre = append(pre, Op{K: "seed", Path: k, Key: 30 + k, N: g.farPos(p.Params)})
			o = g.openOp("load", k, h, 30+k)
		} else {
			o = g.openOp("derive", k, h, 30+k)
			o.P = pars
		}
		pre = append(pre, o)
		n := 1 + g.Intn(3)
		for i := 0; i < n; i++ {
			pre = append(pre, Op{K: "sign", H: h, Msg: g.nmsg(), Len: g.msgLen()})
		}
		pre = append(pre, Op{K: "close", H: h})
	}
	s.Pre = pre
	p.Stages = append(p.Stages, Stage{Sess: []Session{s}})
	v := g.sess()
	nc := 1 + g.Intn(3)
	for c := 0; c < nc; c++ {
		var ops []Op
		n := 4 + g.Intn(16)
		for i := 0; i < n; i++ {
			o := Op{K: "verify", H: g.Intn(64), Key: g.Intn(64), How: []string{"", "", "shared", "stream"}[g.Intn(4)], R: g.rdr(false, 0)}
			if g.Chance(.85) {
				d := &SigDamage{What: []string{"sig", "sig", "sig", "sig", "sig", "msg", "pk", "pk", "pktext", "mix"}[g.Intn(10)], Kind: sigDamages[g.Intn(len(sigDamages))], Pos: g.Intn(1 << 20), Bit: g.Intn(32), N: g.Intn(64), Seed: g.Uint64()}
				if d.Kind == "swapblocks" {
					d.N = int(p.Params.N)
				}
				o.D = d
			}
			ops = append(ops, o)
		}
		vs = append(vs, ops)
	}
	v.Clients = vs
	p.Stages = append(p.Stages, Stage{Sess: []Session{v}})
	p.NoEpi = true
}

func genC13(g *gen) {
	p := g.p
	if g.Chance(.5) {
		p.Params = g.fast()
	}
	path, how := 0, "derive"
	if g.Chance(.15) {
		path, how = 100, "memderive"
	}
	n := 1 + g.Intn(2)
	for i := 0; i < n; i++ {
		s := g.sess()
		h := g.nh()
		if i > 0 {
			how = map[string]string{"derive": "load", "memderive": "memload"}[how]
		}
		s.Pre = []Op{g.openOp(how, path, h, g.Intn(20))}
		nc := 1 + g.Intn(3)
		for c := 0; c < nc; c++ {
			var ops []Op
			for k := 0; k < 2+g.Intn(6); k++ {
				switch g.Intn(8) {
				case 0, 1, 2:
					ops = append(ops, g.op(h, mix{signr: 1}))
					if g.Chance(.15) {
						g.big(&ops[len(ops)-1])
					}
				case 3, 4:
					ops = append(ops, g.op(h, mix{failr: 1}))
					if g.Chance(.15) {
						g.big(&ops[len(ops)-1])
					}
				case 5:
					ops = append(ops, g.op(h, mix{borrow: 2, sign: 2, unretired: 1}))
					if o := &ops[len(ops)-1]; o.K == "sign" && g.Chance(.2) {
						g.big(o)
					}
				default:
					o := Op{K: "verify", How: "stream", H: g.Intn(64), Key: g.Intn(64), R: g.rdr(g.Chance(.4), 300)}
					if o.R.FailAt >= 0 && g.Chance(.3) {
						o.R.FailAt = g.Pick(512, 1024, 4096, 8192, 32768, 65536, 131072)
					}
					if o.R.FailAt < 0 && g.Chance(.3) {
						o.D = &SigDamage{What: "msg", Kind: []string{"flip", "truncone", "extend", "trunc", "dup", "cutmiddle", "empty"}[g.Intn(7)], Pos: g.Intn(1 << 20), Bit: g.Intn(8), N: g.Intn(64), Seed: g.Uint64()}
					}
					ops = append(ops, o)
				}
			}
			s.Clients = append(s.Clients, ops)
		}
		s.Post = append([]Op{{K: "settle", H: h}}, g.end(h, .8)...)
		p.Stages = append(p.Stages, Stage{Sess: []Session{s}})
	}
}

func genC14(g *gen) {
	p := g.p
	p.Params = g.fast()
	if g.Chance(.3) {
		p.Params.N = uint32(g.Pick(24, 32, 64))
	}
	n := 1 + g.Intn(3)
	for i := 0; i < n; i++ {
		var st Stage
		k := g.Pick(1, 1, 2, 3)
		for j := 0; j < k; j++ {
			s := g.sess()
			s.Slot = j
			nc := 1 + g.Intn(3)
			for c := 0; c < nc; c++ {
				var ops []Op
				for q := 0; q < 1+g.Intn(3); q++ {
					path := g.Intn(5)
					h := g.nh()
					how := "generate"
					if g.Chance(.15) {
						how = "load"
					} else if g.Chance(.1) {
						how = "derive"
					} else if g.Chance(.15) {
						how = "genalg"
					}
					ops = append(ops, g.openOp(how, path, h, 60+h))
					ops = append(ops, g.ops(h, g.Intn(3), mix{sign: 1})...)
					if g.Chance(.9) {
						ops = append(ops, Op{K: "close", H: h})
					}
				}
				s.Clients = append(s.Clients, ops)
			}
			if g.Chance(.6) {
				for q := 0; q < 1+g.Intn(2); q++ {
					f := Fault{Kind: "entropy", Nth: 1 + g.Intn(8)}
					switch g.Intn(4) {
					case 0:
						f.Short = g.Intn(1000)
						f.Count = 1 + g.Intn(4)
					case 1:
						f.Err = int(syscall.EIO)
						f.Short = g.Intn(1000)
					case 2:
						f.Err = int(syscall.EAGAIN)
						f.Count = 1 + g.Intn(3)
					case 3:
						f.Err = int(syscall.EIO)
						f.Count = 1000000
					}
					s.Faults = append(s.Faults, f)
				}
			}
			st.Sess = append(st.Sess, s)
		}
		p.Stages = append(p.Stages, st)
	}
}

// openTargets are the calls of a store made when a key is opened.
var openTargets = []target{{"store.ResetCache", ""}, {"store.ResetCache", ""}, {"store.ListSubTrees", ""}, {"store.GetSeqNo", ""}, {"store.GetPrivateKey", ""}, {"store.GetSubTree", ""}}

func genC15(g *gen) {
	if g.Chance(.05) {
		g.stale(true)
		return
	}
	if g.Chance(.2) {
		g.burst(true, .8, .6, nil)
		return
	}
	if g.Chance(.12) {
		// short sessions: the cache is gone, and opening the key fails
		g.p.Params = g.fast()
		g.life(life{store: true, maxStages: 6, clients: 1, ops: 3, m: stdMix, pClose: .7, pDamage: .9, damages: []string{"erase"}, pFault: .9, targets: openTargets, faultMax: 2})
		return
	}
	if g.Chance(.7) {
		g.p.Params = g.fast()
	}
	m := stdMix
	m.precompute = 4
	l := life{store: true, maxStages: 4, clients: 4, ops: 14, m: m, pClose: .8, tail: 4, pPre: .4}
	switch g.Intn(7) {
	case 0, 1, 2:
		l.pFault, l.targets, l.faultMax = .8, storeTargets, 60
	case 3:
		l.pDamage, l.damages = .8, []string{"erase", "swap", "flip", "flip"}
	case 4:
		// the cache is gone, and opening the key fails
		l.pDamage, l.damages = .9, []string{"erase"}
		l.pFault, l.targets, l.faultMax = .7, openTargets, 3
	case 5:
		l.far, l.maxStages = true, 2
	}
	g.life(l)
	for i := range g.p.Stages {
		s := &g.p.Stages[i].Sess[0]
		if g.Chance(.2) {
			s.Crash = &Crash{Kind: []string{"kill", "power"}[g.Intn(2)], Mode: "io", IO: "store", N: g.LogN(60), When: []string{"before", "after"}[g.Intn(2)], Arm: i == 0}
		}
		if g.Chance(.35) && len(s.Clients) > 0 && len(s.Pre) > 0 && s.Pre[0].K == "open" {
			s.Clients = append(s.Clients, []Op{{K: "sleep", N: uint64(g.LogN(20000000))}, {K: "close", H: s.Pre[0].H}})
		}
	}
}

func genC16(g *gen) {
	p := g.p
	hd := [][2]uint32{{1, 1}, {2, 1}, {2, 2}, {3, 3}, {3, 1}, {4, 2}}[g.Intn(6)]
	p.Params = g.fam(hd[0], hd[1])
	if g.Chance(.6) {
		p.Params.N, p.Params.W = 16, 4
	}
	path, how, load := 0, "derive", "load"
	if g.Chance(.2) {
		path, how, load = 100, "memderive", "memload"
	}
	if g.Chance(.5) {
		// close to the end
		if g.Chance(.5) {
			p.Params = g.tall()
		}
		s := g.sess()
		max := uint64(1) << p.Params.H
		d := uint64(1 + g.Intn(7))
		if d > max {
			d = max
		}
		s.Pre = []Op{{K: "seed", Path: path, Key: g.Intn(6), N: max - d}}
		p.Stages = append(p.Stages, Stage{Sess: []Session{s}, After: "settle"})
		how = load
	}
	m := mix{sign: 30, signr: 3, borrow: 5, borrowif: 4, seqno: 2, borrowed: 2, unretired: 2, precompute: 4, sleep: 1, vfy: 2}
	n := 1 + g.Intn(4)
	for i := 0; i < n; i++ {
		s := g.sess()
		h := g.nh()
		w := load
		if i == 0 {
			w = how
		}
		s.Pre = []Op{g.openOp(w, path, h, g.Intn(10))}
		if g.Chance(.4) {
			s.Pre = append(s.Pre, Op{K: "precompute", H: h})
		}
		s.Clients = g.clients(h, 1+g.Intn(4), 2+g.Intn(14), m)
		for _, c := range s.Clients {
			for j := range c {
				if (c[j].K == "borrow" || c[j].K == "borrowif") && g.Chance(.3) {
					c[j].N = uint64(g.Pick(8, 16, 100, 1<<20, 1<<32-1))
				}
			}
		}
		s.Post = append(g.ops(h, g.Intn(3), m), g.end(h, .8)...)
		if g.Chance(.15) {
			g.skips(&s, h)
		}
		if g.Chance(.2) {
			s.Crash = g.crash(.5, true)
		}
		if g.Chance(.15) {
			s.Faults = g.faults(1, bookTargets, 20, true)
		}
		p.Stages = append(p.Stages, Stage{Sess: []Session{s}})
	}
}

func genC17(g *gen) {
	p := g.p
	g.pages = true
	if g.Chance(.35) {
		// the file store by itself
		p.Params = g.small()
		if g.Chance(.5) {
			p.Params = g.fam(uint32(g.Pick(5, 6, 7, 8)), 1)
			p.Params.D = 1
		}
		p.NoEpi = true
		n := 1 + g.Intn(4)
		for i := 0; i < n; i++ {
			s := g.sess()
			s.Pre = []Op{{K: "ctrfuzz", Path: 0, N: g.Uint64()}}
			st := Stage{Sess: []Session{s}}
			if i > 0 && g.Chance(.3) {
				st.Damage = []Damage{{Kind: []string{"v0", "align0", "v0"}[g.Intn(3)]}}
			}
			p.Stages = append(p.Stages, st)
		}
		return
	}
	if g.Chance(.5) {
		p.Params = g.fast()
	}
	m := signMix
	n := 2 + g.Intn(3)
	how := "derive"
	key := g.Intn(20)
	if g.Chance(.15) {
		p.Params = g.tall()
		s := g.sess()
		s.Pre = []Op{{K: "seed", Path: 0, Key: g.Intn(6), N: g.farPos(p.Params)}}
		p.Stages = append(p.Stages, Stage{Sess: []Session{s}, After: "settle"})
		how = "load"
	}
	for i := 0; i < n; i++ {
		s := g.sess()
		h := g.nh()
		s.Pre = nil
		if i > 0 && g.Chance(.6) {
			s.Pre = append(s.Pre, Op{K: "ctrcmp", Path: 0})
		}
		s.Pre = append(s.Pre, g.openOp(how, 0, h, key))
		how = "load"
		if g.Chance(.3) {
			s.Pre = append(s.Pre, Op{K: "precompute", H: h})
		}
		s.Clients = g.clients(h, 1+g.Intn(3), 1+g.Intn(8), m)
		s.Post = []Op{{K: "settle", H: h}, {K: "close", H: h}, {K: "ctrsnap", Path: 0}}
		st := Stage{Sess: []Session{s}}
		if i > 0 && g.Chance(.5) {
			st.Damage = []Damage{{Kind: []string{"v0", "align0", "v0"}[g.Intn(3)]}}
		}
		p.Stages = append(p.Stages, st)
	}
}

func genC18(g *gen) {
	p := g.p
	if g.Chance(.85) {
		p.Params = g.fast()
		if g.Chance(.5) {
			p.Params.H, p.Params.D = uint32(g.Pick(2, 3, 4, 6)), 1
			if p.Params.H > 3 {
				p.Params.D = 2
			}
		}
	}
	jumps := g.Chance(.2)
	if jumps {
		p.Params = g.jumpy()
	}
	path, how, load := 0, "derive", "load"
	if g.Chance(.2) {
		path, how, load = 100, "memderive", "memload"
	}
	m := mix{sign: 16, signr: 3, failr: 1, borrow: 8, borrowif: 9, seqno: 7, borrowed: 8, unretired: 3, sleep: 2, precompute: 1}
	n := 1 + g.Intn(2)
	for i := 0; i < n; i++ {
		s := g.sess()
		h := g.nh()
		w := load
		if i == 0 {
			w = how
		}
		s.Pre = []Op{g.openOp(w, path, h, g.Intn(20))}
		s.Clients = g.clients(h, 2+g.Intn(4), 6+g.Intn(22), m)
		s.Post = g.end(h, .8)
		if g.Chance(.1) {
			s.Post = append(g.ops(h, 1+g.Intn(6), m), s.Post...)
			g.skips(&s, h)
		}
		if jumps {
			g.jumps(&s, h)
		}
		p.Stages = append(p.Stages, Stage{Sess: []Session{s}})
	}
}

func genC19(g *gen) {
	switch g.Intn(4) {
	case 0:
		genC04(g)
		return
	case 1:
		genC14(g)
		return
	}
	if g.Chance(.7) {
		g.p.Params = g.fast()
	}
	l := life{maxStages: 4, clients: 2, ops: 8, m: stdMix, pClose: .6, tail: 2, pCrash: .5, pPower: .4, pAfterPower: .2, pDamage: .4, damages: []string{"erase", "garbage", "empty", "truncate", "tmpjunk"}}
	if g.Chance(.4) {
		l.pFault, l.targets, l.faultMax = .6, append(append(append([]target(nil), bookTargets...), cacheTargets...), lockTargets...), 25
	}
	g.life(l)
}
