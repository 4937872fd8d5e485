package h

import (
	"fmt"

	"github.com/bwesterb/go-xmssmt/zsim/simapi"
)

// genC26: several keys in one process, some of them in trouble.
func genC26(g *gen) {
	p := g.p
	p.Params = g.fast()
	nk := 2 + g.Intn(3)
	shared := g.Chance(.6)
	type key struct {
		path, seed int
		par        *simapi.Params
		t          uint32
		load       string
		made       bool
	}
	var ks []*key
	t := g.threads()
	for i := 0; i < nk; i++ {
		k := &key{path: i, seed: g.Intn(20), t: t, load: "load"}
		if !shared && g.Chance(.5) || g.Chance(.2) {
			q := g.fast()
			k.par = &q
		}
		if g.Chance(.3) {
			k.t = g.threads()
		}
		if g.Chance(.15) {
			k.path, k.load = 100+i, "memload"
		}
		ks = append(ks, k)
	}
	if g.Chance(.25) {
		// two keys with the same public seed
		ks[0].seed, ks[nk-1].seed = 17, 18
		ks[nk-1].par = ks[0].par
	}
	m := stdMix
	m.vfy = 3
	n := 1 + g.Intn(3)
	for i := 0; i < n; i++ {
		st := Stage{}
		sessions := 1
		if g.Chance(.25) {
			sessions = 2
		}
		owner := make([]int, nk)
		for k := range owner {
			owner[k] = g.Intn(sessions)
		}
		slot := g.Intn(3)
		for j := 0; j < sessions; j++ {
			s := g.sess()
			s.Slot = (slot + j) % 3
			s.Shared = shared
			var hs []int
			var mine []*key
			for k, o := range owner {
				if o != j {
					continue
				}
				kk := ks[k]
				h := g.nh()
				how := kk.load
				if !kk.made {
					how = "derive"
					if kk.load == "memload" {
						how = "memderive"
					}
					if kk.path < 100 && g.Chance(.15) {
						how = "generate"
					}
					kk.made = true
				}
				op := Op{K: "open", How: how, Path: kk.path, H: h, Key: kk.seed, N: g.alias(), T: kk.t, P: kk.par}
				mine = append(mine, kk)
				hs = append(hs, h)
				if g.Chance(.3) {
					// opened while others are in use
					l := []Op{op}
					if g.Chance(.5) {
						l = append([]Op{{K: "sleep", N: uint64(g.LogN(5000000))}}, l...)
					}
					if g.Chance(.3) {
						l = append(l, Op{K: "precompute", H: h})
					}
					l = append(l, g.ops(h, 1+g.Intn(6), m)...)
					if g.Chance(.5) {
						l = append(l, Op{K: "close", H: h})
						if g.Chance(.4) && kk.path < 100 {
							l = append(l, Op{K: "signpath", Path: kk.path, Msg: g.nmsg(), Len: 9})
						}
					}
					s.Clients = append(s.Clients, l)
					continue
				}
				s.Pre = append(s.Pre, op)
				if g.Chance(.3) {
					s.Pre = append(s.Pre, Op{K: "precompute", H: h})
				}
				for c := 1 + g.Intn(2); c > 0; c-- {
					s.Clients = append(s.Clients, g.ops(h, 1+g.Intn(7), m))
				}
			}
			if len(hs) == 0 {
				continue
			}
			// a client that goes from key to key
			if g.Chance(.5) {
				var l []Op
				for c := 2 + g.Intn(8); c > 0; c-- {
					l = append(l, g.op(hs[g.Intn(len(hs))], m))
				}
				s.Clients = append(s.Clients, l)
			}
			// opened although it is open already
			if g.Chance(.25) {
				var l []Op
				for c := 1 + g.Intn(4); c > 0; c-- {
					if kk := ks[g.Intn(nk)]; kk.path < 100 && kk.made {
						l = append(l, Op{K: "sleep", N: uint64(g.LogN(5000000))}, Op{K: "open", How: "load", Path: kk.path, H: g.nh(), T: kk.t})
					}
				}
				s.Clients = append(s.Clients, l)
			}
			for _, h := range hs {
				if g.Chance(.3) {
					s.Post = append(s.Post, g.ops(h, 1+g.Intn(3), m)...)
				}
			}
			for _, h := range hs {
				s.Post = append(s.Post, g.end(h, .7)...)
			}
			if g.Chance(.2) {
				s.Crash = g.crash(.4, true)
			}
			if g.Chance(.6) {
				victim := mine[g.Intn(len(mine))]
				for c := 1 + g.Intn(3); c > 0 && victim.path < 100; c-- {
					f := g.fault([]target{{"any", ""}, {"any", ".cache"}, {"any", ".tmp"}, {"rename", ""}, {"sync", ".tmp"}, {"mmap", ".cache"}, {"any", ".lock"}}, 30)
					f.Path = fmt.Sprintf("/k%d%s", victim.path, f.Path)
					f.Arm = i == 0 || g.Chance(.5)
					s.Faults = append(s.Faults, f)
				}
			}
			st.Sess = append(st.Sess, s)
		}
		if g.Chance(.15) {
			st.After = "power"
		}
		if i > 0 && g.Chance(.2) {
			st.Damage = []Damage{{Kind: cacheDamages[g.Intn(len(cacheDamages))], Path: ks[g.Intn(nk)].path, Pos: g.Intn(1 << 20), N: g.Intn(1 << 16), Seed: g.Uint64()}}
		}
		p.Stages = append(p.Stages, st)
	}
}
