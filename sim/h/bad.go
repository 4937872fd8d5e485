package h

import (
	"bytes"

	"github.com/bwesterb/go-xmssmt/zsim/simapi"
	"github.com/bwesterb/go-xmssmt/zsim/zos"
	"github.com/bwesterb/go-xmssmt/zsim/zrt"
)

// badPath is used by one operation of a plan at most.
const badPath = 7

// bad lets the process meet what cannot be opened: files that are not complete
// keys, seeds of the wrong length, algorithms that do not exist.  Each of these
// fails, leaves what is there as it is, and does not keep the path locked.
func (c *client) bad(op *Op) {
	w := c.w
	ps := w.path(badPath)
	p := w.params(op)
	n := int(p.N)
	path := pathAlias(badPath, uint64(op.Len))
	threads := int(op.T)
	r := zrt.NewRNG(zrt.Mix(op.N))

	// begins a call, judges a call that has to fail
	var cl *call
	begin := func(how string) {
		o := *op
		o.How = how
		cl = w.begin(c.s, c.name, &o, nil)
		cl.path = ps
	}
	fails := func(what string, k simapi.Key, err *simapi.Error) bool {
		w.end(cl, err)
		if len(w.viol) > 0 {
			return false
		}
		if err == nil {
			w.fail("bad-accepted", "%s: %s succeeded", ps.name, what)
			return false
		}
		if w.faulted(cl) {
			return true
		}
		if err.Locked {
			w.fail("stuck-lock", "%s: %s, reported as locked (%s) although nobody has it open", ps.name, what, err.Msg)
			return false
		}
		return true
	}
	// a call that has to succeed, unless something failed
	works := func(what string, err *simapi.Error) bool {
		w.end(cl, err)
		if len(w.viol) > 0 {
			return false
		}
		if err == nil {
			return true
		}
		if !w.faulted(cl) {
			cls := "spurious-fail"
			if err.Locked {
				cls = "stuck-lock"
			}
			w.fail(cls, "%s: %s failed: %s", ps.name, what, err.Msg)
		}
		return false
	}
	unchanged := func(what string, before []byte, existed bool) bool {
		after, exists := zos.Peek(ps.name)
		if exists != existed || !bytes.Equal(before, after) {
			w.fail("bad-changed", "%s: %s failed but changed the key file", ps.name, what)
			return false
		}
		return true
	}
	closeKey := func(k simapi.Key) bool {
		begin("close")
		return works("closing", k.Close())
	}
	a, b, d := seeds(p, op.Key)
	good := func() bool {
		begin("derive")
		k, pk, err := c.s.lib.Derive(path, p, threads, append([]byte(nil), a...), append([]byte(nil), b...), append([]byte(nil), d...))
		if !works("deriving", err) {
			return false
		}
		if !bytes.Equal(pk, refKey(p, op.Key).PK()) {
			w.fail("wrong-pk", "%s: derive returned a public key that differs from the reference", ps.name)
			return false
		}
		return closeKey(k)
	}
	badSeeds := func() bool {
		x := [][]byte{append([]byte(nil), a...), append([]byte(nil), b...), append([]byte(nil), d...)}
		i := r.Intn(3)
		switch r.Intn(3) {
		case 0:
			x[i] = x[i][:r.Intn(n)]
		case 1:
			x[i] = append(x[i], make([]byte, 1+r.Intn(2*n))...)
		case 2:
			x[i] = nil
		}
		before, existed := zos.Peek(ps.name)
		begin("badderive")
		k, _, err := c.s.lib.Derive(path, p, threads, x[0], x[1], x[2])
		return fails("deriving from seeds of the wrong length", k, err) && unchanged("deriving from seeds of the wrong length", before, existed)
	}
	badAlg := func() bool {
		before, existed := zos.Peek(ps.name)
		begin("badalg")
		k, _, err := c.s.lib.GenerateAlg([]string{"", "XMSS", "XMSSMT-SHA2_4/3_256", "XMSS-MD5_10_256"}[r.Intn(4)], path)
		return fails("generating a key for an unknown algorithm", k, err) && unchanged("generating a key for an unknown algorithm", before, existed)
	}

	if r.Chance(.4) && !badSeeds() || r.Chance(.2) && !badAlg() || !good() {
		return
	}
	if r.Chance(.4) && !badSeeds() || r.Chance(.2) && !badAlg() {
		return
	}
	whole, ok := zos.Peek(ps.name)
	if !ok || len(whole) < 36+3*n {
		return
	}
	for i := 1 + r.Intn(3); i > 0; i-- {
		f := append([]byte(nil), whole...)
		what := "loading a damaged key file"
		switch r.Intn(4) {
		case 0:
			f = f[:r.Intn(len(f))]
			what = "loading a truncated key file"
		case 1:
			f = f[:[]int{0, 8, 23, 35, 36, 37, len(f) - 1}[r.Intn(7)]]
			what = "loading a truncated key file"
		case 2:
			f[r.Intn(8)] ^= 1 << uint(r.Intn(8))
			what = "loading a key file with a damaged first word"
		case 3:
			what = "loading a key file with impossible parameters"
			switch r.Intn(6) {
			case 0:
				f[8] |= 0x10 // hash function
			case 1:
				f[9+r.Intn(3)] ^= 1 << uint(r.Intn(8)) // hash size
			case 2:
				f[13+r.Intn(3)] ^= 1 << uint(r.Intn(8)) // height
			case 3:
				copy(f[17:], []byte{0, 0, 0, 0}) // number of layers
			case 4:
				f[21+r.Intn(2)] ^= 2 // Winternitz parameter
			case 5:
				f[23] |= 0x20 // PRF
			}
		}
		zos.Poke(ps.name, f)
		for j := 1 + r.Intn(2); j > 0; j-- {
			if r.Chance(.3) {
				begin("badsign")
				sig, err := c.s.lib.SignPath(path, []byte("x"))
				_ = sig
				if !fails(what+" to sign", nil, err) {
					return
				}
			} else {
				begin("badload")
				k, _, _, err := c.s.lib.Load(path)
				if !fails(what, k, err) {
					return
				}
			}
		}
		zos.Poke(ps.name, whole)
	}
	begin("load")
	k, pk, lost, err := c.s.lib.Load(path)
	if !works("loading the undamaged key again", err) {
		return
	}
	if !bytes.Equal(pk, refKey(p, op.Key).PK()) {
		w.fail("wrong-pk", "%s: loaded with a public key that differs from the reference", ps.name)
		return
	}
	if lost != 0 || k.SeqNo() != 0 {
		w.fail("seq-gap", "%s: a key that was never used is loaded at %d with %d lost signatures", ps.name, k.SeqNo(), lost)
		return
	}
	if closeKey(k) {
		w.counts["failing opens checked"]++
	}
}

// badOpens adds such an operation to a session of the plan.
func (g *gen) badOpens(pr float64) {
	if !g.Chance(pr) || len(g.p.Stages) == 0 {
		return
	}
	st := &g.p.Stages[g.Intn(len(g.p.Stages))]
	s := &st.Sess[g.Intn(len(st.Sess))]
	o := Op{K: "bad", Key: 9, T: uint32(g.Intn(4)), N: g.Uint64(), Len: g.Intn(8)}
	switch {
	case g.Chance(.4):
		s.Pre = append([]Op{o}, s.Pre...)
	case len(s.Clients) > 0 && g.Chance(.6):
		i := g.Intn(len(s.Clients))
		s.Clients[i] = append([]Op{o}, s.Clients[i]...)
	default:
		s.Post = append(s.Post, o)
	}
}
