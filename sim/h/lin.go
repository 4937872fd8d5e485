package h

import (
	"fmt"
	"math"
	"time"

	"github.com/anishathalye/porcupine"
)

type linState struct{ seq, b uint64 }

type linIn struct {
	k     string
	n, t  uint64
	init  linState
	last  uint64
	fails bool // the call's own stream fails
}

type linOut struct {
	ok  bool
	v   uint64
	end bool
}

// model of a key's counters; sets of states because a failed call may or may
// not have used a number.
var linModel = porcupine.NondeterministicModel{
	Init: func() []interface{} { return []interface{}{linState{math.MaxUint64, 0}} },
	Step: func(st, in, out interface{}) []interface{} {
		s, i, o := st.(linState), in.(linIn), out.(linOut)
		if i.k == "init" {
			return []interface{}{i.init}
		}
		one := func(s linState) []interface{} { return []interface{}{s} }
		next := func() linState {
			n := linState{s.seq + 1, s.b}
			if n.b > 0 {
				n.b--
			}
			return n
		}
		switch i.k {
		case "sign":
			if o.end {
				return []interface{}{s, next()}
			}
			if o.ok {
				if o.v != s.seq {
					return nil
				}
				return one(next())
			}
			if i.fails {
				return []interface{}{s, next()}
			}
			if s.seq >= i.last {
				return one(s)
			}
			return nil
		case "borrow", "borrowif":
			if i.k == "borrowif" && s.b > i.t {
				if o.ok || o.end {
					return one(s)
				}
				return nil
			}
			set := linState{s.seq, i.n}
			if o.end {
				return []interface{}{s, set}
			}
			if o.ok {
				return one(set)
			}
			if s.seq+i.n > i.last {
				return one(s)
			}
			return nil
		case "skip":
			if o.end {
				return []interface{}{s, linState{o.v, 0}}
			}
			return one(linState{o.v, 0})
		case "seqno":
			if o.end || o.v == s.seq {
				return one(s)
			}
			return nil
		case "borrowed":
			if o.end || o.v == s.b {
				return one(s)
			}
			return nil
		}
		return one(s)
	},
	Equal: func(a, b interface{}) bool { return a.(linState) == b.(linState) },
	DescribeOperation: func(in, out interface{}) string {
		return fmt.Sprintf("%+v -> %+v", in, out)
	},
}

var linM = linModel.ToModel()

// checkLin checks the history of every handle that was used without I/O
// errors.
func (w *World) checkLin(res *Result) {
	for _, n := range w.pathNums() {
		for _, h := range w.paths[n].handles {
			if len(h.calls) == 0 || len(h.calls) > 120 || w.sessFaulted(h.s) || h.maxCl > 6 {
				continue
			}
			ops := []porcupine.Operation{{ClientId: 0, Input: linIn{k: "init", init: linState{h.base, 0}}, Output: linOut{ok: true}, Call: h.openInv, Return: h.openRet}}
			ids := map[string]int{}
			last := h.id_.ref.Max()
			mx := int64(w.clk + 10)
			any := false
			for _, c := range h.calls {
				k := c.op.K
				if k == "signr" {
					k = "sign"
				}
				switch k {
				case "sign", "borrow", "borrowif", "seqno", "borrowed", "skip":
				default:
					continue
				}
				if h.closeInv > 0 && (c.ret == 0 || c.ret > h.closeInv) {
					// overlaps with close: may have happened or not
					if k == "seqno" || k == "borrowed" {
						continue
					}
				}
				any = true
				id, ok := ids[c.client]
				if !ok {
					id = len(ids) + 1
					ids[c.client] = id
				}
				in := linIn{k: k, n: c.op.N, t: uint64(c.op.T), last: last}
				if c.op.K == "signr" && c.op.R.FailAt >= 0 {
					in.fails = true
				}
				if h.closeInv > 0 && (c.ret == 0 || c.ret > h.closeInv) && !c.ok {
					in.fails = true
				}
				out := linOut{ok: c.ok, v: c.out}
				ret := c.ret
				if ret == 0 {
					out.end, ret = true, mx
					mx++
				}
				if in.fails && !c.ok && k != "sign" {
					out.end = true
				}
				ops = append(ops, porcupine.Operation{ClientId: id, Input: in, Output: out, Call: c.inv, Return: ret})
			}
			if !any {
				continue
			}
			w.counts["linearizability checks"]++
			switch r := porcupine.CheckOperationsTimeout(linM, ops, 10*time.Second); r {
			case porcupine.Illegal:
				d := ""
				for _, o := range ops {
					d += fmt.Sprintf("\n    client %d [%d,%d] %+v -> %+v", o.ClientId, o.Call, o.Return, o.Input, o.Output)
				}
				res.Viol = append(res.Viol, Violation{Class: "nonlinearizable", Detail: w.paths[n].name + ": no sequential order explains the calls" + d})
				return
			case porcupine.Unknown:
				w.counts["linearizability timeouts"]++
			}
		}
	}
}
