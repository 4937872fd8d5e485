package h

import (
	"encoding/json"
	"time"

	"github.com/bwesterb/go-xmssmt/zsim/zrt"
)

func clone(p *Plan) *Plan {
	b, err := json.Marshal(p)
	if err != nil {
		panic(err)
	}
	q := new(Plan)
	if err := json.Unmarshal(b, q); err != nil {
		panic(err)
	}
	return q
}

type shrinker struct {
	class string
	best  *Plan // with an explicit schedule
	deadl time.Time
	runs  int
}

func (s *shrinker) late() bool { return time.Now().After(s.deadl) }

// fails runs a plan; if it shows the same kind of violation the plan is
// returned with its schedule made explicit.
func (s *shrinker) fails(p *Plan) *Plan {
	s.runs++
	r := runFresh(p, false)
	if r.Harness != "" || len(r.Viol) == 0 || r.Viol[0].Class != s.class || r.Viol[0].Known != "" {
		return nil
	}
	q := clone(p)
	rec := r.Recorded
	q.Schedule = &rec
	if r2 := runFresh(q, false); len(r2.Viol) == 0 || r2.Viol[0].Class != s.class {
		// should not happen: keep the seeded form
		q.Schedule = p.Schedule
		return q
	}
	return q
}

// try a changed workload: with the same explicit schedule, without any
// preemption, and with a few fresh schedules.
func (s *shrinker) try(p *Plan, fresh int) bool {
	if s.late() {
		return false
	}
	if q := s.fails(p); q != nil {
		s.best = q
		return true
	}
	for i := 0; i < fresh && !s.late(); i++ {
		c := clone(p)
		c.Schedule = nil
		if i == 0 {
			c.Policy = zrt.Policy{}
		} else {
			c.Sched = zrt.Mix(p.Sched + uint64(i)*0x1234567)
			if i%3 == 2 {
				c.Policy = zrt.Policy{PSync: .3}
			}
		}
		if q := s.fails(c); q != nil {
			s.best = q
			return true
		}
	}
	return false
}

// Shrink minimises a plan that shows a violation.
func Shrink(f *Found, seconds float64) *Found {
	s := &shrinker{class: f.Viol.Class, deadl: time.Now().Add(time.Duration(seconds * float64(time.Second)))}
	s.best = s.fails(f.Plan)
	if s.best == nil {
		return nil
	}
	for pass := 0; pass < 4 && !s.late(); pass++ {
		n := s.size()
		s.structure(pass)
		s.schedule()
		if s.size() >= n && pass > 0 {
			break
		}
	}
	r := runFresh(s.best, true)
	if len(r.Viol) == 0 {
		// not even the explicit schedule: give back what was found
		r = runFresh(f.Plan, true)
		if len(r.Viol) == 0 {
			return nil
		}
		s.best = f.Plan
	}
	out := &Found{Plan: s.best, Viol: r.Viol[0], Hash: r.Hash, Trace: r.Trace}
	if len(out.Trace) > 4000 {
		out.Trace = out.Trace[len(out.Trace)-4000:]
	}
	return out
}

func (s *shrinker) size() int {
	n := 0
	p := s.best
	for _, st := range p.Stages {
		n += 20 + len(st.Damage)*3
		for _, x := range st.Sess {
			n += 10 + len(x.Faults)*3 + len(x.Pre) + len(x.Post)
			if x.Crash != nil {
				n += 5
			}
			for _, c := range x.Clients {
				n += 2 + len(c)
			}
		}
	}
	if p.Schedule != nil {
		n += len(p.Schedule.Pre) + len(p.Schedule.Blk)
	}
	return n
}

func (s *shrinker) structure(pass int) {
	fresh := 12
	if pass > 0 {
		fresh = 5
	}
	edit := func(f func(p *Plan) bool) bool {
		if s.late() {
			return false
		}
		c := clone(s.best)
		if !f(c) {
			return false
		}
		return s.try(c, fresh)
	}
	edit(func(p *Plan) bool { x := p.NoEpi; p.NoEpi = true; return !x })
	for i := len(s.best.Stages) - 1; i >= 0; i-- {
		if i < len(s.best.Stages) {
			edit(func(p *Plan) bool {
				p.Stages = append(p.Stages[:i:i], p.Stages[i+1:]...)
				return len(p.Stages) > 0
			})
		}
	}
	for i := 0; i < len(s.best.Stages); i++ {
		for j := len(s.best.Stages[i].Sess) - 1; j >= 0; j-- {
			edit(func(p *Plan) bool {
				x := &p.Stages[i]
				x.Sess = append(x.Sess[:j:j], x.Sess[j+1:]...)
				return len(x.Sess) > 0
			})
		}
		edit(func(p *Plan) bool { x := p.Stages[i].After; p.Stages[i].After = ""; return x != "" })
		for j := len(s.best.Stages[i].Damage) - 1; j >= 0; j-- {
			edit(func(p *Plan) bool {
				x := &p.Stages[i]
				x.Damage = append(x.Damage[:j:j], x.Damage[j+1:]...)
				return true
			})
		}
		for j := 0; j < len(s.best.Stages[i].Sess); j++ {
			edit(func(p *Plan) bool { x := &p.Stages[i].Sess[j]; o := x.Crash; x.Crash = nil; return o != nil })
			for k := len(s.best.Stages[i].Sess[j].Faults) - 1; k >= 0; k-- {
				edit(func(p *Plan) bool {
					x := &p.Stages[i].Sess[j]
					x.Faults = append(x.Faults[:k:k], x.Faults[k+1:]...)
					return true
				})
			}
			for k := len(s.best.Stages[i].Sess[j].Clients) - 1; k >= 0; k-- {
				edit(func(p *Plan) bool {
					x := &p.Stages[i].Sess[j]
					x.Clients = append(x.Clients[:k:k], x.Clients[k+1:]...)
					return true
				})
			}
			lists := func(p *Plan) []*[]Op {
				x := &p.Stages[i].Sess[j]
				l := []*[]Op{&x.Pre, &x.Post}
				for k := range x.Clients {
					l = append(l, &x.Clients[k])
				}
				return l
			}
			for k := 0; k < len(lists(s.best)); k++ {
				for chunk := len(*lists(s.best)[k]); chunk >= 1; chunk /= 2 {
					for o := len(*lists(s.best)[k]) - chunk; o >= 0; o -= chunk {
						if o+chunk > len(*lists(s.best)[k]) {
							continue
						}
						edit(func(p *Plan) bool {
							l := lists(p)[k]
							*l = append((*l)[:o:o], (*l)[o+chunk:]...)
							return true
						})
					}
				}
				for o := 0; o < len(*lists(s.best)[k]); o++ {
					edit(func(p *Plan) bool {
						x := &(*lists(p)[k])[o]
						if (x.K == "sign" || x.K == "signr") && x.Len > 4 {
							x.Len = 4
							if x.R != nil && x.R.FailAt > 4 {
								x.R.FailAt = 4
							}
							return true
						}
						return false
					})
					edit(func(p *Plan) bool {
						x := &(*lists(p)[k])[o]
						if x.K == "open" && x.T != 1 {
							x.T = 1
							return true
						}
						return false
					})
				}
			}
			edit(func(p *Plan) bool { x := &p.Stages[i].Sess[j]; o := x.Delay; x.Delay = 0; return o != 0 })
		}
	}
}

// schedule drops scheduling decisions.
func (s *shrinker) schedule() {
	if s.best.Schedule == nil {
		return
	}
	s.ddmin(func(sc *zrt.Schedule) *[]zrt.Sw { return &sc.Pre })
	s.ddmin(func(sc *zrt.Schedule) *[]zrt.Sw { return &sc.Blk })
}

func (s *shrinker) ddmin(list func(*zrt.Schedule) *[]zrt.Sw) {
	n := len(*list(s.best.Schedule))
	for chunk := n; chunk >= 1; chunk /= 2 {
		for o := len(*list(s.best.Schedule)) - chunk; o >= 0; {
			if s.late() {
				return
			}
			cur := *list(s.best.Schedule)
			if o+chunk > len(cur) {
				o = len(cur) - chunk
				if o < 0 {
					break
				}
			}
			c := clone(s.best)
			l := list(c.Schedule)
			*l = append((*l)[:o:o], (*l)[o+chunk:]...)
			if q := s.fails(c); q != nil && q.Schedule != nil && len(q.Schedule.Pre)+len(q.Schedule.Blk) < len(s.best.Schedule.Pre)+len(s.best.Schedule.Blk) {
				s.best = q
			}
			o -= chunk
		}
	}
}
