// Package zrt is the deterministic scheduler under the simulated library: every
// goroutine of the library, every client and the controller of a run are
// tasks, exactly one of which runs at any moment.  Who runs is decided here,
// from one seed or from a recorded schedule.
package zrt

import (
	"fmt"
	"math"
	"os"
	"reflect"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"unsafe"
)

// MaxSites bounds the number of preemption points in rewritten code.
const MaxSites = 1 << 16

// Sw is one scheduling decision: at step S, task T continues.
type Sw struct {
	S int64 `json:"s"`
	T int   `json:"t"`
}

// Schedule is an explicit schedule: preemptions, and picks when the running
// task could not continue.  Everything not listed follows the default: the
// running task continues; otherwise the runnable task with the lowest number.
type Schedule struct {
	Pre []Sw `json:"preempt"`
	Blk []Sw `json:"pick"`
}

// Policy says how schedules are sampled.
type Policy struct {
	PSync float64 `json:"psync,omitempty"` // chance of a switch at a synchronisation or I/O point
	Mean  int64   `json:"mean,omitempty"`  // mean distance of uniformly placed preemptions, 0: none
	Arms  int     `json:"arms,omitempty"`  // number of source positions armed for preemption
	Prio  bool    `json:"prio,omitempty"`  // strict random priorities, lowered at preemptions
}

// Proc is one simulated operating system process.
type Proc struct {
	ID       int
	Slot     int // which copy of the library it runs
	Pid      int
	PageSize int
	CPUs     int
	Dead     bool
	OnKill   []func()
	Data     interface{}
}

const (
	ready = iota
	blocked
	done
)

// Task is one thread of control.
type Task struct {
	ID     int
	Name   string
	P      *Proc
	Data   interface{}
	ch     chan struct{}
	state  uint8
	wait   unsafe.Pointer
	why    string
	seq    int64
	wakeAt int64
	killed bool
	woken  bool
	prio   int64
	site   int
	lib    bool // started by the library
}

// Panic describes a panic in a task.
type Panic struct {
	Task  string
	Proc  int
	Value string
	Stack string
	Lib   bool // raised below library code (as opposed to the harness itself)
	Fault bool // memory fault
}

// Stats of a run.
type Stats struct {
	Steps       int64
	Switches    int64
	Preemptions int64
	Tasks       int64
	Pairs       map[uint64]struct{} // (position preempted, position continued) pairs
}

// Config of a run.
type Config struct {
	Seed      uint64
	Policy    Policy
	Replay    *Schedule
	StepLimit int64
	Trace     bool
	Pairs     bool
}

// Sim is the state of one run.
type Sim struct {
	cfg                   Config
	rng                   *RNG // scheduling
	misc                  *RNG // map order, select
	tasks                 []*Task
	nextTask              int
	nextProc              int
	nextPid               int
	blockSeq              int64
	now                   int64 // simulated nanoseconds
	limit                 int64
	nextPre               int64
	crashStep             int64
	crashSite             int
	crashOcc              int
	crashFn               func()
	crashOwner            interface{}
	recPre                []Sw
	recBlk                []Sw
	rp, rb                int // replay positions
	procs                 []*Proc
	readyBuf              []*Task
	lowPrio               int64
	hash                  uint64
	Trace                 []string
	trace                 bool
	Stats                 Stats
	Abort                 string // why the run was stopped: deadlock, livelock
	AbortWhy              string
	Panics                []Panic
	controller            *Task
	stopped               bool
	forcedStep, forcedOrd int64
	stall, stallYield     bool // see Stall
	stallFrom, stallSteps int64
	sliceAt               int64
}

var (
	cur    *Task
	left   int64 = math.MaxInt64
	stepAt int64 = math.MaxInt64
	trig   [MaxSites]uint16
	S      *Sim
)

const crashBit = 0x8000

const stallSlice = 100 // see Stall

// Y is the preemption point before every statement of rewritten code.
//
//go:norace
func Y(site uint16) {
	left--
	if left <= 0 || trig[site] != 0 {
		slow(int(site))
	}
}

// SyncPoint is a preemption point at a synchronisation operation or I/O.
func SyncPoint() {
	if S == nil {
		return
	}
	left--
	if left <= 0 {
		slow(0)
		return
	}
	if S.stall && cur.lib && !cur.killed {
		if l := S.ready(); len(l) > 0 && !l[0].lib {
			switchTo(l[0])
		}
		return
	}
	if S.cfg.Replay == nil && S.cfg.Policy.PSync > 0 && !cur.killed && S.rng.Chance(S.cfg.Policy.PSync) {
		preempt()
	}
}

// Step is the number of preemption points passed so far.
func Step() int64 { return stepAt - left }

func rearm() {
	step := Step()
	at := S.limit
	if S.crashStep > 0 && S.crashStep < at {
		at = S.crashStep
	}
	if S.nextPre < at {
		at = S.nextPre
	}
	if S.stall && S.sliceAt < at {
		at = S.sliceAt
	}
	if S.stallYield || at <= step {
		at = step + 1
	}
	stepAt = at
	left = at - step
}

func (s *Sim) drawPre(step int64) int64 {
	if s.cfg.Replay != nil {
		for s.rp < len(s.cfg.Replay.Pre) && s.cfg.Replay.Pre[s.rp].S < step {
			s.rp++
		}
		if s.rp < len(s.cfg.Replay.Pre) {
			return s.cfg.Replay.Pre[s.rp].S
		}
		return math.MaxInt64
	}
	if s.cfg.Policy.Mean <= 0 {
		return math.MaxInt64
	}
	return step + 1 + s.rng.Int63n(2*s.cfg.Policy.Mean)
}

func armSite() {
	n := NSites
	if n <= 1 {
		return
	}
	site := 1 + S.rng.Intn(n-1)
	occ := uint16(S.rng.LogN(16))
	if trig[site]&^crashBit == 0 {
		trig[site] |= occ
	}
}

//go:noinline
func slow(site int) {
	t := cur
	if t.killed {
		runtime.Goexit()
	}
	s := S
	fire := false
	if tr := trig[site]; tr != 0 && site != 0 {
		if tr&crashBit != 0 {
			s.crashOcc--
			if s.crashOcc <= 0 {
				trig[site] &^= crashBit
				f := s.crashFn
				f()
				if t.killed {
					runtime.Goexit()
				}
			}
		}
		if c := trig[site] &^ crashBit; c != 0 && s.cfg.Replay == nil {
			trig[site]--
			if c == 1 {
				fire = true
				armSite()
			}
		}
	}
	if left <= 0 {
		step := Step()
		if step >= s.limit {
			s.stop("livelock", "")
			runtime.Goexit()
		}
		if s.crashStep > 0 && step >= s.crashStep {
			s.crashStep = 0
			f := s.crashFn
			rearm()
			f()
			if t.killed {
				runtime.Goexit()
			}
		}
		if step >= s.nextPre {
			fire = true
			if s.cfg.Replay == nil {
				s.nextPre = s.drawPre(step)
			}
		}
		rearm()
	}
	if s.stall && t.lib && Step() >= s.sliceAt {
		// The library's tasks take turns: one might hold a lock.
		l := s.ready()
		n := l[0]
		for _, o := range l {
			if o.ID > t.ID {
				n = o
				break
			}
		}
		s.sliceAt = Step() + stallSlice
		rearm()
		if n != t {
			t.site = site
			switchTo(n)
			return
		}
	}
	if s.stallYield {
		s.stallYield = false
		rearm()
		if l := s.ready(); s.stall && t.lib && len(l) > 0 && !l[0].lib {
			t.site = site
			switchTo(l[0])
			return
		}
	}
	if fire {
		t.site = site
		preempt()
	}
}

func (s *Sim) ready() []*Task {
	l := s.readyBuf[:0]
	for _, t := range s.tasks {
		if t.state == ready {
			l = append(l, t)
		}
	}
	if s.stall {
		k := 0
		for _, t := range l {
			if !t.lib {
				l[k] = t
				k++
			}
		}
		if k > 0 {
			l = l[:k]
		}
	}
	s.readyBuf = l
	return l
}

// Stall lets tasks started by the library run only when no other task can, in
// turns, as one of them might hold a lock the others wait for. It stops that
// and (off) reports how many steps they made nevertheless.
func Stall(on bool) int64 {
	s := S
	s.stall = on
	if on {
		s.stallSteps, s.stallFrom, s.sliceAt = 0, Step(), math.MaxInt64
	}
	rearm()
	return s.stallSteps
}

// account is called when the running task changes to n.
func (s *Sim) account(n *Task) {
	if s.stall {
		if cur.lib {
			s.stallSteps += Step() - s.stallFrom
		}
		s.stallFrom = Step()
		s.sliceAt = math.MaxInt64
		if n.lib {
			s.sliceAt = Step() + stallSlice
		}
		rearm()
	}
}

func topPrio(l []*Task) *Task {
	var b *Task
	for _, t := range l {
		if b == nil || t.prio > b.prio {
			b = t
		}
	}
	return b
}

func preempt() {
	me, s := cur, S
	step := Step()
	var n *Task
	if s.cfg.Replay != nil {
		pre := s.cfg.Replay.Pre
		for s.rp < len(pre) && pre[s.rp].S < step {
			s.rp++
		}
		if s.rp < len(pre) && pre[s.rp].S == step {
			for _, t := range s.tasks {
				if t.ID == pre[s.rp].T && t.state == ready {
					n = t
				}
			}
			s.rp++
		}
		s.nextPre = s.drawPre(step + 1)
		rearm()
		if n == nil {
			return
		}
	} else {
		l := s.ready()
		if len(l) < 2 {
			return
		}
		if s.cfg.Policy.Prio {
			s.lowPrio--
			me.prio = s.lowPrio
			n = topPrio(l)
		} else {
			i := s.rng.Intn(len(l) - 1) // one of the others
			for _, t := range l {
				if t == me {
					continue
				}
				if i == 0 {
					n = t
					break
				}
				i--
			}
		}
	}
	if n == nil || n == me {
		return
	}
	s.recPre = append(s.recPre, Sw{step, n.ID})
	s.Stats.Preemptions++
	if s.cfg.Pairs {
		if len(s.Stats.Pairs) < 1<<16 {
			s.Stats.Pairs[uint64(me.site)<<32|uint64(n.site)] = struct{}{}
		}
	}
	switchTo(n)
}

// pickForced chooses who runs when the running task cannot continue.
func pickForced() *Task {
	s := S
	for {
		for _, t := range s.tasks {
			if t.killed && t.state != done {
				t.state = ready
				return t
			}
		}
		l := s.ready()
		stalled := s.stall && len(l) > 0 && l[0].lib
		if len(l) == 0 || stalled {
			var b *Task
			for _, t := range s.tasks {
				if t.state == blocked && t.wakeAt > 0 && (b == nil || t.wakeAt < b.wakeAt) {
					b = t
				}
			}
			if b != nil {
				if b.wakeAt > s.now {
					s.now = b.wakeAt
				}
				b.wakeAt = 0
				b.state = ready
				continue
			}
		}
		if len(l) == 0 {
			var d []string
			for _, t := range s.tasks {
				if t.state == blocked && t != s.controller {
					d = append(d, fmt.Sprintf("%s(%s at %s)", t.Name, t.why, SiteName(t.site)))
				}
			}
			s.stop("deadlock", strings.Join(d, "; "))
			continue
		}
		step := Step()
		if step != s.forcedStep {
			s.forcedStep, s.forcedOrd = step, 0
		} else {
			s.forcedOrd++
		}
		step = step<<8 | s.forcedOrd&255
		if s.cfg.Replay != nil {
			blk := s.cfg.Replay.Blk
			for s.rb < len(blk) && blk[s.rb].S < step {
				s.rb++
			}
			if s.rb < len(blk) && blk[s.rb].S == step {
				id := blk[s.rb].T
				s.rb++
				for _, t := range l {
					if t.ID == id {
						if t != l[0] {
							s.recBlk = append(s.recBlk, Sw{step, id})
						}
						return t
					}
				}
			}
			return l[0]
		}
		var n *Task
		if s.cfg.Policy.Prio {
			n = topPrio(l)
		} else {
			n = l[s.rng.Intn(len(l))]
		}
		if n != l[0] {
			s.recBlk = append(s.recBlk, Sw{step, n.ID})
		}
		return n
	}
}

func (s *Sim) mix(a, b uint64) {
	s.hash = (s.hash ^ a) * 0x100000001b3
	s.hash = (s.hash ^ b) * 0x100000001b3
	s.hash ^= s.hash >> 29
}

func switchTo(n *Task) {
	me := cur
	S.Stats.Switches++
	S.mix(uint64(n.ID), uint64(Step()))
	S.account(n)
	cur = n
	raceDisable()
	n.ch <- struct{}{}
	<-me.ch
	raceEnable()
	if me.killed {
		runtime.Goexit()
	}
}

// Block parks the running task until Wake is called on obj.
func Block(obj unsafe.Pointer, why string) {
	me, s := cur, S
	if me.killed {
		runtime.Goexit()
	}
	s.blockSeq++
	me.state, me.wait, me.why, me.seq = blocked, obj, why, s.blockSeq
	n := pickForced()
	if n == me {
		me.wait = nil
		if me.killed {
			runtime.Goexit()
		}
		return
	}
	switchTo(n)
	me.wait = nil
}

// Wake makes the tasks blocked on obj runnable: all of them, or the one that
// has waited longest.  It reports how many were woken.
func Wake(obj unsafe.Pointer, all bool) int {
	n := 0
	var first *Task
	for _, t := range S.tasks {
		if t.state == blocked && t.wait == obj {
			if all {
				t.state, t.wakeAt = ready, 0
				n++
			} else if first == nil || t.seq < first.seq {
				first = t
			}
		}
	}
	if first != nil {
		first.state, first.wakeAt = ready, 0
		n = 1
	}
	if n > 0 && S.stall && cur.lib {
		S.stallYield = true
		rearm()
	}
	return n
}

// Waiters counts the tasks blocked on obj.
func Waiters(obj unsafe.Pointer) int {
	n := 0
	for _, t := range S.tasks {
		if t.state == blocked && t.wait == obj {
			n++
		}
	}
	return n
}

// Sleep lets simulated time pass.
func Sleep(d int64) {
	if d <= 0 {
		SyncPoint()
		return
	}
	SyncPoint()
	cur.wakeAt = S.now + d
	Block(unsafe.Pointer(cur), "sleep")
}

// Now is the simulated time in nanoseconds.
func Now() int64 {
	if S == nil {
		return 0
	}
	return S.now
}

// Advance adds the cost of an operation to the simulated clock.
func Advance(d int64) { S.now += d }

// Cur is the running task.
func Cur() *Task { return cur }

// CurProc is the process of the running task.
func CurProc() *Proc {
	if cur == nil {
		return nil
	}
	return cur.P
}

// Killed reports whether the running task is being torn down.
func Killed() bool { return cur != nil && cur.killed }

// CheckKilled ends the running task if its process is dead.
func CheckKilled() {
	if cur == nil {
		return
	}
	if cur.killed {
		runtime.Goexit()
	}
}

func (t *Task) Done() bool { return t.state == done }

// Spawn creates a task in process p.
func Spawn(p *Proc, name string, fn func()) *Task {
	s := S
	t := &Task{ID: s.nextTask, Name: name, P: p, ch: make(chan struct{}, 1), prio: int64(s.rng.Uint64()>>2) + 1}
	s.nextTask++
	s.Stats.Tasks++
	if p != nil && p.Dead {
		t.state = done
		return t
	}
	s.tasks = append(s.tasks, t)
	go t.main(fn)
	return t
}

func (t *Task) main(fn func()) {
	raceDisable()
	<-t.ch
	raceEnable()
	debug.SetPanicOnFault(true)
	defer t.finish()
	if t.killed {
		return
	}
	fn()
}

func (t *Task) finish() {
	s := S
	if r := recover(); r != nil && !t.killed {
		t.site = 0
		p := Panic{Task: t.Name, Value: fmt.Sprint(r), Stack: string(debug.Stack())}
		if t.P != nil {
			p.Proc = t.P.ID
		}
		if e, ok := r.(runtime.Error); ok {
			if a, ok := e.(interface{ Addr() uintptr }); ok {
				p.Stack = fmt.Sprintf("address %#x\n", a.Addr()) + p.Stack
			}
			if strings.Contains(p.Value, "invalid memory address") || strings.Contains(p.Value, "fault") {
				p.Fault = true
			}
		}
		p.Lib = libStack(p.Stack)
		s.Panics = append(s.Panics, p)
		if os.Getenv("VSIM_STACK") != "" {
			fmt.Fprintln(os.Stderr, p.Task, p.Value, p.Stack)
		}
		Ev("panic", 0, 0, p.Value)
		s.stop("panic", p.Value)
	}
	RaceRelease(unsafe.Pointer(t))
	RaceReleaseMerge(unsafe.Pointer(s)) // see DrainKilled
	t.state = done
	for i, x := range s.tasks {
		if x == t {
			s.tasks = append(s.tasks[:i:i], s.tasks[i+1:]...)
			break
		}
	}
	Wake(unsafe.Pointer(t), true)
	n := pickForced()
	s.mix(uint64(n.ID), uint64(Step()))
	s.account(n)
	cur = n
	raceDisable()
	n.ch <- struct{}{}
	raceEnable()
}

// libStack tells whether a panic was raised in library code or below it.
func libStack(st string) bool {
	lines := strings.Split(st, "\n")
	seen := false
	for _, l := range lines {
		if strings.HasPrefix(l, "panic(") || strings.HasPrefix(l, "runtime.sigpanic") {
			seen = true
			continue
		}
		if !seen || strings.HasPrefix(l, "\t") {
			continue
		}
		if strings.Contains(l, "/zsim/h.") || strings.Contains(l, "/zsim/ref.") || strings.HasPrefix(l, "main.") {
			return false
		}
		if strings.Contains(l, "go-xmssmt/p0") || strings.Contains(l, "go-xmssmt/p1") || strings.Contains(l, "go-xmssmt/p2") {
			return true
		}
	}
	return false
}

// stop ends the run: every process is killed and the controller continues.
func (s *Sim) stop(kind, why string) {
	if s.Abort == "" {
		s.Abort, s.AbortWhy = kind, why
	}
	s.limit = math.MaxInt64
	s.nextPre = math.MaxInt64
	s.crashStep = 0
	rearm()
	for _, p := range s.procs {
		if !p.Dead {
			Kill(p)
		}
	}
	if s.controller.state == blocked {
		s.controller.state = ready
		s.controller.wakeAt = 0
	}
}

// Stop ends the run from a monitor.
func Stop(kind, why string) { S.stop(kind, why) }

// Aborted reports why the run was stopped, if it was.
func Aborted() (string, string) { return S.Abort, S.AbortWhy }

// Join waits until the tasks have ended.  The controller's Join returns early
// if the run was stopped.
func Join(ts ...*Task) {
	for _, t := range ts {
		for t.state != done {
			if cur == S.controller && S.Abort != "" && !t.killed {
				break
			}
			Block(unsafe.Pointer(t), "join "+t.Name)
		}
		RaceAcquire(unsafe.Pointer(t))
	}
}

// JoinProc waits until the running task is the only one of its process.
func JoinProc() {
	for {
		var o *Task
		for _, t := range S.tasks {
			if t != cur && t.P == cur.P {
				o = t
				break
			}
		}
		if o == nil {
			return
		}
		Join(o)
	}
}

// NewProc starts a process.
func NewProc(slot, pid, pageSize, cpus int) *Proc {
	s := S
	s.nextProc++
	if pid == 0 {
		s.nextPid++
		pid = 1000 + s.nextPid*7
	}
	p := &Proc{ID: s.nextProc, Slot: slot, Pid: pid, PageSize: pageSize, CPUs: cpus}
	s.procs = append(s.procs, p)
	return p
}

// Alive tells whether a live process has this pid.
func Alive(pid int) bool {
	for _, p := range S.procs {
		if p.Pid == pid && !p.Dead {
			return true
		}
	}
	return false
}

// SetCrashOwner and DisarmCrashFor let a process that ends remove the crash
// that was planned for it.
func SetCrashOwner(o interface{}) { S.crashOwner = o }

func DisarmCrashFor(o interface{}) {
	if S.crashOwner == o {
		DisarmCrash()
	}
}

// LiveTasks lists the tasks of a process other than the running one, and what
// they are doing.
func LiveTasks(p *Proc) []string {
	var l []string
	for _, t := range S.tasks {
		if t.P == p && t != cur && t.state != done && !t.killed {
			w := "running"
			if t.state == blocked {
				w = "waiting (" + t.why + ")"
			}
			l = append(l, t.Name+" "+w)
		}
	}
	return l
}

// DrainKilled lets the tasks of dead processes unwind.
func DrainKilled() {
	for {
		var t *Task
		for _, x := range S.tasks {
			if x.killed && x.state != done {
				t = x
				break
			}
		}
		if t == nil {
			// Another process using the same memory of the simulator comes
			// after the end of this one.
			RaceAcquire(unsafe.Pointer(S))
			return
		}
		for t.state != done {
			Block(unsafe.Pointer(t), "join "+t.Name)
		}
	}
}

// NowNs is the simulated time at the end.
func (s *Sim) NowNs() int64 { return s.now }

// SiteByName finds a source position.
func SiteByName(n string) int {
	if n == "" {
		return 0
	}
	for i, s := range Sites {
		if s == n {
			return i
		}
	}
	return 0
}

// Procs lists the processes of the run.
func Procs() []*Proc { return S.procs }

// Kill ends a process at once.  If the running task belongs to it, the caller
// must not continue doing work for it (CheckKilled).
func Kill(p *Proc) {
	if p.Dead {
		return
	}
	p.Dead = true
	Ev("kill", int64(p.ID), 0, "")
	for _, f := range p.OnKill {
		f()
	}
	for _, t := range S.tasks {
		if t.P == p && t.state != done {
			t.killed = true
			t.state = ready
		}
	}
	if cur != nil && cur.killed {
		// makes the next preemption point notice
		stepAt, left = Step()+1, 1
	}
}

// ArmCrash arranges for f to run at the given number of steps from now, or at
// the occ'th visit of a source position.
func ArmCrash(steps int64, site, occ int, f func()) {
	S.crashFn = f
	if steps > 0 {
		S.crashStep = Step() + steps
		rearm()
	}
	if site > 0 && site < NSites {
		if S.crashSite > 0 {
			trig[S.crashSite] &^= crashBit
		}
		S.crashSite, S.crashOcc = site, occ
		trig[site] |= crashBit
	}
}

// DisarmCrash removes what ArmCrash set up.
func DisarmCrash() {
	S.crashStep = 0
	if S.crashSite > 0 {
		trig[S.crashSite] &^= crashBit
		S.crashSite = 0
	}
	rearm()
}

// Ev adds an event to the log.  It never draws random numbers or yields.
func Ev(kind string, a, b int64, str string) {
	s := S
	h := s.hash
	for i := 0; i < len(kind); i++ {
		h = (h ^ uint64(kind[i])) * 0x100000001b3
	}
	for i := 0; i < len(str); i++ {
		h = (h ^ uint64(str[i])) * 0x100000001b3
	}
	s.hash = h
	s.mix(uint64(a), uint64(b))
	if s.trace {
		id := -1
		nm := ""
		if cur != nil {
			id, nm = cur.ID, cur.Name
		}
		s.Trace = append(s.Trace, fmt.Sprintf("%9d %12dns t%-3d %-14s %-10s %d %d %s", Step(), s.now, id, nm, kind, a, b, str))
	}
}

// Tracing reports whether events are being kept.
func Tracing() bool { return S.trace }

// Hash of everything that happened so far.
func (s *Sim) Hash() uint64 { return s.hash }

// Recorded is the schedule that was executed.
func (s *Sim) Recorded() Schedule { return Schedule{s.recPre, s.recBlk} }

// Misc is the generator for choices that are neither scheduling nor faults.
func Misc() *RNG { return S.misc }

// Run executes f as the controller of a fresh simulation.
func Run(cfg Config, f func()) *Sim {
	clear(trig[:])
	if cfg.StepLimit == 0 {
		cfg.StepLimit = 1 << 40
	}
	s := &Sim{cfg: cfg, rng: NewRNG(cfg.Seed), misc: NewRNG(Mix(cfg.Seed ^ 0x6d697363)), limit: cfg.StepLimit, hash: 0xcbf29ce484222325, trace: cfg.Trace}
	if cfg.Pairs {
		s.Stats.Pairs = map[uint64]struct{}{}
	}
	S = s
	s.nextPre = math.MaxInt64
	stepAt, left = 1, 1
	rearm()
	// steps start at 0
	left = stepAt
	s.nextPre = s.drawPre(0)
	rearm()
	if cfg.Replay == nil {
		for i := 0; i < cfg.Policy.Arms; i++ {
			armSite()
		}
	}
	c := &Task{ID: 0, Name: "controller", ch: make(chan struct{}, 1), prio: math.MaxInt64}
	s.nextTask = 1
	s.tasks = append(s.tasks, c)
	s.controller = c
	cur = c
	f()
	// unwind whatever is left
	s.stopped = true
	s.limit = math.MaxInt64
	s.nextPre = math.MaxInt64
	s.crashStep = 0
	rearm()
	for _, p := range s.procs {
		if !p.Dead {
			Kill(p)
		}
	}
	for {
		var t *Task
		for _, x := range s.tasks {
			if x != c {
				t = x
				break
			}
		}
		if t == nil {
			break
		}
		Join(t)
	}
	s.Stats.Steps = Step()
	if s.crashSite > 0 {
		trig[s.crashSite] &^= crashBit
	}
	cur = nil
	S = nil
	left, stepAt = math.MaxInt64, math.MaxInt64
	return s
}

// Go starts a goroutine of the library.
func Go(fn func()) {
	if S == nil {
		go fn()
		return
	}
	CheckKilled()
	Spawn(cur.P, fmt.Sprintf("go%d", S.nextTask), fn).lib = true
	SyncPoint()
}

// GoCall is Go for a call with arguments.
func GoCall(f interface{}, args ...interface{}) {
	v := reflect.ValueOf(f)
	in := make([]reflect.Value, len(args))
	for i, a := range args {
		if a == nil {
			t := v.Type()
			var at reflect.Type
			if t.IsVariadic() && i >= t.NumIn()-1 {
				at = t.In(t.NumIn() - 1).Elem()
			} else {
				at = t.In(i)
			}
			in[i] = reflect.Zero(at)
		} else {
			in[i] = reflect.ValueOf(a)
		}
	}
	Go(func() { v.Call(in) })
}

// NumCPU and friends answer for the simulated machine.
func NumCPU() int {
	if p := CurProc(); p != nil && p.CPUs > 0 {
		return p.CPUs
	}
	return 2
}

func GOMAXPROCS(n int) int { return NumCPU() }

func Gosched() {
	if S == nil {
		runtime.Gosched()
		return
	}
	CheckKilled()
	if S.cfg.Replay == nil {
		left--
		if left <= 0 {
			slow(0)
		} else {
			preempt()
		}
		return
	}
	SyncPoint()
}

// Zero sets a variable to its zero value.
func Zero[T any](p *T) {
	var z T
	*p = z
}

// Entry is one map entry during a simulated map iteration.
type Entry[K comparable, V any] struct {
	K K
	m map[K]V
}

func (e Entry[K, V]) V() V        { return e.m[e.K] }
func (e Entry[K, V]) Alive() bool { _, ok := e.m[e.K]; return ok }

// MapEntries lists a map's entries in an order chosen by the simulator.
func MapEntries[M ~map[K]V, K comparable, V any](m M) []Entry[K, V] {
	l := make([]Entry[K, V], 0, len(m))
	for k := range m {
		l = append(l, Entry[K, V]{k, m})
	}
	keys := make([]string, len(l))
	raceDisable()
	for i := range l {
		keys[i] = fmt.Sprintf("%#v", l[i].K)
	}
	raceEnable()
	sort.Sort(&entrySort[K, V]{l, keys})
	if S != nil {
		for i := len(l) - 1; i > 0; i-- {
			j := S.misc.Intn(i + 1)
			l[i], l[j] = l[j], l[i]
		}
	}
	return l
}

type entrySort[K comparable, V any] struct {
	l []Entry[K, V]
	k []string
}

func (e *entrySort[K, V]) Len() int           { return len(e.l) }
func (e *entrySort[K, V]) Less(i, j int) bool { return e.k[i] < e.k[j] }
func (e *entrySort[K, V]) Swap(i, j int) {
	e.l[i], e.l[j] = e.l[j], e.l[i]
	e.k[i], e.k[j] = e.k[j], e.k[i]
}

// SiteName names a source position.
func SiteName(i int) string {
	if i > 0 && i < len(Sites) {
		return Sites[i]
	}
	return "?"
}
