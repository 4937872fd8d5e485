// Package h is the harness: it generates workloads with faults, executes them
// in the simulator, and judges the recorded history.
package h

import (
	"github.com/bwesterb/go-xmssmt/zsim/simapi"
	"github.com/bwesterb/go-xmssmt/zsim/zrt"
)

// Plan is one simulated execution, completely: same plan, same code, same run.
type Plan struct {
	Prop      string        `json:"prop"`
	Index     int           `json:"index"`
	Seed      uint64        `json:"seed"`  // file system, entropy, store and survival choices
	Sched     uint64        `json:"sched"` // scheduling choices
	Policy    zrt.Policy    `json:"policy"`
	Schedule  *zrt.Schedule `json:"schedule,omitempty"` // explicit schedule, replaces Sched and Policy
	Params    simapi.Params `json:"params"`
	WriteBack float64       `json:"writeback,omitempty"`
	StepLimit int64         `json:"steplimit,omitempty"`
	Stages    []Stage       `json:"stages"`
	NoEpi     bool          `json:"noepi,omitempty"`
	Note      string        `json:"note,omitempty"`
}

// Stage is a set of processes running at the same time.
type Stage struct {
	Sess   []Session `json:"sess"`
	After  string    `json:"after,omitempty"` // power: power loss after the stage; settle: all data reaches the disk
	Damage []Damage  `json:"damage,omitempty"`
}

// Session is one operating system process.
type Session struct {
	Slot     int     `json:"slot,omitempty"`
	Page     int     `json:"page,omitempty"`
	CPUs     int     `json:"cpus,omitempty"`
	Pid      int     `json:"pid,omitempty"`
	NoVector bool    `json:"novector,omitempty"`
	Shared   bool    `json:"shared,omitempty"` // keys of the same parameters are made from one context
	Delay    int64   `json:"delay,omitempty"`  // simulated ns before the process starts
	Pre      []Op    `json:"pre,omitempty"`
	Clients  [][]Op  `json:"clients,omitempty"`
	Post     []Op    `json:"post,omitempty"`
	Faults   []Fault `json:"faults,omitempty"`
	Crash    *Crash  `json:"crash,omitempty"`
}

// Op is one call, or one step of the harness itself.
type Op struct {
	K    string         `json:"k"`
	H    int            `json:"h,omitempty"`    // handle
	Path int            `json:"path,omitempty"` // key path number
	How  string         `json:"how,omitempty"`
	Key  int            `json:"key,omitempty"` // which seeds
	N    uint64         `json:"n,omitempty"`
	T    uint32         `json:"t,omitempty"`
	Msg  int            `json:"msg,omitempty"`
	Len  int            `json:"len,omitempty"`
	R    *Rdr           `json:"r,omitempty"`
	D    *SigDamage     `json:"d,omitempty"`
	P    *simapi.Params `json:"p,omitempty"` // other parameters than the plan's
}

// Rdr describes a message stream.
type Rdr struct {
	Chunks  []int `json:"chunks,omitempty"` // sizes, repeated; 0: empty read
	EOFData bool  `json:"eofdata,omitempty"`
	FailAt  int   `json:"failat"`            // -1: never; fails once this many bytes were delivered
	FailNow bool  `json:"failnow,omitempty"` // the error comes together with data
	Kind    int   `json:"kind,omitempty"`    // 0 plain reader, 1 also a WriterTo, 2 bytes.Reader, 3 bufio, 4 also ReaderAt/Len
	Sleep   int64 `json:"sleep,omitempty"`   // simulated ns per read
	Err     int   `json:"err,omitempty"`     // which error value
}

// SigDamage describes what happens to a signature, message or public key in
// transit or storage.
type SigDamage struct {
	What string `json:"what"` // sig, msg, pk
	Kind string `json:"kind"`
	Pos  int    `json:"pos,omitempty"` // position, as a fraction of 1<<20
	Bit  int    `json:"bit,omitempty"`
	N    int    `json:"n,omitempty"`
	Seed uint64 `json:"seed,omitempty"`
}

// Damage happens to files between stages.
type Damage struct {
	Kind string `json:"kind"`
	Path int    `json:"path,omitempty"`
	Pos  int    `json:"pos,omitempty"`
	N    int    `json:"n,omitempty"`
	Seed uint64 `json:"seed,omitempty"`
}

// Fault is an I/O error: the Nth matching operation of the process, and the
// Count-1 following ones, fail.
type Fault struct {
	Kind    string `json:"kind"`           // operation; "any"
	Path    string `json:"path,omitempty"` // suffix of the path; "key" for the key file itself
	Nth     int    `json:"nth"`
	Count   int    `json:"count,omitempty"`
	Err     int    `json:"err,omitempty"`
	Applied bool   `json:"applied,omitempty"`
	Short   int    `json:"short,omitempty"` // bytes transferred first (per mille of the size)
	Arm     bool   `json:"arm,omitempty"`   // counting starts when the clients start
}

// Crash ends the process (kill) or the machine (power).
type Crash struct {
	Kind  string `json:"kind"` // kill, power
	Mode  string `json:"mode"` // io, step, site, ops
	N     int64  `json:"n"`
	IO    string `json:"io,omitempty"`    // operation kind, empty: any
	When  string `json:"when,omitempty"`  // before, half, after
	Site  string `json:"site,omitempty"`  // source position
	SiteN int    `json:"siten,omitempty"` // ... or its number modulo all
	Arm   bool   `json:"arm,omitempty"`
}

// Violation of a property.
type Violation struct {
	Class  string `json:"class"`
	Detail string `json:"detail"`
	Step   int64  `json:"step"`
	Known  string `json:"known,omitempty"`
}

// Result of one execution.
type Result struct {
	Viol     []Violation
	Hash     uint64
	Stats    zrt.Stats
	SimTime  int64
	Faults   map[string]int
	Counts   map[string]int
	Others   []string
	Recorded zrt.Schedule
	Trace    []string
	Harness  string // trouble of the harness itself
}
