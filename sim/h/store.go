package h

import (
	"errors"
	"fmt"
	"sort"
	"syscall"

	"github.com/bwesterb/go-xmssmt/zsim/simapi"
	"github.com/bwesterb/go-xmssmt/zsim/zrt"
)

// memStore is a caller-supplied key store: it follows the documented interface
// and watches whether its user does.
type memStore struct {
	w      *World
	name   string
	owner  *session
	closed bool
	busy   string
	init   bool
	params simapi.Params
	sk     []byte
	seq    uint64
	lost   uint32
	cache  bool
	trees  map[[2]uint64]*mbuf
	dead   [][]byte
	keys   [][]byte // copies of the private key handed out
}

type mbuf struct {
	mem  []byte // whole pages, nil if not handed out in this session
	buf  []byte
	save []byte
}

func newStore(w *World, n int) *memStore {
	return &memStore{w: w, name: fmt.Sprintf("store%d", n), trees: map[[2]uint64]*mbuf{}, closed: true}
}

func (m *memStore) opened(s *session) {
	m.owner = s
	m.keys = nil
	m.closed = false
	m.busy = ""
}

func (m *memStore) recorded() uint64 { return m.seq }

func (m *memStore) alloc(n int) *mbuf {
	if zrt.RaceMode {
		return &mbuf{buf: make([]byte, n)}
	}
	pages := (n + 4095) / 4096 * 4096
	mem, err := syscall.Mmap(-1, 0, pages, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE)
	if err != nil {
		panic("harness: mmap: " + err.Error())
	}
	return &mbuf{mem: mem, buf: mem[pages-n : pages : pages]}
}

// retire takes a buffer back: touching it from now on faults.
func (m *memStore) retire(b *mbuf, keep bool) {
	if b.buf == nil {
		return
	}
	if keep {
		b.save = append([]byte(nil), b.buf...)
	}
	if b.mem != nil {
		if err := syscall.Mprotect(b.mem, syscall.PROT_NONE); err != nil {
			panic("harness: mprotect: " + err.Error())
		}
		m.dead = append(m.dead, b.mem)
	}
	b.mem, b.buf = nil, nil
}

func (m *memStore) free() {
	for _, b := range m.trees {
		if b.mem != nil {
			syscall.Munmap(b.mem)
		}
	}
	for _, d := range m.dead {
		syscall.Munmap(d)
	}
}

// crashed: the process is gone; what it wrote so far is there.
func (m *memStore) crashed() {
	for _, b := range m.trees {
		m.retire(b, true)
	}
	m.closed = true
	m.busy = ""
	m.owner = nil
}

func (m *memStore) powerLost() {
	var l [][2]uint64
	for a := range m.trees {
		l = append(l, a)
	}
	sort.Slice(l, func(i, j int) bool { return l[i][0] < l[j][0] || l[i][0] == l[j][0] && l[i][1] < l[j][1] })
	for _, a := range l {
		b := m.trees[a]
		switch m.w.rng.Intn(5) {
		case 0:
			for i := range b.save {
				b.save[i] = 0
			}
		case 1:
			for i := len(b.save) / 2; i < len(b.save); i++ {
				b.save[i] = 0
			}
		case 2:
			delete(m.trees, a)
		}
	}
	if m.w.rng.Intn(4) == 0 {
		m.cache = false
		m.trees = map[[2]uint64]*mbuf{}
	}
}

var errStore = errors.New("store failed")

// enter is run at the start of every method.
func (m *memStore) enter(method string) (err error, applied bool) {
	w := m.w
	zrt.CheckKilled()
	if m.busy != "" {
		w.fail("store-concurrent", "%s: %s called while %s is still running", m.name, method, m.busy)
		return errStore, false
	}
	if m.closed && method != "Close" {
		w.fail("store-closed-use", "%s: %s called after the store was closed", m.name, method)
		return errStore, false
	}
	m.busy = method
	zrt.Ev("store", 0, 0, method)
	w.counts["store calls"]++
	zrt.SyncPoint()
	if w.rng.Intn(8) == 0 {
		zrt.Sleep(int64(1 + w.rng.Intn(1000000)))
	}
	zrt.CheckKilled()
	s := w.byProc[zrt.CurProc()]
	if s != nil && !w.quietF {
		s.ioOps++
		for i := range s.p.Faults {
			f := &s.p.Faults[i]
			if f.Arm && !s.armed || f.Kind != "store" && f.Kind != "store."+method {
				continue
			}
			s.fcount[i]++
			n := f.Count
			if n == 0 {
				n = 1
			}
			if s.fcount[i] < f.Nth || s.fcount[i] >= f.Nth+n {
				continue
			}
			name := "store " + method
			if f.Applied {
				name += " (applied)"
			}
			w.faults[name]++
			w.addFired(s, "store."+method, m.name, 5)
			err, applied = errStore, f.Applied
			break
		}
		if c := s.p.Crash; c != nil && c.Mode == "io" && c.IO == "store" && (!c.Arm || s.armed) && !s.crashed {
			s.crashN++
			if s.crashN >= c.N {
				if c.When != "after" {
					w.crash(s, method)
					zrt.CheckKilled()
				} else {
					m.busy = method + "!"
				}
			}
		}
	}
	return
}

func (m *memStore) leave() {
	after := len(m.busy) > 0 && m.busy[len(m.busy)-1] == '!'
	zrt.SyncPoint()
	zrt.CheckKilled()
	m.busy = ""
	if after {
		if s := m.w.byProc[zrt.CurProc()]; s != nil {
			m.w.crash(s, "store")
			zrt.CheckKilled()
		}
	}
}

func (m *memStore) resetCache() {
	for _, b := range m.trees {
		m.retire(b, false)
	}
	m.trees = map[[2]uint64]*mbuf{}
	m.cache = true
}

func (m *memStore) ResetCache() error {
	err, ap := m.enter("ResetCache")
	if err == nil || ap {
		m.resetCache()
	}
	m.leave()
	return err
}

func (m *memStore) GetSubTree(layer uint32, tree uint64) ([]byte, bool, error) {
	err, ap := m.enter("GetSubTree")
	if err != nil && !ap {
		m.leave()
		return nil, false, err
	}
	if !m.cache {
		m.leave()
		return nil, false, errors.New("cache not initialised")
	}
	a := [2]uint64{uint64(layer), tree}
	b := m.trees[a]
	exists := b != nil
	n := Libs[0].CachedSubTreeSize(m.params)
	if b == nil {
		b = m.alloc(n)
		for i := range b.buf {
			b.buf[i] = byte(i*7 + 0x5a)
		}
		m.trees[a] = b
	} else if b.buf == nil {
		c := m.alloc(n)
		copy(c.buf, b.save)
		b.mem, b.buf, b.save = c.mem, c.buf, nil
	}
	m.leave()
	if err != nil {
		return nil, false, err
	}
	return b.buf, exists, nil
}

func (m *memStore) HasSubTree(layer uint32, tree uint64) bool {
	m.enter("HasSubTree")
	_, ok := m.trees[[2]uint64{uint64(layer), tree}]
	m.leave()
	return ok && m.cache
}

func (m *memStore) DropSubTree(layer uint32, tree uint64) error {
	err, ap := m.enter("DropSubTree")
	if err == nil || ap {
		a := [2]uint64{uint64(layer), tree}
		if b := m.trees[a]; b != nil {
			m.retire(b, false)
			delete(m.trees, a)
		}
	}
	m.leave()
	return err
}

func (m *memStore) ListSubTrees() ([][2]uint64, error) {
	err, _ := m.enter("ListSubTrees")
	var l [][2]uint64
	for a := range m.trees {
		l = append(l, a)
	}
	sort.Slice(l, func(i, j int) bool { return l[i][0] < l[j][0] || l[i][0] == l[j][0] && l[i][1] < l[j][1] })
	for i := len(l) - 1; i > 0; i-- {
		j := m.w.rng.Intn(i + 1)
		l[i], l[j] = l[j], l[i]
	}
	m.leave()
	if err != nil {
		return nil, err
	}
	return l, nil
}

func (m *memStore) Reset(sk []byte, p simapi.Params) error {
	err, ap := m.enter("Reset")
	if err == nil || ap {
		m.sk = append([]byte(nil), sk...)
		m.params = p
		m.seq, m.lost = 0, 0
		m.init = true
		m.resetCache()
	}
	m.leave()
	return err
}

func (m *memStore) BorrowSeqNos(n uint32) (uint64, error) {
	err, ap := m.enter("BorrowSeqNos")
	v := m.seq
	if err == nil || ap {
		m.seq += uint64(n)
		m.lost += n
	}
	m.leave()
	if err != nil {
		return 0, err
	}
	return v, nil
}

func (m *memStore) SetSeqNo(n uint64) error {
	err, ap := m.enter("SetSeqNo")
	if err == nil || ap {
		m.seq, m.lost = n, 0
	}
	m.leave()
	return err
}

func (m *memStore) GetSeqNo() (uint64, uint32, error) {
	err, _ := m.enter("GetSeqNo")
	a, b := m.seq, m.lost
	m.leave()
	return a, b, err
}

func (m *memStore) GetPrivateKey() ([]byte, error) {
	err, _ := m.enter("GetPrivateKey")
	b := append([]byte(nil), m.sk...)
	m.keys = append(m.keys, b)
	m.leave()
	if err != nil {
		return nil, err
	}
	return b, nil
}

func (m *memStore) Initialized() *simapi.Params {
	m.enter("Initialized")
	m.leave()
	if !m.init {
		return nil
	}
	p := m.params
	return &p
}

func (m *memStore) CacheInitialized() bool {
	m.enter("CacheInitialized")
	m.leave()
	return m.cache
}

func (m *memStore) Close() error {
	err, ap := m.enter("Close")
	if err == nil || ap {
		for _, b := range m.trees {
			m.retire(b, true)
		}
		// A careful store leaves no private keys about.
		for _, b := range m.keys {
			for i := range b {
				b[i] = 0
			}
		}
		m.keys = nil
		m.closed = true
	}
	m.leave()
	return err
}
