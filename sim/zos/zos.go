// Package zos stands in for package os: a simulated file system with a page
// cache, durable state, fault injection and crashes, and simulated processes.
package zos

import (
	"errors"
	"io"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
	"unsafe"

	"github.com/bwesterb/go-xmssmt/zsim/zrt"
)

const sector = 512

// Dir is the directory in which simulated keys live.
const Dir = "/sim"

type inode struct {
	id     int
	dir    bool
	mode   os.FileMode
	nlink  int
	fd     int    // memfd backing the contents once mapped, or -1
	data   []byte // contents while fd < 0
	dur    []byte // contents on stable storage
	minLen int    // shortest length since the last sync
	maps   []*mapping
}

type mapping struct {
	ino  *inode
	mem  []byte // as mapped (page aligned)
	p    *zrt.Proc
	off  int64
	live bool
	path string
}

type dirOp struct {
	kind     string // link, unlink, rename
	from, to string
	ino      *inode
}

// Action is what happens to one operation.
type Action struct {
	Err      syscall.Errno
	Applied  bool   // the operation takes effect although it fails
	Short    int    // for reads and writes: bytes transferred, or -1
	Half     bool   // crash in the middle
	Before   func() // crash before
	After    func() // crash after
	EarlyEOF bool
}

// Op describes one operation to the fault hook.
type Op struct {
	Kind string
	Path string
	Size int
}

// FS is the simulated file system of the current run.
type FS struct {
	ents    map[string]*inode
	dents   map[string]*inode // directory entries on stable storage
	journal map[string][]dirOp
	links   map[string]string // symbolic links
	dlinks  map[string]string // the same, on stable storage
	all     []*inode
	nextIno int
	tmpN    int
	rng     *zrt.RNG
	lax     int
	Hook    func(op *Op) Action
	Monitor func(path string, mode os.FileMode, data []byte)
	// WriteBack is the chance, per operation, that the kernel writes some
	// dirty data to stable storage on its own.
	WriteBack float64
	Ops       map[string]int
	ent       *zrt.RNG
	Entropy   []byte // everything the entropy source produced
	OnEntropy func(off, n int, fail bool)
	// OnRead and OnUnlink see what was read from a file, and the contents
	// of the file that is being unlinked.
	OnRead     func(path string, data []byte)
	OnUnlink   func(path string, data []byte)
	quarantine [][]byte
	maps       []*mapping
	files      []*File
}

// F is the current file system.
var F *FS

// Reset starts an empty file system.
func Reset(seed uint64) {
	if F != nil {
		F.free()
	}
	F = &FS{ents: map[string]*inode{}, dents: map[string]*inode{}, journal: map[string][]dirOp{}, links: map[string]string{}, dlinks: map[string]string{}, rng: zrt.NewRNG(zrt.Mix(seed ^ 0xf5)), ent: zrt.NewRNG(zrt.Mix(seed ^ 0xe17)), Ops: map[string]int{}}
	for _, d := range []string{"/", Dir, "/tmp", "/other"} {
		i := F.newInode(0755, true)
		i.nlink = 1
		F.ents[d], F.dents[d] = i, i
	}
}

func (f *FS) newInode(mode os.FileMode, dir bool) *inode {
	f.nextIno++
	i := &inode{id: f.nextIno, mode: mode, dir: dir, fd: -1}
	f.all = append(f.all, i)
	if !dir && mode&077 != 0 {
		f.lax++
	}
	return i
}

func (f *FS) free() {
	for _, m := range f.maps {
		if m.live && !zrt.RaceMode {
			syscall.Munmap(m.mem)
		}
	}
	for _, q := range f.quarantine {
		syscall.Munmap(q)
	}
	for _, i := range f.all {
		if i.fd >= 0 {
			syscall.Close(i.fd)
		}
	}
}

func memfd() int {
	name := [2]byte{'z', 0}
	fd, _, e := syscall.Syscall(319, uintptr(unsafe.Pointer(&name[0])), 1, 0)
	if e != 0 {
		panic("simulator: memfd_create: " + e.Error())
	}
	return int(fd)
}

func must(err error) {
	if err != nil {
		panic("simulator: " + err.Error())
	}
}

func (i *inode) size() int {
	if i.fd < 0 {
		return len(i.data)
	}
	var st syscall.Stat_t
	must(syscall.Fstat(i.fd, &st))
	return int(st.Size)
}

func (i *inode) content() []byte {
	if i.fd < 0 {
		return append([]byte(nil), i.data...)
	}
	b := make([]byte, i.size())
	i.readAt(b, 0)
	return b
}

func (i *inode) readAt(b []byte, off int) int {
	if i.fd < 0 {
		if off >= len(i.data) {
			return 0
		}
		return copy(b, i.data[off:])
	}
	n := 0
	for n < len(b) {
		k, err := syscall.Pread(i.fd, b[n:], int64(off+n))
		must(err)
		if k == 0 {
			break
		}
		n += k
	}
	return n
}

func (i *inode) writeAt(b []byte, off int) {
	if i.fd < 0 {
		if need := off + len(b); need > len(i.data) {
			i.data = append(i.data, make([]byte, need-len(i.data))...)
		}
		copy(i.data[off:], b)
		return
	}
	n := 0
	for n < len(b) {
		k, err := syscall.Pwrite(i.fd, b[n:], int64(off+n))
		must(err)
		n += k
	}
}

func (i *inode) truncate(n int) {
	if n < i.minLen {
		i.minLen = n
	}
	if i.fd < 0 {
		if n <= len(i.data) {
			i.data = append([]byte(nil), i.data[:n]...)
		} else {
			i.data = append(i.data, make([]byte, n-len(i.data))...)
		}
		return
	}
	must(syscall.Ftruncate(i.fd, int64(n)))
}

func (i *inode) setContent(b []byte) {
	i.truncate(0)
	i.writeAt(b, 0)
}

func (i *inode) sync() {
	i.dur = i.content()
	i.minLen = len(i.dur)
}

// survive computes what a power loss leaves of the file.
func (i *inode) survive(r *zrt.RNG, mode int) []byte {
	vol := i.content()
	dur := i.dur
	switch mode {
	case 0: // nothing unsynced survives
		return append([]byte(nil), dur...)
	case 1: // everything does
		return vol
	}
	if i.minLen < len(dur) {
		// A truncation is pending: either it did not happen (then nothing
		// after it did), or it did.
		if r.Intn(3) == 0 {
			return append([]byte(nil), dur...)
		}
		dur = dur[:i.minLen]
	}
	n := len(dur)
	switch r.Intn(4) {
	case 0, 1:
		n = len(vol)
	case 2:
		if len(vol) > n {
			n += r.Intn(len(vol) - n + 1)
			n = (n + sector - 1) / sector * sector
			if n > len(vol) {
				n = len(vol)
			}
		}
	}
	if n > len(vol) && len(vol) >= i.minLen {
		n = len(vol)
	}
	out := make([]byte, n)
	copy(out, dur)
	p := r.Intn(5) // how likely a sector is to have been written back
	for s := 0; s*sector < n; s++ {
		lo, hi := s*sector, (s+1)*sector
		if hi > n {
			hi = n
		}
		vh := hi
		if vh > len(vol) {
			vh = len(vol)
		}
		if lo < vh && r.Intn(4) < p {
			copy(out[lo:vh], vol[lo:vh])
		}
	}
	return out
}

// PowerLoss drops what has not reached stable storage.  All processes must
// have been killed.
func PowerLoss(seed uint64) {
	f := F
	r := zrt.NewRNG(zrt.Mix(seed))
	var dirs []string
	for d := range f.journal {
		dirs = append(dirs, d)
	}
	sort.Strings(dirs)
	for _, d := range dirs {
		ops := f.journal[d]
		mode := r.Intn(4)
		k := r.Intn(len(ops) + 1)
		for n, op := range ops {
			ok := false
			switch mode {
			case 0:
			case 1:
				ok = true
			case 2:
				ok = n < k
			case 3:
				ok = r.Intn(2) == 0
			}
			if ok {
				f.applyDurable(op)
			}
		}
		delete(f.journal, d)
	}
	f.ents = map[string]*inode{}
	f.links = map[string]string{}
	for n, t := range f.dlinks {
		if f.dents[n] == nil {
			f.links[n] = t
		}
	}
	mode := r.Intn(4)
	var names []string
	for n := range f.dents {
		names = append(names, n)
	}
	sort.Strings(names)
	done := map[*inode]bool{}
	for _, n := range names {
		i := f.dents[n]
		f.ents[n] = i
		if i.dir {
			continue
		}
		if !done[i] {
			done[i] = true
			i.nlink = 0
			b := i.survive(r, mode)
			i.setContent(b)
			i.dur, i.minLen = b, len(b)
		}
		i.nlink++
	}
	zrt.Ev("powerloss", int64(mode), int64(len(names)), "")
}

func (f *FS) applyDurable(op dirOp) {
	switch op.kind {
	case "link":
		f.dents[op.to] = op.ino
	case "unlink":
		if f.dents[op.from] == op.ino {
			delete(f.dents, op.from)
		}
	case "rename":
		if f.dents[op.from] == op.ino {
			delete(f.dents, op.from)
		}
		f.dents[op.to] = op.ino
	}
}

func (f *FS) note(op dirOp) {
	d := filepath.Dir(op.to)
	if op.to == "" {
		d = filepath.Dir(op.from)
	}
	f.journal[d] = append(f.journal[d], op)
}

func (f *FS) syncDir(d string) {
	for _, op := range f.journal[d] {
		f.applyDurable(op)
	}
	delete(f.journal, d)
}

// Settle makes everything durable, as an idle system eventually does.
func Settle() {
	f := F
	var dirs []string
	for d := range f.journal {
		dirs = append(dirs, d)
	}
	for _, d := range dirs {
		f.syncDir(d)
	}
	for _, i := range f.all {
		if !i.dir && i.nlink > 0 {
			i.sync()
		}
	}
}

func (f *FS) maybeWriteBack() {
	if f.WriteBack <= 0 || !f.rng.Chance(f.WriteBack) {
		return
	}
	var l []*inode
	for _, i := range f.all {
		if !i.dir && i.nlink > 0 {
			l = append(l, i)
		}
	}
	if len(l) > 0 {
		i := l[f.rng.Intn(len(l))]
		b := i.survive(f.rng, 1+f.rng.Intn(2))
		i.dur = b
		if i.minLen > len(b) {
			i.minLen = len(b)
		}
		if len(b) >= i.minLen {
			i.minLen = len(b)
		}
		f.Ops["writeback"]++
	}
	// the journal may commit as well
	if f.rng.Intn(3) == 0 {
		for _, d := range []string{Dir} {
			if ops := f.journal[d]; len(ops) > 0 {
				k := 1 + f.rng.Intn(len(ops))
				for _, op := range ops[:k] {
					f.applyDurable(op)
				}
				f.journal[d] = append([]dirOp(nil), ops[k:]...)
				f.Ops["journal-commit"]++
			}
		}
	}
}

var cost = map[string]int64{"open": 30e3, "create": 60e3, "read": 10e3, "write": 20e3, "sync": 5e6, "dirsync": 5e6, "rename": 60e3, "link": 60e3, "unlink": 50e3, "mmap": 20e3, "munmap": 20e3, "truncate": 40e3, "close": 5e3, "stat": 5e3, "entropy": 2e3}

func begin(kind, path string, size int) Action {
	zrt.CheckKilled()
	zrt.SyncPoint()
	zrt.CheckKilled()
	zrt.Advance(cost[kind])
	F.Ops[kind]++
	a := Action{Short: -1}
	if F.Hook != nil {
		a = F.Hook(&Op{kind, path, size})
	}
	zrt.Ev(kind, int64(size), int64(a.Err), path)
	if a.Before != nil {
		a.Before()
		zrt.CheckKilled()
	}
	F.maybeWriteBack()
	return a
}

func end(a *Action) {
	F.checkModes()
	if a.After != nil {
		a.After()
		zrt.CheckKilled()
	}
	zrt.SyncPoint()
	zrt.CheckKilled()
}

func (f *FS) checkModes() {
	if f.lax == 0 || f.Monitor == nil {
		return
	}
	for _, i := range f.all {
		if !i.dir && i.mode&077 != 0 && i.nlink > 0 {
			f.Monitor(f.nameOf(i), i.mode, i.content())
		}
	}
}

func (f *FS) nameOf(i *inode) string {
	best := ""
	for n, x := range f.ents {
		if x == i && (best == "" || n < best) {
			best = n
		}
	}
	return best
}

func clean(p string) string {
	if !filepath.IsAbs(p) {
		p = filepath.Join(Dir, p)
	}
	return filepath.Clean(p)
}

// abs is the name of the file that p leads to.
func abs(p string) string { return F.follow(clean(p), true) }

// nabs is abs, except that p itself may be a symbolic link.
func nabs(p string) string { return F.follow(clean(p), false) }

func (f *FS) follow(p string, last bool) string {
	for n := 0; n < 20 && len(f.links) > 0; n++ {
		if t, ok := f.links[p]; ok && last {
			p = t
			continue
		}
		hit := false
		for d := filepath.Dir(p); d != "/"; d = filepath.Dir(d) {
			if t, ok := f.links[d]; ok {
				p, hit = filepath.Join(t, p[len(d):]), true
				break
			}
		}
		if !hit {
			break
		}
	}
	return p
}

// AddLink makes a symbolic link that is on stable storage.  target is an
// absolute path.
func AddLink(target, name string) {
	F.links[name], F.dlinks[name] = target, target
}

func Symlink(target, name string) error {
	q := nabs(name)
	a := begin("link", q, 0)
	defer end(&a)
	if a.Err != 0 && !a.Applied {
		return lerr("symlink", target, name, a.Err)
	}
	if _, ok := F.links[q]; ok || F.ents[q] != nil {
		return lerr("symlink", target, name, syscall.EEXIST)
	}
	if !filepath.IsAbs(target) {
		target = filepath.Join(filepath.Dir(q), target)
	}
	AddLink(filepath.Clean(target), q)
	if a.Err != 0 {
		return lerr("symlink", target, name, a.Err)
	}
	return nil
}

func Readlink(name string) (string, error) {
	p := nabs(name)
	a := begin("stat", p, 0)
	defer end(&a)
	if a.Err != 0 {
		return "", perr("readlink", name, a.Err)
	}
	if t, ok := F.links[p]; ok {
		return t, nil
	}
	if F.ents[p] == nil {
		return "", perr("readlink", name, syscall.ENOENT)
	}
	return "", perr("readlink", name, syscall.EINVAL)
}

func perr(op, path string, e error) error { return &os.PathError{Op: op, Path: path, Err: e} }

// File is os.File.
type File struct {
	ino    *inode
	name   string
	path   string
	pos    int64
	flag   int
	closed bool
	ents   []string
	p      *zrt.Proc
}

func Open(name string) (*File, error) { return OpenFile(name, os.O_RDONLY, 0) }
func Create(name string) (*File, error) {
	return OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)
}

func OpenFile(name string, flag int, perm os.FileMode) (*File, error) {
	kind := "open"
	if flag&os.O_CREATE != 0 {
		kind = "create"
	}
	p := abs(name)
	a := begin(kind, p, 0)
	if a.Err != 0 {
		end(&a)
		return nil, perr("open", name, a.Err)
	}
	if flag&os.O_CREATE != 0 && flag&os.O_EXCL != 0 && nabs(name) != p {
		end(&a)
		return nil, perr("open", name, syscall.EEXIST)
	}
	i := F.ents[p]
	if i == nil {
		if flag&os.O_CREATE == 0 {
			end(&a)
			return nil, perr("open", name, syscall.ENOENT)
		}
		if d := F.ents[filepath.Dir(p)]; d == nil || !d.dir {
			end(&a)
			return nil, perr("open", name, syscall.ENOENT)
		}
		i = F.newInode(perm&^022, false)
		i.nlink = 1
		F.ents[p] = i
		F.note(dirOp{kind: "link", to: p, ino: i})
	} else {
		if flag&os.O_CREATE != 0 && flag&os.O_EXCL != 0 {
			end(&a)
			return nil, perr("open", name, syscall.EEXIST)
		}
		if i.dir && flag&(os.O_WRONLY|os.O_RDWR) != 0 {
			end(&a)
			return nil, perr("open", name, syscall.EISDIR)
		}
		if a.Half {
			// crash between lookup and truncation
			if a.After != nil {
				a.After()
				zrt.CheckKilled()
			}
		}
		if flag&os.O_TRUNC != 0 && !i.dir {
			i.truncate(0)
		}
	}
	end(&a)
	f := &File{ino: i, name: name, path: p, flag: flag, p: zrt.CurProc()}
	F.files = append(F.files, f)
	return f, nil
}

func CreateTemp(dir, pattern string) (*File, error) {
	if dir == "" {
		dir = "/tmp"
	}
	pre, suf := pattern, ""
	if k := strings.LastIndex(pattern, "*"); k >= 0 {
		pre, suf = pattern[:k], pattern[k+1:]
	}
	for {
		F.tmpN++
		f, err := OpenFile(filepath.Join(dir, pre+strconv.Itoa(100000+F.tmpN)+suf), os.O_RDWR|os.O_CREATE|os.O_EXCL, 0600)
		if os.IsExist(err) {
			continue
		}
		return f, err
	}
}

func MkdirTemp(dir, pattern string) (string, error) {
	if dir == "" {
		dir = "/tmp"
	}
	F.tmpN++
	n := filepath.Join(dir, pattern+strconv.Itoa(100000+F.tmpN))
	return n, Mkdir(n, 0700)
}

func Mkdir(name string, perm os.FileMode) error {
	p := abs(name)
	a := begin("create", p, 0)
	defer end(&a)
	if a.Err != 0 {
		return perr("mkdir", name, a.Err)
	}
	if F.ents[p] != nil {
		return perr("mkdir", name, syscall.EEXIST)
	}
	i := F.newInode(perm, true)
	i.nlink = 1
	F.ents[p] = i
	F.note(dirOp{kind: "link", to: p, ino: i})
	return nil
}

func MkdirAll(name string, perm os.FileMode) error {
	p := abs(name)
	if i := F.ents[p]; i != nil {
		if i.dir {
			return nil
		}
		return perr("mkdir", name, syscall.ENOTDIR)
	}
	if err := MkdirAll(filepath.Dir(p), perm); err != nil {
		return err
	}
	return Mkdir(name, perm)
}

func (f *File) bad(op string) error {
	if f == nil {
		return os.ErrInvalid
	}
	if f.closed {
		return perr(op, f.name, os.ErrClosed)
	}
	return nil
}

func (f *File) Name() string { return f.name }
func (f *File) Fd() uintptr  { return uintptr(f.ino.id + 100) }

func (f *File) Read(b []byte) (int, error) {
	n, err := f.pread(b, f.pos)
	f.pos += int64(n)
	return n, err
}

func (f *File) ReadAt(b []byte, off int64) (int, error) {
	n := 0
	for n < len(b) {
		k, err := f.pread(b[n:], off+int64(n))
		n += k
		if err != nil {
			return n, err
		}
	}
	return n, nil
}

func (f *File) pread(b []byte, off int64) (int, error) {
	zrt.CheckKilled()
	if err := f.bad("read"); err != nil {
		return 0, err
	}
	a := begin("read", f.path, len(b))
	defer end(&a)
	if a.Err != 0 {
		return 0, perr("read", f.name, a.Err)
	}
	if f.ino.dir {
		return 0, perr("read", f.name, syscall.EISDIR)
	}
	if len(b) == 0 {
		return 0, nil
	}
	if a.Short > 0 && a.Short < len(b) {
		b = b[:a.Short]
	}
	n := f.ino.readAt(b, int(off))
	if F.OnRead != nil && off == 0 {
		F.OnRead(f.path, b[:n])
	}
	if n == 0 {
		return 0, io.EOF
	}
	return n, nil
}

func (f *File) Write(b []byte) (int, error) {
	if f != nil && f.flag&os.O_APPEND != 0 && !f.closed {
		f.pos = int64(f.ino.size())
	}
	n, err := f.pwrite(b, f.pos)
	f.pos += int64(n)
	return n, err
}

func (f *File) WriteAt(b []byte, off int64) (int, error) { return f.pwrite(b, off) }
func (f *File) WriteString(s string) (int, error)        { return f.Write([]byte(s)) }

func (f *File) pwrite(b []byte, off int64) (int, error) {
	zrt.CheckKilled()
	if err := f.bad("write"); err != nil {
		return 0, err
	}
	a := begin("write", f.path, len(b))
	defer end(&a)
	if f.flag&(os.O_WRONLY|os.O_RDWR) == 0 {
		return 0, perr("write", f.name, syscall.EBADF)
	}
	if a.Err != 0 {
		n := 0
		if a.Short > 0 {
			n = a.Short
			if n > len(b) {
				n = len(b)
			}
			f.ino.writeAt(b[:n], int(off))
		} else if a.Applied {
			n = len(b) - 1
			f.ino.writeAt(b[:n], int(off))
		}
		return n, perr("write", f.name, a.Err)
	}
	if a.Half {
		f.ino.writeAt(b[:len(b)/2], int(off))
		if a.After != nil {
			a.After()
			zrt.CheckKilled()
		}
	}
	f.ino.writeAt(b, int(off))
	return len(b), nil
}

func (f *File) Seek(off int64, whence int) (int64, error) {
	zrt.CheckKilled()
	if err := f.bad("seek"); err != nil {
		return 0, err
	}
	switch whence {
	case 1:
		off += f.pos
	case 2:
		off += int64(f.ino.size())
	}
	if off < 0 {
		return 0, perr("seek", f.name, syscall.EINVAL)
	}
	f.pos = off
	return off, nil
}

func (f *File) Sync() error {
	zrt.CheckKilled()
	if err := f.bad("sync"); err != nil {
		return err
	}
	kind := "sync"
	if f.ino.dir {
		kind = "dirsync"
	}
	a := begin(kind, f.path, 0)
	defer end(&a)
	if a.Err != 0 && !a.Applied {
		return perr("sync", f.name, a.Err)
	}
	if f.ino.dir {
		F.syncDir(f.path)
	} else {
		f.ino.sync()
	}
	if a.Err != 0 {
		return perr("sync", f.name, a.Err)
	}
	return nil
}

func (f *File) Truncate(size int64) error {
	zrt.CheckKilled()
	if err := f.bad("truncate"); err != nil {
		return err
	}
	a := begin("truncate", f.path, int(size))
	defer end(&a)
	if a.Err != 0 && !a.Applied {
		return perr("truncate", f.name, a.Err)
	}
	if f.flag&(os.O_WRONLY|os.O_RDWR) == 0 || size < 0 || size > 1<<32 {
		return perr("truncate", f.name, syscall.EINVAL)
	}
	f.ino.truncate(int(size))
	if a.Err != 0 {
		return perr("truncate", f.name, a.Err)
	}
	return nil
}

func Truncate(name string, size int64) error {
	f, err := OpenFile(name, os.O_WRONLY, 0)
	if err != nil {
		return err
	}
	defer f.Close()
	return f.Truncate(size)
}

func (f *File) Close() error {
	zrt.CheckKilled()
	if err := f.bad("close"); err != nil {
		return err
	}
	a := begin("close", f.path, 0)
	defer end(&a)
	f.closed = true
	for i, x := range F.files {
		if x == f {
			F.files = append(F.files[:i:i], F.files[i+1:]...)
			break
		}
	}
	if a.Err != 0 {
		return perr("close", f.name, a.Err)
	}
	return nil
}

func (f *File) Chmod(m os.FileMode) error {
	zrt.CheckKilled()
	if err := f.bad("chmod"); err != nil {
		return err
	}
	return Chmod(f.path, m)
}

func Chmod(name string, m os.FileMode) error {
	p := abs(name)
	a := begin("stat", p, 0)
	defer end(&a)
	i := F.ents[p]
	if i == nil {
		return perr("chmod", name, syscall.ENOENT)
	}
	if !i.dir && i.mode&077 == 0 && m&077 != 0 {
		F.lax++
	}
	i.mode = m
	return nil
}

func Chtimes(name string, _, _ time.Time) error { return nil }

type info struct {
	name string
	size int64
	mode os.FileMode
	dir  bool
	ino  *inode
}

func (i info) Name() string { return i.name }
func (i info) Size() int64  { return i.size }
func (i info) Mode() os.FileMode {
	if i.dir {
		return i.mode | os.ModeDir
	}
	return i.mode
}
func (i info) ModTime() time.Time { return time.Unix(1700000000, 0) }
func (i info) IsDir() bool        { return i.dir }
func (i info) Sys() interface{}   { return nil }

func infoOf(p string, i *inode) info {
	n := 0
	if !i.dir {
		n = i.size()
	}
	return info{filepath.Base(p), int64(n), i.mode, i.dir, i}
}

func (f *File) Stat() (os.FileInfo, error) {
	zrt.CheckKilled()
	if err := f.bad("stat"); err != nil {
		return nil, err
	}
	a := begin("stat", f.path, 0)
	defer end(&a)
	if a.Err != 0 {
		return nil, perr("stat", f.name, a.Err)
	}
	return infoOf(f.path, f.ino), nil
}

func stat(op, name string) (os.FileInfo, error) {
	p := abs(name)
	if op == "lstat" {
		p = nabs(name)
	}
	a := begin("stat", p, 0)
	defer end(&a)
	if a.Err != 0 {
		return nil, perr(op, name, a.Err)
	}
	if _, ok := F.links[p]; ok {
		return info{filepath.Base(p), 0, os.ModeSymlink | 0777, false, nil}, nil
	}
	i := F.ents[p]
	if i == nil {
		return nil, perr(op, name, syscall.ENOENT)
	}
	return infoOf(p, i), nil
}

func Stat(name string) (os.FileInfo, error)  { return stat("stat", name) }
func Lstat(name string) (os.FileInfo, error) { return stat("lstat", name) }

func SameFile(a, b os.FileInfo) bool {
	x, ok1 := a.(info)
	y, ok2 := b.(info)
	return ok1 && ok2 && x.ino == y.ino && x.ino != nil
}

func (f *FS) drop(i *inode) { i.nlink-- }

func Remove(name string) error {
	p := nabs(name)
	a := begin("unlink", p, 0)
	defer end(&a)
	if a.Err != 0 && !a.Applied {
		return perr("remove", name, a.Err)
	}
	if _, ok := F.links[p]; ok {
		delete(F.links, p)
		return nil
	}
	i := F.ents[p]
	if i == nil {
		return perr("remove", name, syscall.ENOENT)
	}
	if i.dir {
		for n := range F.ents {
			if n != p && strings.HasPrefix(n, p+"/") {
				return perr("remove", name, syscall.ENOTEMPTY)
			}
		}
	}
	if F.OnUnlink != nil && !i.dir {
		F.OnUnlink(p, i.content())
	}
	delete(F.ents, p)
	F.drop(i)
	F.note(dirOp{kind: "unlink", from: p, ino: i})
	if a.Err != 0 {
		return perr("remove", name, a.Err)
	}
	return nil
}

func RemoveAll(name string) error {
	p := nabs(name)
	if _, ok := F.links[p]; ok {
		return Remove(name)
	}
	var l []string
	for n := range F.ents {
		if n == p || strings.HasPrefix(n, p+"/") {
			l = append(l, n)
		}
	}
	sort.Sort(sort.Reverse(sort.StringSlice(l)))
	for _, n := range l {
		if err := Remove(n); err != nil && !os.IsNotExist(err) {
			return err
		}
	}
	return nil
}

func lerr(op, from, to string, e error) error {
	return &os.LinkError{Op: op, Old: from, New: to, Err: e}
}

func Rename(from, to string) error {
	p, q := nabs(from), nabs(to)
	a := begin("rename", p, 0)
	defer end(&a)
	if a.Err != 0 && !a.Applied {
		return lerr("rename", from, to, a.Err)
	}
	i := F.ents[p]
	if t, ok := F.links[p]; ok {
		delete(F.links, p)
		F.links[q] = t
		return nil
	}
	if i == nil {
		return lerr("rename", from, to, syscall.ENOENT)
	}
	if d := F.ents[filepath.Dir(q)]; d == nil || !d.dir {
		return lerr("rename", from, to, syscall.ENOENT)
	}
	if o := F.ents[q]; o == i {
		return nil
	} else if o != nil {
		if o.dir {
			return lerr("rename", from, to, syscall.EEXIST)
		}
		F.drop(o)
	}
	delete(F.ents, p)
	delete(F.links, q)
	F.ents[q] = i
	F.note(dirOp{kind: "rename", from: p, to: q, ino: i})
	if a.Err != 0 {
		return lerr("rename", from, to, a.Err)
	}
	return nil
}

func Link(from, to string) error {
	p, q := nabs(from), nabs(to)
	a := begin("link", q, 0)
	defer end(&a)
	if a.Err != 0 && !a.Applied {
		return lerr("link", from, to, a.Err)
	}
	i := F.ents[p]
	if i == nil {
		return lerr("link", from, to, syscall.ENOENT)
	}
	if _, ok := F.links[q]; ok || F.ents[q] != nil {
		return lerr("link", from, to, syscall.EEXIST)
	}
	i.nlink++
	F.ents[q] = i
	F.note(dirOp{kind: "link", to: q, ino: i})
	if a.Err != 0 {
		return lerr("link", from, to, a.Err)
	}
	return nil
}

func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return io.ReadAll(f)
}

func WriteFile(name string, data []byte, perm os.FileMode) error {
	f, err := OpenFile(name, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if err2 := f.Close(); err == nil {
		err = err2
	}
	return err
}

func children(p string) []string {
	var l []string
	for n := range F.ents {
		if n != p && filepath.Dir(n) == p {
			l = append(l, n)
		}
	}
	sort.Strings(l)
	return l
}

func ReadDir(name string) ([]os.DirEntry, error) {
	l, err := ReadDirInfo(name)
	var out []os.DirEntry
	for _, i := range l {
		out = append(out, fs.FileInfoToDirEntry(i))
	}
	return out, err
}

func ReadDirInfo(name string) ([]os.FileInfo, error) {
	p := abs(name)
	a := begin("open", p, 0)
	defer end(&a)
	if a.Err != 0 {
		return nil, perr("open", name, a.Err)
	}
	if F.ents[p] == nil {
		return nil, perr("open", name, syscall.ENOENT)
	}
	var out []os.FileInfo
	for _, n := range children(p) {
		out = append(out, infoOf(n, F.ents[n]))
	}
	return out, nil
}

func (f *File) Readdirnames(n int) ([]string, error) {
	l, err := ReadDirInfo(f.path)
	var out []string
	for _, i := range l {
		out = append(out, i.Name())
	}
	return out, err
}

func (f *File) ReadDir(n int) ([]os.DirEntry, error) { return ReadDir(f.path) }
func (f *File) Readdir(n int) ([]os.FileInfo, error) { return ReadDirInfo(f.path) }
func (f *File) ReadFrom(r io.Reader) (int64, error) {
	b, err := io.ReadAll(r)
	if err != nil {
		return 0, err
	}
	n, err := f.Write(b)
	return int64(n), err
}

func EvalSymlinks(p string) (string, error) {
	if _, err := Stat(p); err != nil {
		if e, ok := err.(*os.PathError); ok {
			e.Op = "lstat"
		}
		return "", err
	}
	q := abs(p)
	if !filepath.IsAbs(p) {
		if r, err := filepath.Rel(Dir, q); err == nil {
			return r, nil
		}
	}
	return q, nil
}

func Getwd() (string, error) { return Dir, nil }

// Abs is filepath.Abs for a process whose working directory is Dir.
func Abs(p string) (string, error) { return clean(p), nil }

func Glob(pattern string) ([]string, error) {
	var l []string
	for n := range F.ents {
		if ok, err := filepath.Match(clean(pattern), n); err != nil {
			return nil, err
		} else if ok {
			l = append(l, n)
		}
	}
	sort.Strings(l)
	return l, nil
}

func Getpid() int {
	if p := zrt.CurProc(); p != nil {
		return p.Pid
	}
	return 1
}
func Getppid() int { return 1 }

func Getpagesize() int {
	if p := zrt.CurProc(); p != nil {
		return p.PageSize
	}
	return 4096
}

// Exit ends the process.
func Exit(code int) {
	if p := zrt.CurProc(); p != nil {
		zrt.Kill(p)
		zrt.CheckKilled()
	}
	os.Exit(code)
}

// Process is os.Process.
type Process struct{ Pid int }

func FindProcess(pid int) (*Process, error) { return &Process{pid}, nil }

func (p *Process) Signal(sig os.Signal) error {
	zrt.SyncPoint()
	zrt.CheckKilled()
	if !zrt.Alive(p.Pid) {
		return os.ErrProcessDone
	}
	return nil
}
func (p *Process) Kill() error    { return errors.New("not simulated") }
func (p *Process) Release() error { return nil }

// ReadEntropy reads from the simulated entropy source.
func ReadEntropy(b []byte) (int, error) {
	a := begin("entropy", "", len(b))
	defer end(&a)
	n := len(b)
	if a.Short >= 0 && a.Short < n {
		n = a.Short
	}
	if a.Err != 0 && a.Short < 0 {
		return 0, perr("read", "/dev/urandom", a.Err)
	}
	for i := 0; i < n; i++ {
		b[i] = byte(F.ent.Uint64() >> 13)
	}
	F.Entropy = append(F.Entropy, b[:n]...)
	if F.OnEntropy != nil {
		F.OnEntropy(len(F.Entropy)-n, n, a.Err != 0)
	}
	if a.Err != 0 {
		return n, perr("read", "/dev/urandom", a.Err)
	}
	return n, nil
}

// ---- memory mappings

// Map maps part of a file.
func Map(f *File, length int, writable, private bool, off int64) ([]byte, error) {
	zrt.CheckKilled()
	if err := f.bad("mmap"); err != nil {
		return nil, syscall.EBADF
	}
	a := begin("mmap", f.path, length)
	defer end(&a)
	if a.Err != 0 {
		return nil, os.NewSyscallError("mmap", a.Err)
	}
	if length <= 0 || off < 0 {
		return nil, syscall.EINVAL
	}
	if writable && f.flag&os.O_RDWR == 0 {
		return nil, syscall.EACCES
	}
	i := f.ino
	m := &mapping{ino: i, p: zrt.CurProc(), off: off, live: true, path: f.path}
	if zrt.RaceMode {
		m.mem = make([]byte, length)
		i.readAt(m.mem, int(off))
	} else {
		if i.fd < 0 {
			b := i.data
			i.fd = memfd()
			i.data = nil
			i.writeAt(b, 0)
		}
		prot := syscall.PROT_READ
		if writable {
			prot |= syscall.PROT_WRITE
		}
		fl := syscall.MAP_SHARED
		if private {
			fl = syscall.MAP_PRIVATE
			prot |= syscall.PROT_WRITE
		}
		mem, err := syscall.Mmap(i.fd, off, length, prot, fl)
		if err != nil {
			panic("simulator: mmap: " + err.Error())
		}
		m.mem = mem
	}
	i.maps = append(i.maps, m)
	F.maps = append(F.maps, m)
	return m.mem, nil
}

func find(b []byte) *mapping {
	if len(b) == 0 {
		return nil
	}
	for _, m := range F.maps {
		if m.live && &m.mem[0] == &b[0] && len(m.mem) == len(b) {
			return m
		}
	}
	return nil
}

// Unmap removes a mapping.  The address range stays reserved and
// inaccessible until the end of the run, so that late accesses fault.
func Unmap(b []byte) error {
	m := find(b)
	path := ""
	if m != nil {
		path = m.path
	}
	a := begin("munmap", path, len(b))
	defer end(&a)
	if a.Err != 0 && !a.Applied {
		return a.Err
	}
	if m == nil || !m.live {
		return syscall.EINVAL
	}
	F.unmap(m)
	if a.Err != 0 {
		return a.Err
	}
	return nil
}

func (f *FS) unmap(m *mapping) {
	m.live = false
	if zrt.RaceMode {
		n := len(m.mem)
		if sz := m.ino.size() - int(m.off); n > sz {
			n = sz
		}
		if n > 0 {
			m.ino.writeAt(m.mem[:n], int(m.off))
		}
		return
	}
	must(syscall.Mprotect(m.mem, syscall.PROT_NONE))
	f.quarantine = append(f.quarantine, m.mem)
}

// ProcessDied releases what a dead process had mapped; the data stays in the
// page cache.
func ProcessDied(p *zrt.Proc) {
	for _, m := range F.maps {
		if m.live && m.p == p {
			F.unmap(m)
		}
	}
	var l []*File
	for _, f := range F.files {
		if f.p != p {
			l = append(l, f)
		}
	}
	F.files = l
}

// OpenFiles lists the files a process has open.
func OpenFiles(p *zrt.Proc) []string {
	var l []string
	for _, f := range F.files {
		if f.p == p && !f.closed {
			l = append(l, f.path)
		}
	}
	return l
}

// Mappings counts the mappings a process has.
func Mappings(p *zrt.Proc) int {
	n := 0
	for _, m := range F.maps {
		if m.live && m.p == p {
			n++
		}
	}
	return n
}

// ---- access for the harness, outside simulated time

// Peek returns the contents of a file, and whether it exists.
func Peek(name string) ([]byte, bool) {
	i := F.ents[abs(name)]
	if i == nil || i.dir {
		return nil, false
	}
	return i.content(), true
}

// Poke replaces the contents of a file, durably, creating it if needed.
func Poke(name string, b []byte) {
	p := abs(name)
	i := F.ents[p]
	if i == nil {
		i = F.newInode(0600, false)
		i.nlink = 1
		F.ents[p], F.dents[p] = i, i
	}
	i.setContent(b)
	i.sync()
}

// Erase removes a file, durably.
func Erase(name string) {
	p := abs(name)
	if i := F.ents[p]; i != nil {
		delete(F.ents, p)
		delete(F.dents, p)
		i.nlink--
	}
}

// List names the files that exist.
func List() []string {
	var l []string
	for n, i := range F.ents {
		if !i.dir {
			l = append(l, n)
		}
	}
	sort.Strings(l)
	return l
}

// Flush is msync.
func Flush(b []byte) error {
	m := find(b)
	path := ""
	if m != nil {
		path = m.path
	}
	a := begin("sync", path, len(b))
	defer end(&a)
	if a.Err != 0 && !a.Applied {
		return a.Err
	}
	if m == nil || !m.live {
		return nil
	}
	i := m.ino
	hi := int(m.off) + len(m.mem)
	if sz := i.size(); hi > sz {
		hi = sz
	}
	if hi > len(i.dur) {
		i.dur = append(append([]byte(nil), i.dur...), make([]byte, hi-len(i.dur))...)
	} else {
		i.dur = append([]byte(nil), i.dur...)
	}
	if hi > int(m.off) {
		i.readAt(i.dur[m.off:hi], int(m.off))
	}
	if a.Err != 0 {
		return a.Err
	}
	return nil
}
