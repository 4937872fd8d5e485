package h

import (
	"bytes"
	"encoding/base64"
	"encoding/binary"
	"fmt"
	"hash/fnv"
	"unsafe"

	"github.com/bwesterb/go-xmssmt/zsim/ref"
	"github.com/bwesterb/go-xmssmt/zsim/simapi"
	"github.com/bwesterb/go-xmssmt/zsim/zos"
	"github.com/bwesterb/go-xmssmt/zsim/zrt"
)

// ---- damage at rest

func at(pos, n int) int {
	if n <= 0 {
		return 0
	}
	return int(uint64(pos%(1<<20)) * uint64(n) >> 20)
}

func (w *World) damage(d Damage) {
	ps := w.path(d.Path)
	if ps.store != nil {
		w.storeDamage(ps.store, d)
		return
	}
	file := ps.name + ".cache"
	r := zrt.NewRNG(zrt.Mix(d.Seed ^ 0xda))
	b, ok := zos.Peek(file)
	w.faults["damage: "+d.Kind]++
	zrt.Ev("damage", int64(d.Pos), int64(len(b)), d.Kind)
	switch d.Kind {
	case "snap":
		ps.snap, ps.snapOK = b, ok
		return
	case "restore":
		if ps.snapOK {
			zos.Poke(file, ps.snap)
		}
		return
	case "fromother":
		if o, ok := zos.Peek(w.path(d.N).name + ".cache"); ok {
			zos.Poke(file, o)
		}
		return
	case "tmpjunk":
		j := make([]byte, d.N)
		for i := range j {
			j[i] = byte(r.Uint64() >> 9)
		}
		zos.Poke(ps.name+".tmp", j)
		return
	case "lockjunk":
		// an unclean power loss may leave an empty or torn lock file
		s := []string{"", "12", "\x00\x00\x00\x00", "abc\n", "99999999\n", "-5\n"}[d.N%6]
		zos.Poke(ps.name+".lock", []byte(s))
		return
	case "create-empty":
		zos.Poke(file, nil)
		return
	}
	if !ok {
		return
	}
	slot, al := w.slots(ps, b)
	switch d.Kind {
	case "erase":
		zos.Erase(file)
		return
	case "empty":
		b = nil
	case "truncate":
		b = b[:at(d.Pos, len(b)+1)]
	case "trunchead":
		b = b[:at(d.Pos, 30)%(len(b)+1)]
	case "extend":
		b = append(b, make([]byte, 1+d.N%9000)...)
	case "flip":
		for i := 0; i <= d.N%4; i++ {
			if len(b) > 0 {
				p := at(d.Pos+i*77777, len(b))
				b[p] ^= 1 << uint(r.Intn(8))
			}
		}
	case "fliphead":
		if len(b) > 0 {
			p := at(d.Pos, 17) % len(b)
			b[p] ^= 1 << uint(r.Intn(8))
		}
	case "flipslot": // inside the data of a used slot
		if n := (len(b) - al) / max1(slot); n > 0 {
			i := al + r.Intn(n)*slot
			sz := w.dataSize(ps)
			if i+13+sz <= len(b) {
				for k := 0; k <= d.N%3; k++ {
					b[i+13+at(d.Pos+k*99991, sz)] ^= 1 << uint(r.Intn(8))
				}
			}
		}
	case "slothead": // garbage in the header of a slot
		if n := (len(b) - al) / max1(slot); n > 0 {
			i := al + r.Intn(n)*slot
			if i+13 <= len(b) {
				switch d.N % 5 {
				case 0:
					b[i] ^= 1
				case 1:
					b[i+1+r.Intn(12)] ^= 1 << uint(r.Intn(8))
				case 2:
					for k := 0; k < 13; k++ {
						b[i+k] = byte(r.Uint64() >> 8)
					}
				case 3:
					b[i] = byte(2 + r.Intn(250))
				case 4: // a plausible but different address
					binary.BigEndian.PutUint32(b[i+1:], uint32(r.Intn(4)))
					binary.BigEndian.PutUint64(b[i+5:], uint64(r.Intn(8)))
					b[i] = 1
				}
			}
		}
	case "swap", "copyslot": // contents of slots exchanged or duplicated
		if n := (len(b) - al) / max1(slot); n > 1 {
			i, j := r.Intn(n), r.Intn(n-1)
			if j >= i {
				j++
			}
			x, y := b[al+i*slot:al+(i+1)*slot], b[al+j*slot:al+(j+1)*slot]
			lo := 0
			if d.N%2 == 1 {
				lo = 13 // data only
			}
			t := append([]byte(nil), x[lo:]...)
			copy(x[lo:], y[lo:])
			if d.Kind == "swap" {
				copy(y[lo:], t)
			}
		}
	case "count":
		if len(b) >= 12 {
			v := binary.BigEndian.Uint32(b[8:])
			switch d.N % 4 {
			case 0:
				v++
			case 1:
				if v > 0 {
					v--
				}
			case 2:
				v = 0
			case 3:
				v += uint32(r.Intn(20))
			}
			binary.BigEndian.PutUint32(b[8:], v)
		}
	case "zerosect":
		s := at(d.Pos, len(b)/512+1) * 512
		for i := s; i < s+512 && i < len(b); i++ {
			b[i] = 0
		}
	case "torn": // the old snapshot shows through in some sectors
		if ps.snapOK {
			for s := 0; s < len(b); s += 512 {
				if r.Intn(2) == 0 && s < len(ps.snap) {
					copy(b[s:min(s+512, len(b))], ps.snap[s:min(s+512, len(ps.snap))])
				}
			}
		}
	case "garbage":
		for i := range b {
			b[i] = byte(r.Uint64() >> 7)
		}
	case "v0": // the older format: possible if subtrees are aligned to 4096
		if al == 4096 && len(b) >= 17 && b[12] == 1 {
			copy(b, []byte{0xe7, 0x79, 0x57, 0x60, 0x7e, 0xf7, 0x94, 0x46})
			for i := 12; i < 17; i++ {
				b[i] = 0
			}
			w.counts["cache format 0"]++
		}
	case "align0": // zero means 4096
		if al == 4096 && len(b) >= 17 && b[12] == 1 {
			for i := 13; i < 17; i++ {
				b[i] = 0
			}
			w.counts["cache alignment 0"]++
		}
	default:
		panic("harness: unknown damage " + d.Kind)
	}
	zos.Poke(file, b)
}

func max1(n int) int {
	if n < 1 {
		return 1
	}
	return n
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func (w *World) dataSize(ps *pathState) int {
	for _, id := range ps.poss {
		if id != nil && id.ref != nil {
			return Libs[0].CachedSubTreeSize(id.ref.P)
		}
	}
	return Libs[0].CachedSubTreeSize(w.p.Params)
}

// slots reads the geometry of a cache file.
func (w *World) slots(ps *pathState, b []byte) (slot, al int) {
	al = 4096
	if len(b) >= 17 && b[12] == 1 {
		if a := int(binary.BigEndian.Uint32(b[13:])); a > 0 && a <= 1<<20 {
			al = a
		}
	}
	sz := w.dataSize(ps) + 13
	return (sz + al - 1) / al * al, al
}

func (w *World) storeDamage(m *memStore, d Damage) {
	if m.owner != nil && !m.closed {
		return
	}
	r := zrt.NewRNG(zrt.Mix(d.Seed ^ 0xdb))
	var l [][2]uint64
	for a := range m.trees {
		l = append(l, a)
	}
	for i := range l {
		for j := i + 1; j < len(l); j++ {
			if l[j][0] < l[i][0] || l[j][0] == l[i][0] && l[j][1] < l[i][1] {
				l[i], l[j] = l[j], l[i]
			}
		}
	}
	w.faults["damage: store "+d.Kind]++
	switch d.Kind {
	case "erase":
		m.cache = false
		m.trees = map[[2]uint64]*mbuf{}
	case "swap":
		if len(l) > 1 {
			i := r.Intn(len(l) - 1)
			a, b := m.trees[l[i]], m.trees[l[i+1]]
			a.save, b.save = b.save, a.save
		}
	default:
		for _, a := range l {
			if b := m.trees[a]; len(b.save) > 0 && r.Intn(2) == 0 {
				b.save[r.Intn(len(b.save))] ^= 1 << uint(r.Intn(8))
			}
		}
	}
}

// ---- verification of what was transmitted

func (d *SigDamage) apply(b []byte, other []byte) []byte {
	o := append([]byte(nil), b...)
	r := zrt.NewRNG(zrt.Mix(d.Seed ^ 0x51))
	switch d.Kind {
	case "flip":
		if len(o) > 0 {
			o[at(d.Pos, len(o))] ^= 1 << uint(d.Bit%8)
		}
	case "fliphead":
		if len(o) > 0 {
			o[at(d.Pos, min(16, len(o)))] ^= 1 << uint(d.Bit%8)
		}
	case "trunc":
		o = o[:at(d.Pos, len(o))]
	case "trunchead":
		o = o[:at(d.Pos, min(40, len(o)))]
	case "truncone":
		if len(o) > 0 {
			o = o[:len(o)-1]
		}
	case "extend":
		for i := 0; i < 1+d.N%40; i++ {
			o = append(o, byte(r.Uint64()>>5))
		}
	case "zero":
		s := at(d.Pos, len(o))
		for i := s; i < len(o) && i < s+1+d.N%64; i++ {
			o[i] = 0
		}
	case "zerotail":
		for i := at(d.Pos, len(o)); i < len(o); i++ {
			o[i] = 0
		}
	case "torn": // the rest comes from another item
		s := at(d.Pos, len(o))
		for i := s; i < len(o) && i < len(other); i++ {
			o[i] = other[i]
		}
	case "swapblocks":
		if n := d.N; n > 0 && len(o) >= 2*n {
			i, j := at(d.Pos, len(o)-2*n+1), 0
			j = i + n
			t := append([]byte(nil), o[i:i+n]...)
			copy(o[i:], o[j:j+n])
			copy(o[j:], t)
		}
	case "params":
		if len(o) >= 4 {
			binary.BigEndian.PutUint32(o, binary.BigEndian.Uint32(o)^uint32(1)<<uint(d.Bit%32))
			if d.N%3 == 0 {
				binary.BigEndian.PutUint32(o, binary.BigEndian.Uint32(o)^uint32(1)<<uint((d.Bit+1+d.N)%32))
			}
		}
	case "paramset":
		if len(o) >= 4 {
			p := simapi.Params{Func: uint8(r.Intn(4)), N: uint32(8 * (1 + r.Intn(16))), H: uint32(r.Intn(64)), D: uint32(r.Intn(8)), W: []uint16{4, 16, 256}[r.Intn(3)], Prf: uint8(r.Intn(2))}
			copy(o, ref.ParamBytes(p))
		}
	case "other":
		o = append([]byte(nil), other...)
	case "empty":
		o = nil
	case "dup":
		o = append(o, o...)
	case "cutmiddle":
		if len(o) > 8 {
			s := at(d.Pos, len(o)-4)
			o = append(o[:s], o[s+1+d.N%3:]...)
		}
	case "index":
		// another index in the signature
		if len(o) > 12 {
			o[4+at(d.Pos, 4)] ^= 1 << uint(d.Bit%8)
		}
	}
	return o
}

func (c *client) verify(op *Op) {
	w := c.w
	if len(w.sigs) == 0 {
		return
	}
	rec := w.sigs[op.H%len(w.sigs)]
	oth := w.sigs[op.Key%len(w.sigs)]
	sig, msg, pk := rec.b, rec.msg, rec.id.pk
	if d := op.D; d != nil {
		switch d.What {
		case "sig":
			sig = d.apply(sig, oth.b)
		case "msg":
			msg = d.apply(msg, oth.msg)
		case "pk":
			pk = d.apply(pk, oth.id.pk)
		case "pktext": // the public key travels as text
			ref := base64.StdEncoding.EncodeToString(pk)
			t := d.apply([]byte(ref), []byte(base64.StdEncoding.EncodeToString(oth.id.pk)))
			cl := w.begin(c.s, c.name, op, nil)
			b, err := c.s.lib.ParsePKText(t)
			w.end(cl, nil)
			if err != nil {
				if string(t) == ref {
					w.fail("verify-reject", "an undamaged textual public key does not parse: %v", err)
				}
				w.counts["damaged textual public keys refused"]++
				return
			}
			pk = b
		case "mix": // right key, wrong message
			msg = oth.msg
		}
	}
	same := bytes.Equal(sig, rec.b) && bytes.Equal(msg, rec.msg) && bytes.Equal(pk, rec.id.pk)
	for _, s := range w.sigs {
		if bytes.Equal(sig, s.b) && bytes.Equal(msg, s.msg) && bytes.Equal(pk, s.id.pk) {
			same = true
		}
	}
	if sigTooLarge(sig) || sigTooLarge(pk) {
		return
	}
	cl := w.begin(c.s, c.name, op, nil)
	var ok bool
	var e string
	fails := false
	switch op.How {
	case "stream":
		rd, _ := op.R.reader(msg)
		fails = op.R.FailAt >= 0
		o, err := c.s.lib.VerifyFrom(pk, sig, rd)
		ok = o
		if err != nil {
			e = err.Error()
		}
	case "shared":
		f := c.s.sharedVerifier(pk)
		if f == nil {
			e = "public key does not parse"
			break
		}
		o, err := f(sig, msg)
		ok = o
		if err != nil {
			e = err.Error()
		}
	default:
		o, err := c.s.lib.Verify(pk, sig, msg)
		ok = o
		if err != nil {
			e = err.Msg
		}
	}
	w.end(cl, nil)
	w.counts["verifications"]++
	switch {
	case fails && ok:
		w.fail("stream-verify", "verification reports valid although the message stream failed")
	case fails && e == "":
		w.fail("stream-verify", "verification reports no error although the message stream failed")
	case fails:
	case ok && e != "":
		w.fail("verify-accept", "verification returns valid together with an error: %s", e)
	case ok && !same:
		what := "?"
		if op.D != nil {
			what = fmt.Sprintf("%s %s", op.D.What, op.D.Kind)
		}
		w.fail("verify-accept", "a damaged item is reported valid (%s; key %x, signature of %d bytes for index %d)", what, rec.id.pk[:4], len(rec.b), rec.idx)
	case !ok && same:
		w.fail("verify-reject", "an undamaged signature (index %d) is reported not valid: %s", rec.idx, e)
	}
	if same {
		w.counts["verified undamaged"]++
	} else {
		w.counts["verified damaged"]++
		if op.D != nil {
			w.faults["transit: "+op.D.What+" "+op.D.Kind]++
		}
	}
}

// sigTooLarge: parameters that ask for huge amounts of memory say nothing
// about the property and would only slow the simulation down.
func sigTooLarge(b []byte) bool { return false }

func (s *session) sharedVerifier(pk []byte) func(sig, msg []byte) (bool, error) {
	if s.shared == nil {
		s.shared = map[string]func(sig, msg []byte) (bool, error){}
		s.sharedD = map[string]func() string{}
	}
	if f := s.shared[string(pk)]; f != nil {
		zrt.RaceAcquire(unsafe.Pointer(s))
		return f
	}
	f, d, err := s.lib.Verifier(pk)
	if err != nil {
		return nil
	}
	if g := s.shared[string(pk)]; g != nil {
		zrt.RaceAcquire(unsafe.Pointer(s))
		return g
	}
	zrt.RaceReleaseMerge(unsafe.Pointer(s))
	s.shared[string(pk)] = f
	s.sharedD[string(pk)] = d
	return f
}

// ---- the built-in file store by itself

func pattern(seed uint64, n int) []byte {
	b := make([]byte, n)
	r := zrt.NewRNG(zrt.Mix(seed))
	for i := range b {
		b[i] = byte(r.Uint64() >> 13)
	}
	return b
}

// ctrFuzz drives the file store with a sequence of calls against a model.
func (c *client) ctrFuzz(op *Op) {
	w := c.w
	ps := w.path(op.Path)
	p := w.params(op)
	r := zrt.NewRNG(zrt.Mix(op.N ^ 0xc7))
	cl := w.begin(c.s, c.name, op, nil)
	st, err := c.s.lib.OpenFS(ps.name)
	if err != nil {
		w.end(cl, err)
		w.fail("spurious-fail", "%s: opening the file store failed: %s", ps.name, err.Msg)
		return
	}
	bad := func(class, f string, a ...interface{}) {
		w.end(cl, nil)
		w.fail(class, "%s (page size %d): %s", ps.name, c.s.proc.PageSize, fmt.Sprintf(f, a...))
	}
	if ps.ctr == nil || st.Initialized() == nil {
		if ps.ctr != nil {
			bad("cache-misplaced", "store no longer initialised")
			return
		}
		ps.ctr = map[[2]uint64]uint64{}
		if e := st.Reset(make([]byte, 3*p.N), p); e != nil {
			bad("spurious-fail", "Reset: %v", e)
			return
		}
		if q := st.Initialized(); q == nil || *q != p {
			bad("cache-misplaced", "parameters after Reset: %v, want %v", q, p)
			return
		}
	} else if !st.CacheInitialized() {
		bad("cache-misplaced", "the cache of a properly closed store is not initialised on reopening")
		return
	}
	sz := c.s.lib.CachedSubTreeSize(p)
	live := map[[2]uint64][]byte{}
	checkList := func() bool {
		l, e := st.ListSubTrees()
		if e != nil {
			bad("spurious-fail", "ListSubTrees: %v", e)
			return false
		}
		seen := map[[2]uint64]bool{}
		for _, a := range l {
			if _, ok := ps.ctr[a]; !ok || seen[a] {
				bad("cache-misplaced", "ListSubTrees reports %v, which is not there (or twice)", a)
				return false
			}
			seen[a] = true
		}
		if len(seen) != len(ps.ctr) {
			bad("cache-misplaced", "ListSubTrees reports %d of %d subtrees", len(seen), len(ps.ctr))
			return false
		}
		return true
	}
	checkAll := func() bool {
		for _, a := range sortedKeys(ps.ctr) {
			b, ex, e := st.GetSubTree(uint32(a[0]), a[1])
			if e != nil || !ex || len(b) < sz {
				bad("cache-misplaced", "subtree %v: exists %v, %d bytes, error %v", a, ex, len(b), e)
				return false
			}
			live[a] = b
			if !bytes.Equal(b[:sz], pattern(ps.ctr[a], sz)) {
				bad("cache-misplaced", "subtree %v: contents were overwritten", a)
				return false
			}
		}
		return true
	}
	if !checkList() || !checkAll() {
		return
	}
	steps := 4 + r.Intn(20)
	for i := 0; i < steps; i++ {
		a := [2]uint64{uint64(r.Intn(3)), uint64(r.Intn(4))}
		switch r.Intn(6) {
		case 0, 1, 2:
			b, ex, e := st.GetSubTree(uint32(a[0]), a[1])
			_, want := ps.ctr[a]
			if e != nil || ex != want || len(b) < sz {
				bad("cache-misplaced", "GetSubTree(%v): exists %v (should be %v), %d bytes, error %v", a, ex, want, len(b), e)
				return
			}
			v := r.Uint64()
			copy(b[:sz], pattern(v, sz))
			ps.ctr[a] = v
			live[a] = b
		case 3:
			if e := st.DropSubTree(uint32(a[0]), a[1]); e != nil {
				bad("spurious-fail", "DropSubTree(%v): %v", a, e)
				return
			}
			delete(ps.ctr, a)
			delete(live, a)
		case 4:
			_, want := ps.ctr[a]
			if st.HasSubTree(uint32(a[0]), a[1]) != want {
				bad("cache-misplaced", "HasSubTree(%v) is not %v", a, want)
				return
			}
		case 5:
			if !checkList() {
				return
			}
			if r.Intn(8) == 0 {
				if e := st.ResetCache(); e != nil {
					bad("spurious-fail", "ResetCache: %v", e)
					return
				}
				ps.ctr = map[[2]uint64]uint64{}
				live = map[[2]uint64][]byte{}
			}
		}
		for _, a := range sortedKeys(ps.ctr) {
			if b := live[a]; b != nil && !bytes.Equal(b[:sz], pattern(ps.ctr[a], sz)) {
				bad("cache-misplaced", "subtree %v: contents were overwritten", a)
				return
			}
		}
	}
	if !checkList() || !checkAll() {
		return
	}
	if e := st.Close(); e != nil {
		bad("spurious-fail", "Close: %v", e)
		return
	}
	w.counts["file store sequences"]++
	w.end(cl, nil)
}

func sortedKeys(m map[[2]uint64]uint64) [][2]uint64 {
	var l [][2]uint64
	for a := range m {
		l = append(l, a)
	}
	for i := range l {
		for j := i + 1; j < len(l); j++ {
			if l[j][0] < l[i][0] || l[j][0] == l[i][0] && l[j][1] < l[i][1] {
				l[i], l[j] = l[j], l[i]
			}
		}
	}
	return l
}

// ctrSnap records or compares the contents of a key's cached subtrees, seen
// through the file store.
func (c *client) ctrSnap(op *Op) {
	w := c.w
	ps := w.path(op.Path)
	cl := w.begin(c.s, c.name, op, nil)
	st, err := c.s.lib.OpenFS(ps.name)
	w.end(cl, err)
	if err != nil {
		if _, ok := zos.Peek(ps.name); ok {
			w.fail("spurious-fail", "%s: opening the file store failed: %s", ps.name, err.Msg)
		}
		return
	}
	if st.Initialized() == nil {
		st.Close()
		return
	}
	if !st.CacheInitialized() {
		w.fail("cache-misplaced", "%s: the cache of a properly closed key is not usable on reopening (page size %d)", ps.name, c.s.proc.PageSize)
		return
	}
	l, e := st.ListSubTrees()
	if e != nil {
		w.fail("spurious-fail", "%s: ListSubTrees: %v", ps.name, e)
		return
	}
	var id *ident
	for _, x := range ps.poss {
		if x != nil {
			id = x
		}
	}
	if id == nil || id.ref == nil {
		st.Close()
		return
	}
	sz := c.s.lib.CachedSubTreeSize(id.ref.P)
	now := map[[2]uint64]uint64{}
	for _, a := range l {
		b, ex, e := st.GetSubTree(uint32(a[0]), a[1])
		if e != nil || !ex || len(b) < sz {
			w.fail("cache-misplaced", "%s: listed subtree %v: exists %v, %d bytes, error %v", ps.name, a, ex, len(b), e)
			return
		}
		f := fnv.New64a()
		f.Write(b[:sz])
		now[a] = f.Sum64()
	}
	switch op.K {
	case "ctrsnap":
		ps.ctrSnap = now
	case "ctrcmp":
		if ps.ctrSnap != nil {
			for _, a := range sortedKeys(ps.ctrSnap) {
				if v, ok := now[a]; !ok || v != ps.ctrSnap[a] {
					w.fail("cache-misplaced", "%s: subtree %v is not the one stored before (present: %v; page size %d)", ps.name, a, ok, c.s.proc.PageSize)
					return
				}
			}
			if len(now) != len(ps.ctrSnap) {
				w.fail("cache-misplaced", "%s: %d subtrees cached, %d were stored", ps.name, len(now), len(ps.ctrSnap))
				return
			}
			w.counts["cache contents compared"]++
		}
	case "ctrlist":
		seq, _, e := st.GetSeqNo()
		if e == nil {
			allowed := allowedTrees(id.ref.P, seq)
			for _, a := range sortedKeys(now) {
				if !allowed[a] {
					w.fail("cache-unbounded", "%s: subtree %v is still cached after closing at sequence number %d", ps.name, a, seq)
					return
				}
			}
			w.counts["cache bound checks"]++
		}
	}
	if e := st.Close(); e != nil {
		w.fail("spurious-fail", "%s: closing the file store failed: %v", ps.name, e)
	}
}
