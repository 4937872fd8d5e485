// Package ref is a plain sequential implementation of XMSS and XMSSMT written
// from RFC 8391 and SP 800-208, sharing no code with the library.  It is the
// oracle for public keys and signatures.
package ref

import (
	"crypto/sha256"
	"crypto/sha3"
	"crypto/sha512"
	"encoding/binary"
	"sync"

	"github.com/bwesterb/go-xmssmt/zsim/simapi"
)

// Key is a key pair; its trees are computed once.
type Key struct {
	P              simapi.Params
	Pub, Seed, Prf []byte
	n, th          int
	logw           uint
	len1, len2     int
	prefix         int
	idxBytes       int
	trees          map[st]*tree
	root           []byte
	mu             sync.Mutex
}

type st struct {
	layer uint32
	tree  uint64
}

type tree struct {
	nodes [][][]byte // [height][index]
	sig   []byte     // signature on the root by the layer above
}

// New prepares a key.  The parameters must be supported.
func New(p simapi.Params, pub, seed, prf []byte) *Key {
	k := &Key{P: p, Pub: pub, Seed: seed, Prf: prf, n: int(p.N), th: int(p.H / p.D), trees: map[st]*tree{}}
	for w := p.W; w > 1; w >>= 1 {
		k.logw++
	}
	k.len1 = 8 * k.n / int(k.logw)
	for m := uint64(k.len1) * uint64(p.W-1); m > 0; m /= uint64(p.W) {
		k.len2++
	}
	k.prefix = k.n
	if p.Prf == 1 {
		k.prefix = 4
	}
	k.idxBytes = 4
	if p.D > 1 {
		k.idxBytes = (int(p.H) + 7) / 8
	}
	return k
}

func (k *Key) hash(parts ...[]byte) []byte {
	var in []byte
	for _, p := range parts {
		in = append(in, p...)
	}
	out := make([]byte, k.n)
	switch k.P.Func {
	case 0:
		if k.n > 32 {
			h := sha512.Sum512(in)
			copy(out, h[:])
		} else {
			h := sha256.Sum256(in)
			copy(out, h[:])
		}
	case 1:
		if k.n > 32 {
			copy(out, sha3.SumSHAKE256(in, k.n))
		} else {
			copy(out, sha3.SumSHAKE128(in, k.n))
		}
	case 2:
		copy(out, sha3.SumSHAKE256(in, k.n))
	default:
		panic("ref: unknown hash function")
	}
	return out
}

func toByte(x uint64, n int) []byte {
	b := make([]byte, n)
	for i := n - 1; i >= 0 && x > 0; i-- {
		b[i] = byte(x)
		x >>= 8
	}
	return b
}

type adrs [8]uint32

func (a adrs) bytes() []byte {
	b := make([]byte, 32)
	for i, w := range a {
		binary.BigEndian.PutUint32(b[4*i:], w)
	}
	return b
}

func addr(layer uint32, tree uint64, typ uint32) adrs {
	return adrs{layer, uint32(tree >> 32), uint32(tree), typ}
}

func (k *Key) prf(key []byte, a adrs) []byte {
	return k.hash(toByte(3, k.prefix), key, a.bytes())
}

func xor(a, b []byte) []byte {
	o := make([]byte, len(a))
	for i := range a {
		o[i] = a[i] ^ b[i]
	}
	return o
}

func (k *Key) f(x []byte, a adrs) []byte {
	a[7] = 0
	key := k.prf(k.Pub, a)
	a[7] = 1
	bm := k.prf(k.Pub, a)
	return k.hash(toByte(0, k.prefix), key, xor(x, bm))
}

func (k *Key) h(l, r []byte, a adrs) []byte {
	a[7] = 0
	key := k.prf(k.Pub, a)
	a[7] = 1
	b0 := k.prf(k.Pub, a)
	a[7] = 2
	b1 := k.prf(k.Pub, a)
	return k.hash(toByte(1, k.prefix), key, xor(l, b0), xor(r, b1))
}

func (k *Key) chain(x []byte, from, steps int, a adrs) []byte {
	for i := from; i < from+steps; i++ {
		a[6] = uint32(i)
		x = k.f(x, a)
	}
	return x
}

func (k *Key) wotsSk(a adrs, i int) []byte {
	a[5] = uint32(i)
	a[6], a[7] = 0, 0
	return k.hash(toByte(4, k.prefix), k.Seed, k.Pub, a.bytes())
}

func (k *Key) baseW(x []byte, n int) []int {
	var out []int
	bits := uint(0)
	p := 0
	var tot byte
	for len(out) < n {
		if bits == 0 {
			tot = x[p]
			p++
			bits = 8
		}
		bits -= k.logw
		out = append(out, int(tot>>bits)&(int(k.P.W)-1))
	}
	return out
}

func (k *Key) digits(m []byte) []int {
	d := k.baseW(m, k.len1)
	cs := uint64(0)
	for _, x := range d {
		cs += uint64(int(k.P.W) - 1 - x)
	}
	bits := uint(k.len2) * k.logw
	cs <<= 8 - bits%8
	nb := int(bits+7) / 8
	b := make([]byte, nb)
	for i := nb - 1; i >= 0; i-- {
		b[i] = byte(cs)
		cs >>= 8
	}
	return append(d, k.baseW(b, k.len2)...)
}

func (k *Key) wotsSign(m []byte, a adrs) []byte {
	var out []byte
	for i, d := range k.digits(m) {
		a[5] = uint32(i)
		out = append(out, k.chain(k.wotsSk(a, i), 0, d, a)...)
	}
	return out
}

func (k *Key) leaf(layer uint32, t uint64, i uint32) []byte {
	o := addr(layer, t, 0)
	o[4] = i
	var pk [][]byte
	for c := 0; c < k.len1+k.len2; c++ {
		o[5] = uint32(c)
		pk = append(pk, k.chain(k.wotsSk(o, c), 0, int(k.P.W)-1, o))
	}
	l := addr(layer, t, 1)
	l[4] = i
	for h := uint32(0); len(pk) > 1; h++ {
		l[5] = h
		var up [][]byte
		for j := 0; j+1 < len(pk); j += 2 {
			l[6] = uint32(j / 2)
			up = append(up, k.h(pk[j], pk[j+1], l))
		}
		if len(pk)%2 == 1 {
			up = append(up, pk[len(pk)-1])
		}
		pk = up
	}
	return pk[0]
}

func (k *Key) tree(layer uint32, t uint64) *tree {
	if x := k.trees[st{layer, t}]; x != nil {
		return x
	}
	x := &tree{}
	var row [][]byte
	for i := 0; i < 1<<uint(k.th); i++ {
		row = append(row, k.leaf(layer, t, uint32(i)))
	}
	x.nodes = append(x.nodes, row)
	a := addr(layer, t, 2)
	for h := 0; h < k.th; h++ {
		a[5] = uint32(h)
		var up [][]byte
		for j := 0; j < len(row); j += 2 {
			a[6] = uint32(j / 2)
			up = append(up, k.h(row[j], row[j+1], a))
		}
		x.nodes = append(x.nodes, up)
		row = up
	}
	if layer+1 < k.P.D {
		o := addr(layer+1, t>>uint(k.th), 0)
		o[4] = uint32(t & (1<<uint(k.th) - 1))
		x.sig = k.wotsSign(row[0], o)
	}
	k.trees[st{layer, t}] = x
	return x
}

// PK is the encoded public key.
func (k *Key) PK() []byte {
	k.mu.Lock()
	defer k.mu.Unlock()
	out := ParamBytes(k.P)
	out = append(out, k.rootNode()...)
	return append(out, k.Pub...)
}

func (k *Key) rootNode() []byte {
	if k.root == nil {
		k.root = k.tree(k.P.D-1, 0).nodes[k.th][0]
	}
	return k.root
}

// ParamBytes is the four byte encoding of parameters.
func ParamBytes(p simapi.Params) []byte {
	w := map[uint16]uint32{4: 0, 16: 1, 256: 2}[p.W]
	v := 0xea<<24 | uint32(p.Prf)<<20 | (p.N/8-1)<<16 | uint32(p.Func)<<14 | w<<12 | p.H<<6 | p.D
	b := make([]byte, 4)
	binary.BigEndian.PutUint32(b, v)
	return b
}

// Sign computes the signature of msg with the given index.
func (k *Key) Sign(idx uint64, msg []byte) []byte {
	k.mu.Lock()
	defer k.mu.Unlock()
	r := k.hash(toByte(3, k.prefix), k.Prf, toByte(idx, 32))
	m := k.hash(toByte(2, k.prefix), r, k.rootNode(), toByte(idx, k.n), msg)
	out := append(ParamBytes(k.P), toByte(idx, k.idxBytes)...)
	out = append(out, r...)
	t, leaf := idx>>uint(k.th), uint32(idx&(1<<uint(k.th)-1))
	for layer := uint32(0); layer < k.P.D; layer++ {
		x := k.tree(layer, t)
		if layer == 0 {
			o := addr(0, t, 0)
			o[4] = leaf
			out = append(out, k.wotsSign(m, o)...)
		} else {
			out = append(out, k.tree(layer-1, t<<uint(k.th)|uint64(leaf)).sig...)
		}
		for h, j := 0, leaf; h < k.th; h++ {
			out = append(out, x.nodes[h][j^1]...)
			j >>= 1
		}
		leaf = uint32(t & (1<<uint(k.th) - 1))
		t >>= uint(k.th)
	}
	return out
}

// SigSize is the size of an encoded signature.
func (k *Key) SigSize() int {
	return 4 + k.idxBytes + k.n + int(k.P.D)*(k.len1+k.len2)*k.n + int(k.P.H)*k.n
}

// Max is the largest index of the key.
func (k *Key) Max() uint64 { return 1<<k.P.H - 1 }

// Trees counts the trees computed so far.
func (k *Key) Trees() int { return len(k.trees) }
