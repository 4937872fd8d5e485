// Package simapi is what the harness knows of the library: plain types, so
// that several copies of the library can be driven side by side.
package simapi

import "io"

// Params mirrors the library's parameters.
type Params struct {
	Func uint8  `json:"f"`
	N    uint32 `json:"n"`
	H    uint32 `json:"h"`
	D    uint32 `json:"d"`
	W    uint16 `json:"w"`
	Prf  uint8  `json:"p,omitempty"`
}

// Error is an error of the library.
type Error struct {
	Msg    string
	Locked bool
	Inner  error
}

func (e *Error) Error() string { return e.Msg }

// Sig is a signature.
type Sig interface {
	SeqNo() uint64
	Bytes() ([]byte, error)
	String() string
	Name() string
}

// Key is an open private key.
type Key interface {
	Sign(msg []byte) (Sig, *Error)
	SignFrom(r io.Reader) (Sig, *Error)
	Borrow(n uint32) *Error
	BorrowIfBelow(n, t uint32) *Error
	Borrowed() uint32
	SeqNo() uint64
	Unretired() uint32
	Cached() int
	Precompute()
	DangerousSetSeqNo(n uint64)
	Close() *Error
	PublicKey() []byte
	PublicKeyText() string
	VerifyOwn(sig Sig, msg []byte) (bool, *Error)
	VerifyOwnFrom(sig Sig, r io.Reader) (bool, *Error)
	Describe() string // reads names, parameters, identifiers of the key's context
}

// Store is a private key container, as seen by the harness.
type Store interface {
	ResetCache() error
	GetSubTree(layer uint32, tree uint64) (buf []byte, exists bool, err error)
	HasSubTree(layer uint32, tree uint64) bool
	DropSubTree(layer uint32, tree uint64) error
	ListSubTrees() ([][2]uint64, error)
	Reset(sk []byte, p Params) error
	BorrowSeqNos(n uint32) (uint64, error)
	SetSeqNo(n uint64) error
	GetSeqNo() (uint64, uint32, error)
	GetPrivateKey() ([]byte, error)
	Initialized() *Params
	CacheInitialized() bool
	Close() error
}

// Lib is one instance of the library.
type Lib interface {
	Reset() // state of a freshly started process
	SetVector(bool)
	HasVector() bool
	ShareContext(p Params, threads int)
	SetLogger(f func(string))
	Derive(path string, p Params, threads int, pub, sk, prf []byte) (Key, []byte, *Error)
	Generate(path string, p Params, threads int) (Key, []byte, *Error)
	GenerateAlg(alg, path string) (Key, []byte, *Error)
	Load(path string) (Key, []byte, uint32, *Error)
	// LoadThreads is Load with a given number of worker goroutines.
	DeriveInto(s Store, p Params, threads int, pub, sk, prf []byte) (Key, []byte, *Error)
	LoadFrom(s Store) (Key, []byte, uint32, *Error)
	// DeriveIntoFS and OpenFS work with the built-in file store directly.
	OpenFS(path string) (Store, *Error)
	DeriveIntoStore(s Store, p Params, threads int, pub, sk, prf []byte) (Key, []byte, *Error)
	LoadFromStore(s Store) (Key, []byte, uint32, *Error)
	SignPath(path string, msg []byte) ([]byte, *Error)
	Verify(pk, sig, msg []byte) (bool, *Error)
	VerifyFrom(pk, sig []byte, r io.Reader) (bool, error)
	ParseSig(b []byte) (Sig, error)
	ParsePK(b []byte) ([]byte, error)
	ParsePKText(b []byte) ([]byte, error)
	// Verifier parses a public key once for use by several goroutines.
	Verifier(pk []byte) (func(sig, msg []byte) (bool, error), func() string, error)
	AlgName(p Params) (string, error)
	CachedSubTreeSize(p Params) int
}
