// Package zrand stands in for crypto/rand.
package zrand

import (
	"io"

	"github.com/bwesterb/go-xmssmt/zsim/zos"
)

type reader struct{}

func (reader) Read(b []byte) (int, error) { return zos.ReadEntropy(b) }

// Reader is the simulated entropy source.
var Reader io.Reader = reader{}

// Read fills b, as crypto/rand.Read does.
func Read(b []byte) (int, error) { return io.ReadFull(Reader, b) }
