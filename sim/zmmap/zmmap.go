// Package zmmap stands in for github.com/edsrzf/mmap-go.
package zmmap

import (
	"errors"

	"github.com/bwesterb/go-xmssmt/zsim/zos"
	"github.com/bwesterb/go-xmssmt/zsim/zrt"
)

const (
	RDONLY = 0
	RDWR   = 1 << iota
	COPY
	EXEC
)

const (
	ANON = 1 << iota
)

// MMap is mmap.MMap.
type MMap []byte

func Map(f *zos.File, prot, flags int) (MMap, error) { return MapRegion(f, -1, prot, flags, 0) }

func MapRegion(f *zos.File, length int, prot, flags int, offset int64) (MMap, error) {
	if offset%int64(zos.Getpagesize()) != 0 {
		return nil, errors.New("offset parameter must be a multiple of the system's page size")
	}
	if flags&ANON != 0 {
		if length <= 0 {
			return nil, errors.New("anonymous mapping requires non-zero length")
		}
		return make([]byte, length), nil
	}
	if length < 0 {
		fi, err := f.Stat()
		if err != nil {
			return nil, err
		}
		length = int(fi.Size())
	}
	b, err := zos.Map(f, length, prot&(RDWR|COPY) != 0, prot&COPY != 0, offset)
	return b, err
}

func (m MMap) Lock() error   { return nil }
func (m MMap) Unlock() error { return nil }

func (m MMap) Flush() error {
	zrt.CheckKilled()
	return zos.Flush(m)
}

func (m *MMap) Unmap() error {
	zrt.CheckKilled()
	err := zos.Unmap(*m)
	*m = nil
	return err
}
