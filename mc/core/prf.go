package core

import (
	"crypto/sha256"
	"encoding/binary"
	"io"
	"math/rand/v2"
)

// PRF is a deterministic byte stream for a seed and label.
type PRF struct {
	c *rand.ChaCha8
	// N counts the bytes read.
	N int
	// Reads records every read when Record is set.
	Record bool
	Reads  [][]byte
}

func NewPRF(seed int64, parts ...any) *PRF {
	h := sha256.New()
	var b [8]byte
	binary.LittleEndian.PutUint64(b[:], uint64(seed))
	h.Write(b[:])
	for _, p := range parts {
		switch x := p.(type) {
		case string:
			h.Write([]byte(x))
		case []byte:
			h.Write(x)
		case [32]byte:
			h.Write(x[:])
		case int:
			binary.LittleEndian.PutUint64(b[:], uint64(x))
			h.Write(b[:])
		default:
			panic("PRF label")
		}
		h.Write([]byte{0xff})
	}
	var key [32]byte
	h.Sum(key[:0])
	return &PRF{c: rand.NewChaCha8(key)}
}

func (p *PRF) Read(b []byte) (int, error) {
	p.c.Read(b)
	p.N += len(b)
	if p.Record {
		p.Reads = append(p.Reads, append([]byte(nil), b...))
	}
	return len(b), nil
}

var _ io.Reader = (*PRF)(nil)

// Bytes returns n pseudorandom bytes.
func Bytes(n int, seed int64, parts ...any) []byte {
	b := make([]byte, n)
	NewPRF(seed, parts...).Read(b)
	return b
}
