// Package rand replaces crypto/rand in the code under test.
package rand

import (
	"io"
	"math/big"

	"verifmc/vrt"
)

type reader struct{}

func (reader) Read(p []byte) (int, error) {
	for i := range p {
		p[i] = byte(vrt.Draw(256))
	}
	return len(p), nil
}

var Reader io.Reader = reader{}

func Read(p []byte) (int, error) { return io.ReadFull(Reader, p) }

func Int(r io.Reader, max *big.Int) (*big.Int, error) {
	if max.IsUint64() {
		return new(big.Int).SetUint64(vrt.Draw(max.Uint64())), nil
	}
	return new(big.Int).SetUint64(vrt.Draw(0)), nil
}

func Text() string {
	b := make([]byte, 26)
	for i := range b {
		b[i] = "ABCDEFGHIJKLMNOPQRSTUVWXYZ234567"[vrt.Draw(32)]
	}
	return string(b)
}
