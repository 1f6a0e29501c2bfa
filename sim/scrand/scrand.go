// Package scrand replaces crypto/rand; the bytes are simulator decisions.
package scrand

import (
	"crypto/rand"
	"io"
	"math/big"

	"verif.local/vsim/core"
)

type reader struct{}

func (reader) Read(p []byte) (int, error) {
	for i := range p {
		p[i] = byte(core.Choose(256))
	}
	return len(p), nil
}

var Reader io.Reader = reader{}

func Read(p []byte) (int, error) { return io.ReadFull(Reader, p) }

func Int(r io.Reader, max *big.Int) (*big.Int, error) { return rand.Int(r, max) }

func Prime(r io.Reader, bits int) (*big.Int, error) { return rand.Prime(r, bits) }

func Text() string {
	const a = "ABCDEFGHIJKLMNOPQRSTUVWXYZ234567"
	var b [26]byte
	for i := range b {
		b[i] = a[core.Choose(32)]
	}
	return string(b[:])
}
