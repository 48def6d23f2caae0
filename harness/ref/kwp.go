package ref

import (
	"crypto/aes"
	"encoding/binary"
	"errors"
)

// AES key wrap with padding (RFC 5649), written after section 4 and the index-based description of
// RFC 3394.

// WrapW is the raw wrapping W of an 8-byte initial value and n*8 bytes, n >= 2, or AES itself for 8.
func WrapW(kek, aiv, p []byte) []byte {
	block, err := aes.NewCipher(kek)
	if err != nil {
		panic(err)
	}
	if len(p) == 8 {
		out := append(append([]byte{}, aiv...), p...)
		block.Encrypt(out, out)
		return out
	}
	n := len(p) / 8
	a := binary.BigEndian.Uint64(aiv)
	r := make([]uint64, n+1)
	for i := 1; i <= n; i++ {
		r[i] = binary.BigEndian.Uint64(p[8*(i-1):])
	}
	var b [16]byte
	for j := 0; j <= 5; j++ {
		for i := 1; i <= n; i++ {
			binary.BigEndian.PutUint64(b[:8], a)
			binary.BigEndian.PutUint64(b[8:], r[i])
			block.Encrypt(b[:], b[:])
			a = binary.BigEndian.Uint64(b[:8]) ^ uint64(n*j+i)
			r[i] = binary.BigEndian.Uint64(b[8:])
		}
	}
	out := binary.BigEndian.AppendUint64(nil, a)
	for i := 1; i <= n; i++ {
		out = binary.BigEndian.AppendUint64(out, r[i])
	}
	return out
}

func unwrapW(kek, c []byte) (uint64, []byte) {
	block, err := aes.NewCipher(kek)
	if err != nil {
		panic(err)
	}
	n := len(c)/8 - 1
	a := binary.BigEndian.Uint64(c)
	r := make([]uint64, n+1)
	for i := 1; i <= n; i++ {
		r[i] = binary.BigEndian.Uint64(c[8*i:])
	}
	var b [16]byte
	if n == 1 {
		block.Decrypt(b[:], c)
		return binary.BigEndian.Uint64(b[:8]), b[8:]
	}
	for j := 5; j >= 0; j-- {
		for i := n; i >= 1; i-- {
			binary.BigEndian.PutUint64(b[:8], a^uint64(n*j+i))
			binary.BigEndian.PutUint64(b[8:], r[i])
			block.Decrypt(b[:], b[:])
			a = binary.BigEndian.Uint64(b[:8])
			r[i] = binary.BigEndian.Uint64(b[8:])
		}
	}
	var p []byte
	for i := 1; i <= n; i++ {
		p = binary.BigEndian.AppendUint64(p, r[i])
	}
	return a, p
}

// AIV is the alternative initial value for a key of n bytes.
func AIV(n int) []byte {
	return binary.BigEndian.AppendUint32([]byte{0xA6, 0x59, 0x59, 0xA6}, uint32(n))
}

// Wrap is AES-KWP.
func Wrap(kek, key []byte) []byte {
	p := append([]byte{}, key...)
	for len(p)%8 != 0 {
		p = append(p, 0)
	}
	return WrapW(kek, AIV(len(key)), p)
}

var ErrUnwrap = errors.New("ref: not a wrapped key")

// Unwrap is the inverse of AES-KWP.
func Unwrap(kek, wrapped []byte) ([]byte, error) {
	if len(wrapped) < 16 || len(wrapped)%8 != 0 {
		return nil, ErrUnwrap
	}
	a, p := unwrapW(kek, wrapped)
	if uint32(a>>32) != 0xA65959A6 {
		return nil, ErrUnwrap
	}
	mli := int(uint32(a))
	n := len(p) / 8
	if mli <= 8*(n-1) || mli > 8*n {
		return nil, ErrUnwrap
	}
	for _, b := range p[mli:] {
		if b != 0 {
			return nil, ErrUnwrap
		}
	}
	return p[:mli], nil
}
