// Package ref is an independent implementation of the standards and record formats that the library
// documents. It uses the Go standard library only and nothing of the library's own cryptography.
package ref

import "math/bits"

// Keccak-f[1600] and the sponge, straight from FIPS 202.

var roundConstants = func() (rc [24]uint64) {
	lfsr := byte(1)
	for i := range rc {
		for j := 0; j < 7; j++ {
			if lfsr&1 == 1 {
				rc[i] |= 1 << ((1 << j) - 1)
			}
			hi := lfsr&0x80 != 0
			lfsr <<= 1
			if hi {
				lfsr ^= 0x71
			}
		}
	}
	return
}()

func keccakF(a *[25]uint64) {
	for round := 0; round < 24; round++ {
		var c [5]uint64
		for x := 0; x < 5; x++ {
			c[x] = a[x] ^ a[x+5] ^ a[x+10] ^ a[x+15] ^ a[x+20]
		}
		for x := 0; x < 5; x++ {
			d := c[(x+4)%5] ^ bits.RotateLeft64(c[(x+1)%5], 1)
			for y := 0; y < 5; y++ {
				a[x+5*y] ^= d
			}
		}
		var b [25]uint64
		b[0] = a[0]
		x, y := 1, 0
		for t := 0; t < 24; t++ {
			// rho and pi: B[y, 2x+3y] = rot(A[x,y], (t+1)(t+2)/2)
			b[y+5*((2*x+3*y)%5)] = bits.RotateLeft64(a[x+5*y], (t+1)*(t+2)/2)
			x, y = y, (2*x+3*y)%5
		}
		for y := 0; y < 5; y++ {
			for x := 0; x < 5; x++ {
				a[x+5*y] = b[x+5*y] ^ (^b[(x+1)%5+5*y] & b[(x+2)%5+5*y])
			}
		}
		a[0] ^= roundConstants[round]
	}
}

// sponge absorbs msg with the domain byte and squeezes n bytes.
func sponge(rate int, msg []byte, domain byte, n int) []byte {
	p := append([]byte(nil), msg...)
	p = append(p, domain)
	for len(p)%rate != 0 {
		p = append(p, 0)
	}
	p[len(p)-1] |= 0x80

	var a [25]uint64
	for ; len(p) > 0; p = p[rate:] {
		for i := 0; i < rate; i++ {
			a[i/8] ^= uint64(p[i]) << (8 * (i % 8))
		}
		keccakF(&a)
	}
	var out []byte
	for {
		for i := 0; i < rate; i++ {
			if len(out) == n {
				return out
			}
			out = append(out, byte(a[i/8]>>(8*(i%8))))
		}
		keccakF(&a)
	}
}

// SHA3_256 is for the tests of this package.
func SHA3_256(msg []byte) []byte { return sponge(136, msg, 0x06, 32) }

func leftEncode(v int) []byte {
	var b []byte
	for x := uint64(v); ; x >>= 8 {
		b = append([]byte{byte(x)}, b...)
		if x < 256 {
			break
		}
	}
	return append([]byte{byte(len(b))}, b...)
}

func rightEncode(v int) []byte {
	l := leftEncode(v)
	return append(l[1:], l[0])
}

func encodeString(s []byte) []byte { return append(leftEncode(8*len(s)), s...) }

func bytepad(x []byte, w int, extra bool) []byte {
	out := append(leftEncode(w), x...)
	if extra && len(out)%w == 0 {
		out = append(out, make([]byte, w)...)
	}
	for len(out)%w != 0 {
		out = append(out, 0)
	}
	return out
}

// CShake is cSHAKE128 (rate 168) or cSHAKE256 (rate 136). With extraPad it pads an aligned first
// block by another block, which old versions of golang.org/x/crypto do by mistake.
func CShake(rate int, msg, name, custom []byte, n int, extraPad bool) []byte {
	if len(name) == 0 && len(custom) == 0 {
		return sponge(rate, msg, 0x1f, n)
	}
	p := bytepad(append(encodeString(name), encodeString(custom)...), rate, extraPad)
	return sponge(rate, append(p, msg...), 0x04, n)
}

const (
	Rate128 = 168
	Rate256 = 136
)

// KMAC is KMAC128 or KMAC256 of SP 800-185 with an output of n bytes.
func KMAC(rate int, key, msg, custom []byte, n int) []byte {
	return kmac(rate, key, msg, custom, n, false)
}

// KMACExtraPad is KMAC on top of the cSHAKE with the mistake described at CShake. aligned tells
// whether the mistake makes a difference.
func KMACExtraPad(rate int, key, msg, custom []byte, n int) (out []byte, aligned bool) {
	first := append(leftEncode(rate), append(encodeString([]byte("KMAC")), encodeString(custom)...)...)
	return kmac(rate, key, msg, custom, n, true), len(first)%rate == 0
}

func kmac(rate int, key, msg, custom []byte, n int, extraPad bool) []byte {
	x := bytepad(encodeString(key), rate, false)
	x = append(x, msg...)
	x = append(x, rightEncode(8*n)...)
	return CShake(rate, x, []byte("KMAC"), custom, n, extraPad)
}
