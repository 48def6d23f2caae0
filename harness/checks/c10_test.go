package checks

import (
	"bytes"
	"encoding/base64"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash"
	"math/rand/v2"
	"testing"

	"github.com/cybercryptio/d1-lib/v2/crypto"

	"verif/harness/kit"
	"verif/harness/ref"
)

// C10: the cryptographic primitives match their standards for every input.

func TestC10(t *testing.T) {
	kit.Run(t, "C10", "exploration", "An evaluation is one output of a primitive compared with the independent implementation, or one forged or altered input that must be rejected. Non-trivial: distinct (primitive, lengths, call pattern or kind of forgery).", func(c *kit.C) {
		c.Parallel("kwp", c.N(64, 2000), func(i int) { prep(c, func() { c10KWP(c, i) }) })
		c.Parallel("gcm", c.N(200, 4000), func(i int) { prep(c, func() { c10GCM(c, i) }) })
		c.Parallel("kmac", c.N(500, 20000), func(i int) { prep(c, func() { c10KMAC(c, i) }) })
		c.Parallel("kmac lengths", c.N(8, 32), func(i int) { prep(c, func() { c10KMACLengths(c, i) }) })
		c.Parallel("kdf", c.N(200, 4000), func(i int) { prep(c, func() { c10KDF(c, i) }) })
		c.Parallel("password", c.N(60, 1000), func(i int) { prep(c, func() { c10Password(c, i) }) })
		c.Parallel("cryptor", c.N(100, 3000), func(i int) { prep(c, func() { c10Cryptor(c, i) }) })
		for _, n := range []string{"kwp_equal", "kwp_forged", "gcm_equal", "gcm_forged", "kmac_equal", "password_equal", "password_wrong"} {
			c.Require(n, 500)
		}
	})
}

// c10Size is a length for key wrapping.
func c10Size(r *rand.Rand) int {
	switch r.IntN(6) {
	case 0:
		return 8192 - r.IntN(20)
	case 1:
		return 16 + r.IntN(8192-16+1)
	default:
		return 16 + r.IntN(120)
	}
}

func c10KWP(c *kit.C, i int) {
	r := c.Rand("kwp", i)
	key := kit.Bytes(r, []int{16, 32}[i%2])
	w := must(crypto.NewKWP(key))
	for n := 0; n < 80; n++ {
		if n == 65 { // key lengths
			for l := 0; l < 70; l++ {
				_, err := crypto.NewKWP(make([]byte, l))
				if (l == 16 || l == 32) != (err == nil) && l != 24 {
					c.Violate("kwp-key-length", "NewKWP with a key of %d bytes: %v", l, err)
				}
				c.Case("kwp key", l)
			}
			for _, l := range []int{0, 1, 7, 8, 9, 15, 8193, 8194, 8200, 10000, 65536} {
				if out, err := w.Wrap(make([]byte, l)); err == nil {
					if l > 8 && !bytes.Equal(out, ref.Wrap(key, make([]byte, l))) {
						c.Violate("kwp-differs", "Wrap of %d bytes", l)
					}
					if l <= 8 {
						c.Violate("kwp-length", "Wrap of %d bytes gave %x", l, out)
					}
				}
				c.Case("kwp length", l)
			}
			for l := 0; l < 70; l++ {
				if l < 24 || l%8 != 0 {
					if out, err := w.Unwrap(kit.Bytes(r, l)); err == nil {
						c.Violate("kwp-length", "Unwrap of %d bytes gave %x", l, out)
					}
					c.Case("kwp unwrap length", l)
				}
			}
		}
		l := c10Size(r)
		if n < 60 && i < 16 {
			l = 16 + i*60 + n // all small ones
		}
		data := kit.Bytes(r, l)
		if r.IntN(3) == 0 {
			for j := range data {
				data[j] = []byte{0, 0xff}[n%2]
			}
		}
		want := ref.Wrap(key, data)
		got, err := w.Wrap(clone(data))
		if err != nil || !bytes.Equal(got, want) {
			c.Violate("kwp-differs", "Wrap of %x (%d bytes) under %x is %x, %v; the standard says %x", data, l, key, got, err, want)
			continue
		}
		back, err := w.Unwrap(clone(want))
		if err != nil || !bytes.Equal(back, data) {
			c.Violate("kwp-inverse", "Unwrap of the wrapped %x gave %x, %v", data, back, err)
		}
		c.Case("kwp", len(key), l)
		c.Count("kwp_equal", 1)

		// Forgeries by somebody who can compute W, which must be told apart by initial value, length and padding.
		forge := func(kind string, forged []byte, j int) {
			c.Case("kwp forged", kind, l, j)
			c.Count("kwp_forged", 1)
			refOut, refErr := ref.Unwrap(key, forged)
			out, err := w.Unwrap(clone(forged))
			switch {
			case refErr != nil && err == nil:
				c.Violate("kwp-forged:"+kind, "Unwrap accepted %x (%s of %d bytes at %d) under %x: %x", forged, kind, l, j, key, out)
			case refErr == nil && err != nil && len(refOut) >= 16 && len(refOut) <= 8192:
				c.Violate("kwp-rejected:"+kind, "Unwrap rejected the genuine %x: %v", forged, err)
			case refErr == nil && err == nil && !bytes.Equal(out, refOut):
				c.Violate("kwp-inverse", "Unwrap of %x gave %x instead of %x", forged, out, refOut)
			}
		}
		padded := append([]byte{}, data...)
		for len(padded)%8 != 0 {
			padded = append(padded, 0)
		}
		for j := l; j < len(padded); j++ {
			for _, v := range []byte{1, 0x80, 0xff, byte(len(padded) - l)} {
				p := bytes.Clone(padded)
				p[j] = v
				forge("padding", ref.WrapW(key, ref.AIV(l), p), j-l)
			}
		}
		for d := -17; d <= 17; d++ {
			if l+d >= 0 {
				forge("length", ref.WrapW(key, ref.AIV(l+d), padded), d)
			}
		}
		for j, mli := range []uint32{0, 1, 7, 8, 9, 0x7fffffff, 0x80000000, 0x80000000 | uint32(l), 0xffffffff, 0xfffffff8, 0xfffffff0, uint32(-l), uint32(l) << 8, uint32(l) << 16, uint32(l) << 24, 1 << 16, 1<<16 | uint32(l), 1<<24 | uint32(l)} {
			forge("odd length", ref.WrapW(key, binary.BigEndian.AppendUint32([]byte{0xA6, 0x59, 0x59, 0xA6}, mli), padded), j)
		}
		for j := 0; j < 32; j++ {
			iv := ref.AIV(l)
			iv[j/8] ^= 1 << (j % 8)
			forge("initial value", ref.WrapW(key, iv, padded), j)
		}
		forge("initial value", ref.WrapW(key, bytes.Repeat([]byte{0xA6}, 8), padded), 100)
		forge("initial value", ref.WrapW(key, make([]byte, 8), padded), 101)
		// Alterations by somebody who cannot.
		for j := 0; j < 40; j++ {
			b := r.IntN(8 * len(want))
			m := bytes.Clone(want)
			m[b/8] ^= 1 << (b % 8)
			forge("bit", m, b)
		}
		if n%8 == 0 && l < 200 {
			for k := 1; k < len(want); k++ {
				forge("truncated", want[:k], k)
				forge("truncated front", want[k:], k)
			}
			for k := 1; k < 20; k++ {
				forge("extended", append(bytes.Clone(want), make([]byte, k)...), k)
			}
			forge("swapped", append(bytes.Clone(want[8:]), want[:8]...), 0)
			other := must(crypto.NewKWP(kit.Bytes(r, len(key))))
			if out, err := other.Unwrap(clone(want)); err == nil {
				c.Violate("kwp-key", "another key unwrapped %x: %x", want, out)
			}
		}
	}
}

func c10GCM(c *kit.C, i int) {
	r := c.Rand("gcm", i)
	for n := 0; n < 20; n++ {
		key, nonce := kit.Key(r), kit.Bytes(r, 12)
		p, aad := kit.Content(r, 60), kit.Content(r, 60)
		g := crypto.AES256GCM{Random: &crypto.MockRandom{Bytes: append(bytes.Clone(nonce), kit.Bytes(r, 64)...)}}
		got, err := g.Encrypt(clone(p), clone(aad), bytes.Clone(key))
		want := ref.GCMSeal(key, nonce, p, aad)
		if err != nil || !bytes.Equal(got, want) {
			c.Violate("gcm-differs", "Encrypt of %s under %x with nonce %x is %x, %v; the standard says %x", showObj(p, aad), key, nonce, got, err, want)
			continue
		}
		dec := crypto.AES256GCM{Random: &crypto.NativeRandom{}}
		back, err := dec.Decrypt(clone(want), clone(aad), bytes.Clone(key))
		if err != nil || !bytes.Equal(back, p) {
			c.Violate("gcm-inverse", "Decrypt of the encrypted %s gave %x, %v", showObj(p, aad), back, err)
		}
		c.Case("gcm", len(p), len(aad))
		c.Count("gcm_equal", 1)
		forge := func(kind string, ct, aad, key []byte) {
			c.Case("gcm forged", kind, len(ct), len(aad))
			c.Count("gcm_forged", 1)
			if out, err := dec.Decrypt(clone(ct), clone(aad), bytes.Clone(key)); err == nil {
				c.Violate("gcm-forged:"+kind, "Decrypt accepted an altered ciphertext (%s) of %s: %x", kind, showObj(p, aad), out)
			}
		}
		flip := func(b []byte, bit int) []byte {
			m := bytes.Clone(b)
			m[bit/8] ^= 1 << (bit % 8)
			return m
		}
		for j := 0; j < 224; j += 1 + r.IntN(3) { // tag and nonce
			forge("bit", flip(want, 8*(len(want)-28)+j), aad, key)
		}
		for j := 0; j < 30; j++ {
			forge("bit", flip(want, r.IntN(8*len(want))), aad, key)
			forge("key bit", want, aad, flip(key, r.IntN(256)))
			if len(aad) > 0 {
				forge("aad bit", want, flip(aad, r.IntN(8*len(aad))), key)
			}
		}
		forge("aad extended", want, append(bytes.Clone(aad), 0), key)
		if len(aad) > 0 {
			forge("aad truncated", want, aad[:len(aad)-1], key)
			forge("aad missing", want, nil, key)
		}
		if len(p) > 0 {
			forge("aad from ciphertext", want[1:], append(bytes.Clone(aad), want[0]), key)
		}
		for j := 1; j <= min(len(want), 60); j++ {
			forge("truncated", want[:len(want)-j], aad, key)
			forge("truncated front", want[j:], aad, key)
		}
		forge("extended", append(bytes.Clone(want), 0), aad, key)
		forge("nonce first", append(bytes.Clone(want[len(want)-12:]), want[:len(want)-12]...), aad, key)
		for l := 0; l < 70; l++ {
			if l == 32 {
				continue
			}
			if _, err := (&crypto.AES256GCM{Random: &crypto.NativeRandom{}}).Encrypt(clone(p), aad, make([]byte, l)); err == nil {
				c.Violate("gcm-key-length", "Encrypt with a key of %d bytes succeeded", l)
			}
			if _, err := dec.Decrypt(clone(want), aad, append(bytes.Clone(key), make([]byte, 64)...)[:l]); err == nil {
				c.Violate("gcm-key-length", "Decrypt with a key of %d bytes succeeded", l)
			}
		}
	}
}

type c10Hash struct {
	rate             int
	key, custom      []byte
	size             int
	h                hash.Hash
	msg              []byte
	description      string
	expected, padded []byte
}

func newC10Hash(rate int, key, custom []byte, size int) *c10Hash {
	x := &c10Hash{rate: rate, key: key, custom: custom, size: size}
	if rate == ref.Rate128 {
		x.h = crypto.NewKMAC128(bytes.Clone(key), size, bytes.Clone(custom))
	} else {
		x.h = crypto.NewKMAC256(bytes.Clone(key), size, bytes.Clone(custom))
	}
	return x
}

// c10Compare judges an output of KMAC.
func c10Compare(c *kit.C, rate int, key, msg, custom []byte, size int, got []byte, format string, args ...any) {
	c.Case("kmac", rate, len(key), len(msg), len(custom), size, fmt.Sprintf(format, args...))
	c.Count("kmac_equal", 1)
	want := ref.KMAC(rate, key, msg, custom, size)
	if bytes.Equal(got, want) {
		return
	}
	if bad, aligned := ref.KMACExtraPad(rate, key, msg, custom, size); aligned && bytes.Equal(got, bad) {
		c.Violate("cshake-customization-fills-block", "KMAC with rate %d and a customization string of %d bytes", rate, len(custom))
		return
	}
	c.Violate("kmac-differs", "%s with rate %d, key %x (%d bytes), message of %d bytes, customization of %d bytes: %x, the standard says %x",
		fmt.Sprintf(format, args...), rate, key, len(key), len(msg), len(custom), got, want)
}

// c10KMAC feeds a MAC object in random pieces with sums and resets in between.
func c10KMAC(c *kit.C, i int) {
	r := c.Rand("kmac", i)
	rate := []int{ref.Rate128, ref.Rate256}[i%2]
	minKey := map[int]int{ref.Rate128: 16, ref.Rate256: 32}[rate]
	keyLen := minKey + r.IntN(30)
	switch r.IntN(4) {
	case 0:
		keyLen = minKey + r.IntN(500)
	case 2:
		if r.IntN(8) == 0 { // more than 16 bits count
			keyLen = kit.Pick(r, []int{4096, 8191, 8192, 8193, 16384, 65535, 65536, 65537, 1 << 18}) + r.IntN(2)*r.IntN(70)
		}
	case 1: // around the block boundary
		keyLen = rate*(1+r.IntN(2)) - 12 + r.IntN(14)
	}
	key := kit.Bytes(r, keyLen)
	var custom []byte
	switch r.IntN(4) {
	case 0:
	case 1:
		custom = kit.Bytes(r, max(0, rate-20+r.IntN(24)))
	case 2:
		if r.IntN(8) == 0 {
			custom = kit.Bytes(r, kit.Pick(r, []int{4096, 8191, 8192, 8193, 16384, 65535, 65536, 65537, 1 << 18})+r.IntN(2)*r.IntN(70))
		}
	default:
		custom = kit.Content(r, 0)
	}
	size := 8 + r.IntN(64)
	if r.IntN(5) == 0 {
		size = 8 + r.IntN(600)
	} else if r.IntN(20) == 0 {
		size = kit.Pick(r, []int{4096, 8191, 8192, 8193, 16384, 65535, 65536, 65537, 1 << 18}) + r.IntN(2)*r.IntN(70)
	}
	x := newC10Hash(rate, key, custom, size)
	if x.h.Size() != size || x.h.BlockSize() != rate {
		c.Violate("kmac-size", "Size() is %d, expected %d; BlockSize() is %d, expected %d", x.h.Size(), size, x.h.BlockSize(), rate)
	}
	var steps []byte
	for s := 0; s < 12; s++ {
		switch r.IntN(6) {
		case 0, 1, 2:
			b := kit.Content(r, 0)
			if n, err := x.h.Write(clone(b)); n != len(b) || err != nil {
				c.Violate("kmac-write", "Write of %d bytes returned %d, %v", len(b), n, err)
			}
			x.msg = append(x.msg, b...)
			steps = append(steps, 'w')
		case 3, 4:
			prefix := kit.Bytes(r, r.IntN(40))
			out := x.h.Sum(append(make([]byte, 0, len(prefix)+r.IntN(2)*1000), prefix...))
			if !bytes.HasPrefix(out, prefix) {
				c.Violate("kmac-sum-prefix", "Sum did not append to its argument")
				continue
			}
			steps = append(steps, 's')
			c10Compare(c, rate, key, x.msg, custom, size, out[len(prefix):], "calls %s", steps)
		case 5:
			x.h.Reset()
			x.msg = nil
			steps = append(steps, 'r')
		}
	}
	c10Compare(c, rate, key, x.msg, custom, size, x.h.Sum(nil), "calls %ss", steps)
}

// c10KMACLengths goes through all lengths of one argument.
func c10KMACLengths(c *kit.C, part int) {
	r := c.Rand("lengths", part)
	for n := part; n < 700; n += c.N(8, 32) {
		for _, rate := range []int{ref.Rate128, ref.Rate256} {
			long := kit.Bytes(r, n)
			key := kit.Key(r)
			do := func(key, msg, custom []byte, size int) {
				x := newC10Hash(rate, key, custom, size)
				x.h.Write(msg)
				c10Compare(c, rate, key, msg, custom, size, x.h.Sum(nil), "once")
				x.h.Reset()
				x.h.Write(msg)
				c10Compare(c, rate, key, msg, custom, size, x.h.Sum(nil), "after reset")
			}
			do(key, long, nil, 32)
			do(key, long, []byte("custom"), 32)
			do(key, nil, long, 32)
			if n >= 32 {
				do(long, []byte("message"), nil, 32)
				do(long, []byte("message"), []byte("custom"), 64)
			}
			if n >= 8 {
				do(key, []byte("message"), nil, n)
			}
		}
	}
}

func c10KDF(c *kit.C, i int) {
	r := c.Rand("kdf", i)
	key := kit.Bytes(r, 32+r.IntN(2)*r.IntN(200))
	if r.IntN(20) == 0 {
		key = kit.Bytes(r, 8000+r.IntN(70000))
	}
	var parts [][]byte
	for n := r.IntN(5); n > 0; n-- {
		parts = append(parts, kit.Content(r, 0))
	}
	label := kit.Content(r, 0)
	size := 8 + r.IntN(100)
	got := crypto.KMACKDF(size, bytes.Clone(key), label, parts...)
	c10Compare(c, ref.Rate256, key, bytes.Join(parts, nil), label, size, got, "KMACKDF with %d parts", len(parts))

	tk := kit.Key(r)
	tg := must(crypto.NewKMAC256Tagger(bytes.Clone(tk)))
	for n := 0; n < 10; n++ {
		var v any
		switch r.IntN(4) {
		case 0:
			v = kit.Content(r, 0)
		case 1:
			v = r.Uint64()
		case 2:
			v = kit.Alnum(r, r.IntN(300))
		case 3:
			v = []string{kit.Alnum(r, 5), kit.Alnum(r, 3)}
		}
		enc, err := json.Marshal(v)
		must0(err)
		c10Compare(c, ref.Rate256, tk, nil, enc, 32, must(tg.Tag(v)), "tag of %T", v)
	}
	for l := 0; l < 70; l++ {
		if _, err := crypto.NewKMAC256Tagger(make([]byte, l)); (err == nil) != (l == 32) {
			c.Violate("tagger-key-length", "NewKMAC256Tagger with a key of %d bytes: %v", l, err)
		}
	}
}

func c10Password(c *kit.C, i int) {
	r := c.Rand("password", i)
	h := crypto.NewPasswordHasher()
	pwd, sh, err := h.GeneratePassword()
	must0(err)
	raw, err := base64.RawURLEncoding.DecodeString(pwd)
	if err != nil || len(raw) != 32 || len(sh) != 40 {
		c.Violate("password-format", "password %q (%v), hash %x", pwd, err, sh)
		return
	}
	if !bytes.Equal(ref.PasswordHash(pwd, sh[:8]), sh[8:]) {
		c.Violate("password-differs", "the hash of %q is %x, the standard says %x", pwd, sh, ref.PasswordHash(pwd, sh[:8]))
	}
	compare := func(what, p string, sh []byte, want bool) {
		c.Case("password", what, p, len(sh))
		if want {
			c.Count("password_equal", 1)
		} else {
			c.Count("password_wrong", 1)
		}
		if got := h.Compare(p, clone(sh)); got != want {
			c.Violate("password-compare:"+what, "Compare(%q, %x) is %v, %s", p, sh, got, what)
		}
	}
	compare("generated", pwd, sh, true)
	// Chosen by the reference.
	for n := 0; n < 10; n++ {
		p := kit.String(r)
		salt := kit.Bytes(r, 8)
		compare("any password", p, append(bytes.Clone(salt), ref.PasswordHash(p, salt)...), true)
	}
	for _, p := range []string{"", pwd + "A", "A" + pwd, pwd[:42], pwd[1:], pwd[:41] + pwd[42:], string(raw), pwd + " ", pwd + "\n", pwd + "=", kit.Alnum(r, 43)} {
		compare("wrong password", p, sh, false)
	}
	for n := 0; n < 6; n++ {
		b := []byte(pwd)
		b[r.IntN(len(b))] ^= 1 << r.IntN(7)
		compare("wrong password", string(b), sh, false)
	}
	// Only a complete, unaltered hash matches.
	for l := 0; l < 40; l++ {
		compare("truncated hash", pwd, sh[:l], false)
	}
	compare("extended hash", pwd, append(bytes.Clone(sh), 0), false)
	compare("extended hash", pwd, append(bytes.Clone(sh), sh[8:]...), false)
	for n := 0; n < 8; n++ {
		b := bytes.Clone(sh)
		b[r.IntN(40)] ^= 1 << r.IntN(8)
		compare("altered hash", pwd, b, false)
	}
}

// c10Cryptor covers the composition of the primitives.
func c10Cryptor(c *kit.C, i int) {
	r := c.Rand("cryptor", i)
	key := kit.Key(r)
	cr := must(crypto.NewAESCryptor(bytes.Clone(key)))
	for n := 0; n < 10; n++ {
		p, ad := kit.Content(r, 100), kit.Content(r, 100)
		w, ct, err := cr.Encrypt(p, ad)
		must0(err)
		var got []byte
		_, err = ref.Open(key, w, ct, &got, ad)
		if err != nil || !bytes.Equal(got, p) {
			c.Violate("cryptor-differs", "what the cryptor made of %s opens as %x, %v", showObj(p, ad), got, err)
		}
		c.Case("cryptor", len(p), len(ad))
		try := func(kind string, w, ct, ad []byte) {
			var got []byte
			c.Case("cryptor forged", kind, len(p), len(ad))
			if err := cr.Decrypt(&got, ad, clone(w), clone(ct)); err == nil {
				c.Violate("cryptor-forged:"+kind, "Decrypt accepted altered input (%s) of %s: %x", kind, showObj(p, ad), got)
			} else if len(got) > 0 {
				c.Violate("cryptor-leak:"+kind, "Decrypt failed but gave out %x", got)
			}
		}
		for j := 0; j < 20; j++ {
			m := bytes.Clone(w)
			m[r.IntN(len(m))] ^= 1 << r.IntN(8)
			try("wrapped key", m, ct, ad)
			m = bytes.Clone(ct)
			m[r.IntN(len(m))] ^= 1 << r.IntN(8)
			try("ciphertext", w, m, ad)
		}
		try("data", w, ct, append(bytes.Clone(ad), 0))
		try("no key", nil, ct, ad)
		try("no ciphertext", w, nil, ad)
		w2, ct2, err := cr.Encrypt(p, ad)
		must0(err)
		try("other key", w2, ct, ad)
		try("other ciphertext", w, ct2, ad)
		// A wrapped key of another size is not a data key.
		for _, l := range []int{16, 24, 31, 33, 40, 64} {
			try("size of key", ref.Wrap(key, kit.Bytes(r, l)), ct, ad)
		}
	}
	for l := 0; l < 70; l++ {
		if _, err := crypto.NewAESCryptor(make([]byte, l)); (err == nil) != (l == 32) {
			c.Violate("cryptor-key-length", "NewAESCryptor with a key of %d bytes: %v", l, err)
		}
	}
}
