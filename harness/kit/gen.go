package kit

import (
	"bytes"
	"context"
	"fmt"
	"math/rand/v2"
	"os"
	"sync/atomic"

	d1 "github.com/cybercryptio/d1-lib/v2"
	"github.com/cybercryptio/d1-lib/v2/id"
	"github.com/cybercryptio/d1-lib/v2/index"
	"github.com/cybercryptio/d1-lib/v2/io"
	"github.com/cybercryptio/d1-lib/v2/key"
)

var Ctx = context.Background()

// Bytes returns random bytes.
func Bytes(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	for i := 0; i < n; i += 8 {
		v := r.Uint64()
		for j := i; j < n && j < i+8; j++ {
			b[j] = byte(v)
			v >>= 8
		}
	}
	return b
}

// Key returns a 32-byte key.
func Key(r *rand.Rand) []byte { return Bytes(r, 32) }

// Keys are the keys of all parts of the library.
type Keys struct {
	D1 key.Keys
	ID id.StandaloneConfig
}

// NewKeys returns seven different random keys.
func NewKeys(r *rand.Rand) Keys {
	return Keys{
		D1: key.Keys{KEK: Key(r), AEK: Key(r), TEK: Key(r), IEK: Key(r)},
		ID: id.StandaloneConfig{UEK: Key(r), GEK: Key(r), TEK: Key(r)},
	}
}

// KeyProvider hands out fresh copies of its keys.
type KeyProvider struct {
	K   key.Keys
	Err error
}

func (p *KeyProvider) GetKeys(context.Context) (key.Keys, error) {
	c := func(b []byte) []byte { return append([]byte(nil), b...) }
	return key.Keys{KEK: c(p.K.KEK), AEK: c(p.K.AEK), TEK: c(p.K.TEK), IEK: c(p.K.IEK)}, p.Err
}

// NewD1 makes an instance that must be created without error.
func NewD1(k Keys, store io.Provider, ids id.Provider) *d1.D1 {
	d, err := d1.New(Ctx, &KeyProvider{K: k.D1}, store, ids)
	if err != nil {
		panic(LibraryError{fmt.Sprintf("d1.New failed with valid keys: %v", err)})
	}
	return &d
}

func NewIndex(k Keys, store io.Provider, ids id.Provider) *index.SecureIndex {
	x, err := index.NewSecureIndex(Ctx, &KeyProvider{K: k.D1}, store, ids)
	if err != nil {
		panic(LibraryError{fmt.Sprintf("NewSecureIndex failed with valid keys: %v", err)})
	}
	return &x
}

func NewStandalone(k Keys, store io.Provider) *id.Standalone {
	s, err := id.NewStandalone(k.ID, store)
	if err != nil {
		panic(LibraryError{fmt.Sprintf("NewStandalone failed with valid keys: %v", err)})
	}
	return &s
}

var boltN atomic.Int64

// NewBolt opens a bolt provider on a new file in memory-backed scratch space.
func NewBolt() io.Provider {
	base := os.Getenv("VERIF_SCRATCH")
	if base == "" {
		base = os.TempDir()
	}
	b, err := io.NewBolt(fmt.Sprintf("%s/bolt-%d-%d.db", base, os.Getpid(), boltN.Add(1)))
	if err != nil {
		panic(LibraryError{fmt.Sprintf("NewBolt: %v", err)})
	}
	return &b
}

// NewMem makes the library's in-memory provider.
func NewMem() io.Provider {
	m := io.NewMem()
	return &m
}

// NewProxyOverMem makes the library's proxy over its in-memory provider.
func NewProxyOverMem() io.Provider {
	p := io.NewProxy(NewMem())
	return &p
}

var edgeSizes = []int{0, 1, 2, 3, 4, 5, 7, 8, 11, 12, 13, 15, 16, 17, 19, 23, 24, 27, 28, 29, 31, 32, 33, 47, 48, 49, 63, 64, 65, 95, 96, 97,
	127, 128, 129, 191, 192, 255, 256, 257, 383, 384, 511, 512, 513, 1023, 1024, 1025, 2047, 2048, 4095, 4096, 4097}

var bigSizes = []int{8191, 8192, 8193, 16384, 32767, 32768, 65535, 65536, 65537, 100000, 131072, 262144, 1 << 20, 1<<20 + 1, 3 << 20}

// Size returns a size, mostly small, with the boundaries of blocks and encodings more likely; big
// ones are one in `big` (0: never).
func Size(r *rand.Rand, big int) int {
	if big > 0 && r.IntN(big) == 0 {
		return bigSizes[r.IntN(len(bigSizes))]
	}
	switch r.IntN(4) {
	case 0, 1:
		return edgeSizes[r.IntN(len(edgeSizes))]
	case 2:
		return r.IntN(64)
	default:
		return r.IntN(1500)
	}
}

// Content returns bytes of various kinds; sometimes nil.
func Content(r *rand.Rand, big int) []byte {
	n := Size(r, big)
	switch r.IntN(14) {
	case 0:
		return nil
	case 1:
		return []byte{}
	case 2:
		return make([]byte, n)
	case 3:
		b := make([]byte, n)
		for i := range b {
			b[i] = 0xff
		}
		return b
	case 4:
		s := []string{"null", `""`, `"`, `{"Ciphertext":"AAAA"}`, "true", "0", "\n", "\x00", "é漢😀", "<&>\u2028", "\xff\xfe", "AAAA====", "=", "-", "{}", "[]"}
		s = append(s, VariantBases...)
		return []byte(s[r.IntN(len(s))])
	case 5:
		b := make([]byte, n)
		for i := range b {
			b[i] = "abcdefghijklmnopqrstuvwxyz \n"[r.IntN(28)]
		}
		return b
	case 6: // trailing zeros or newlines
		b := Bytes(r, n)
		for i := max(0, n-3); i < n; i++ {
			b[i] = "\x00\n"[n&1]
		}
		return b
	default:
		return Bytes(r, n)
	}
}

// Strings are valid UTF-8 strings that are easy to confuse with each other.
var Strings = []string{
	"alice", "Alice", "ALICE", "alice ", " alice", "alice\n", "alice\x00", "alic", "alicee", "a", "A", "b", "ab", "aa", "",
	" ", "\x00", "\x00\x00", "0", "1", "01", "null", "nil", "{}", "\"", "\\", "\\\"", "\"alice\"", "a,b", "a:b", "a/b", "*", "%", "%s", "alice*", "?",
	"é", "e\u0301", "É", "漢字", "😀", "\ufffd", "\u2028", "<alice>", "&lt;", "&", "<", ">", "a&b", "\u00e9", "\u0130", "i", "I", "ı", "ß", "ss", "ﬁ", "fi",
	"\u200balice", "alice\u200b", "\u202ealice", "аlice" /* Cyrillic */, "user", "users", "group", "admin", "root", "true", "false",
	"00000000-0000-0000-0000-000000000000", "123e4567-e89b-12d3-a456-426614174000", "123E4567-E89B-12D3-A456-426614174000", "{123e4567-e89b-12d3-a456-426614174000}",
	"123e4567e89b12d3a456426614174000", "urn:uuid:123e4567-e89b-12d3-a456-426614174000",
	"aliceLong0123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789a",
	"aliceLong0123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789b",
}

// Twins are long strings of equal length that differ in one character only: the last, the first or
// one in the middle.
var Twins = func() (out []string) {
	for _, n := range []int{65, 129, 137, 150, 257, 300, 1025} {
		for _, at := range []int{0, n / 2, n - 1} {
			b := bytes.Repeat([]byte("k"), n)
			for _, x := range "12" {
				b[at] = byte(x)
				out = append(out, string(b))
			}
		}
	}
	return
}()

// String returns one of Strings or Twins or a random one.
func String(r *rand.Rand) string {
	if r.IntN(12) == 0 {
		return Twins[r.IntN(len(Twins))]
	}
	if r.IntN(4) > 0 {
		return Strings[r.IntN(len(Strings))]
	}
	n := r.IntN(40)
	s := make([]rune, n)
	for i := range s {
		switch r.IntN(5) {
		case 0:
			s[i] = rune(r.IntN(0x80))
		case 1:
			s[i] = rune(0x80 + r.IntN(0x700))
		case 2:
			s[i] = rune(0x10000 + r.IntN(0x1000))
		default:
			s[i] = rune('a' + r.IntN(26))
		}
	}
	return string(s)
}

// Alnum returns a random alphanumeric string of length n.
func Alnum(r *rand.Rand, n int) string {
	const a = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789"
	b := make([]byte, n)
	for i := range b {
		b[i] = a[r.IntN(len(a))]
	}
	return string(b)
}

// Pick returns one element.
func Pick[T any](r *rand.Rand, xs []T) T { return xs[r.IntN(len(xs))] }

// Short shortens bytes for messages.
func Short(b []byte) string {
	if len(b) <= 24 {
		return fmt.Sprintf("%x", b)
	}
	return fmt.Sprintf("%x...(%d bytes)", b[:24], len(b))
}
