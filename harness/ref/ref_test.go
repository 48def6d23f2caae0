package ref

import (
	"bytes"
	"encoding/hex"
	"testing"
)

func unhex(s string) []byte {
	b, err := hex.DecodeString(s)
	if err != nil {
		panic(err)
	}
	return b
}

func seq(from, to int) []byte {
	var b []byte
	for i := from; i <= to; i++ {
		b = append(b, byte(i))
	}
	return b
}

func check(t *testing.T, name string, got []byte, want string) {
	t.Helper()
	if !bytes.Equal(got, unhex(want)) {
		t.Errorf("%s: got %x, want %s", name, got, want)
	}
}

// Vectors of FIPS 202, NIST's SP 800-185 examples and RFC 5649.
func TestVectors(t *testing.T) {
	check(t, "sha3", SHA3_256(nil), "a7ffc6f8bf1ed76651c14756a061d662f580ff4de43b49fa82d80a4b80f8434a")
	check(t, "sha3 abc", SHA3_256([]byte("abc")), "3a985da74fe225b2045c172d6bd390bd855f086e3e9d525b46bfe24511431532")
	check(t, "cshake128", CShake(Rate128, seq(0, 3), nil, []byte("Email Signature"), 32, false), "c1c36925b6409a04f1b504fcbca9d82b4017277cb5ed2b2065fc1d3814d5aaf5")
	key := seq(0x40, 0x5f)
	check(t, "kmac1", KMAC(Rate128, key, seq(0, 3), nil, 32), "e5780b0d3ea6f7d3a429c5706aa43a00fadbd7d49628839e3187243f456ee14e")
	check(t, "kmac2", KMAC(Rate128, key, seq(0, 3), []byte("My Tagged Application"), 32), "3b1fba963cd8b0b59e8c1a6d71888b7143651af8ba0a7070c0979e2811324aa5")
	check(t, "kmac3", KMAC(Rate128, key, seq(0, 0xc7), []byte("My Tagged Application"), 32), "1f5b4e6cca02209e0dcb5ca635b89a15e271ecc760071dfd805faa38f9729230")
	check(t, "kmac4", KMAC(Rate256, key, seq(0, 3), []byte("My Tagged Application"), 64), "20c570c31346f703c9ac36c61c03cb64c3970d0cfc787e9b79599d273a68d2f7f69d4cc3de9d104a351689f27cf6f5951f0103f33f4f24871024d9c27773a8dd")
	check(t, "kmac5", KMAC(Rate256, key, seq(0, 0xc7), nil, 64), "75358cf39e41494e949707927cee0af20a3ff553904c86b08f21cc414bcfd691589d27cf5e15369cbbff8b9a4c2eb17800855d0235ff635da82533ec6b759b69")

	kek := unhex("5840df6e29b02af1ab493b705bf16ea1ae8338f4dcc176a8")
	check(t, "kwp20", Wrap(kek, unhex("c37b7e6492584340bed12207808941155068f738")), "138bdeaa9b8fa7fc61f97742e72248ee5ae6ae5360d1ae6a5f54f373fa543b6a")
	check(t, "kwp7", Wrap(kek, unhex("466f7250617369")), "afbeb0f07dfbf5419200f2ccb50bb24f")
	for n := 1; n < 100; n++ {
		k := seq(1, n)
		got, err := Unwrap(kek, Wrap(kek, k))
		if err != nil || !bytes.Equal(got, k) {
			t.Errorf("unwrap %d: %x %v", n, got, err)
		}
	}
}
