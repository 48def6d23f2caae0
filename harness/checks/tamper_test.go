package checks

import (
	"bytes"
	"encoding/json"
	"math/rand/v2"

	"verif/harness/kit"
)

// mutation is a change to a byte string.
type mutation struct {
	name string
	b    []byte
}

// mutations are changes to the decoded bytes of a field: every one is different from b. Without all,
// a random part of the bit flips is left out for long values.
func mutations(r *rand.Rand, b []byte, flips int) []mutation {
	var out []mutation
	add := func(name string, x []byte) {
		if !bytes.Equal(x, b) {
			out = append(out, mutation{name, x})
		}
	}
	flip := func(i int) {
		x := bytes.Clone(b)
		x[i/8] ^= 1 << (i % 8)
		add("bit flipped", x)
	}
	if len(b)*8 <= flips {
		for i := 0; i < len(b)*8; i++ {
			flip(i)
		}
	} else {
		for i := 0; i < flips; i++ {
			flip(r.IntN(len(b) * 8))
		}
		for i := 0; i < 8; i++ { // both ends
			flip(i)
			flip(len(b)*8 - 1 - i)
		}
	}
	for _, n := range []int{0, 1, 2, 7, 8, 11, 12, 13, 15, 16, 17, 24, 27, 28, 29, 32, 40, len(b) / 2, len(b) - 29, len(b) - 28, len(b) - 17, len(b) - 16, len(b) - 13, len(b) - 12, len(b) - 8, len(b) - 2, len(b) - 1} {
		if n >= 0 && n < len(b) {
			add("truncated", bytes.Clone(b[:n]))
			add("beginning cut off", bytes.Clone(b[len(b)-n:]))
		}
	}
	for _, n := range []int{1, 2, 8, 12, 16, 28} {
		add("extended by zeros", append(bytes.Clone(b), make([]byte, n)...))
		add("extended", append(bytes.Clone(b), kit.Bytes(r, n)...))
		add("zeros before it", append(make([]byte, n), b...))
	}
	add("doubled", append(bytes.Clone(b), b...))
	add("random", kit.Bytes(r, len(b)))
	add("zeros", make([]byte, len(b)))
	add("null", nil)
	if len(b) > 40 {
		// The nonce in front, as many formats have it, and parts exchanged.
		add("nonce moved", append(bytes.Clone(b[len(b)-12:]), b[:len(b)-12]...))
		x := bytes.Clone(b)
		copy(x[8:16], b[16:24])
		copy(x[16:24], b[8:16])
		add("blocks exchanged", x)
	}
	for i := 0; i < 6 && len(b) > 1; i++ {
		x := bytes.Clone(b)
		n, j := 1+r.IntN(min(4, len(b))), r.IntN(len(b))
		for ; n > 0 && j < len(x); n, j = n-1, j+1 {
			x[j] = byte(r.Uint32())
		}
		add("bytes changed", x)
	}
	return out
}

// rawMutations are changes to a stored record as a whole.
func rawMutations(r *rand.Rand, raw []byte, flips int) []mutation {
	out := mutations(r, raw, flips)
	for n := 0; n < len(raw); n += 1 + r.IntN(1+len(raw)/40) {
		out = append(out, mutation{"truncated", bytes.Clone(raw[:n])})
	}
	for i := 0; i < 40; i++ {
		x := bytes.Clone(raw)
		j := r.IntN(len(x))
		x[j] = "{}[]\",:\\0nu=A/+ \n\x00\xff"[r.IntN(19)]
		out = append(out, mutation{"character changed", x})
		j = r.IntN(len(x))
		out = append(out, mutation{"character removed", append(bytes.Clone(raw[:j]), raw[j+1:]...)})
		out = append(out, mutation{"character inserted", append(append(bytes.Clone(raw[:j]), "{}[]\",:A0="[r.IntN(10)]), raw[j:]...)})
	}
	for _, s := range []string{"", "null", "{}", "[]", "true", "0", `""`, "{", `{"Ciphertext":null}`, `{"Ciphertext":"","WrappedKey":"","AssociatedData":""}`,
		`{"Ciphertext":1}`, `{"Ciphertext":"%"}`, `{"Ciphertext":{"a":1}}`, `{"OID":"x"}`, `{"OID":null}`, "\xff\xfe", "\x00"} {
		out = append(out, mutation{"replaced by " + s, []byte(s)})
	}
	return out
}

// fields decodes a record the way any JSON decoder does.
func fields(raw []byte) (map[string]any, bool) {
	m := map[string]any{}
	if json.Unmarshal(raw, &m) != nil {
		return nil, false
	}
	return m, true
}

// withField replaces one field of a record.
func withField(raw []byte, name string, v any) []byte {
	m, ok := fields(raw)
	if !ok {
		panic(libraryError{"a stored record is not a JSON object"})
	}
	m[name] = v
	b, err := json.Marshal(m)
	if err != nil {
		panic(err)
	}
	return b
}

// byteField returns the bytes of a field, of any name spelling the library may accept.
func byteField(raw []byte, name string) []byte {
	var m map[string]json.RawMessage
	var b []byte
	if json.Unmarshal(raw, &m) != nil || json.Unmarshal(m[name], &b) != nil {
		panic(libraryError{"a stored record has no field " + name})
	}
	return b
}
