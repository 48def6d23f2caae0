package ref

import (
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	"crypto/pbkdf2"
	"crypto/sha3"
	"encoding/base64"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"time"
)

func gcm(key []byte) cipher.AEAD {
	b, err := aes.NewCipher(key)
	if err != nil {
		panic(err)
	}
	g, err := cipher.NewGCM(b)
	if err != nil {
		panic(err)
	}
	return g
}

// GCMSeal returns ciphertext, tag and nonce, in this order.
func GCMSeal(key, nonce, plaintext, aad []byte) []byte {
	return append(gcm(key).Seal(nil, nonce, plaintext, aad), nonce...)
}

var ErrShort = errors.New("ref: ciphertext too short")

func GCMOpen(key, sealed, aad []byte) ([]byte, error) {
	if len(sealed) < 28 {
		return nil, ErrShort
	}
	return gcm(key).Open(nil, sealed[len(sealed)-12:], sealed[:len(sealed)-12], aad)
}

func mustJSON(v any) []byte {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return b
}

// Seal encrypts the JSON encoding of v under dek, and wraps dek.
func Seal(master, dek, nonce []byte, v, aad any) (wrapped, ciphertext []byte) {
	return Wrap(master, dek), GCMSeal(dek, nonce, mustJSON(v), mustJSON(aad))
}

// Open is the inverse of Seal; unknown fields are errors.
func Open(master, wrapped, ciphertext []byte, v, aad any) (dek []byte, err error) {
	dek, err = Unwrap(master, wrapped)
	if err != nil {
		return nil, err
	}
	if len(dek) != 32 {
		return nil, fmt.Errorf("ref: data key of %d bytes", len(dek))
	}
	p, err := GCMOpen(dek, ciphertext, mustJSON(aad))
	if err != nil {
		return nil, err
	}
	return dek, strict(p, v)
}

func strict(b []byte, v any) error {
	d := json.NewDecoder(bytes.NewReader(b))
	d.DisallowUnknownFields()
	if err := d.Decode(v); err != nil {
		return fmt.Errorf("ref: %v in %q", err, b)
	}
	if d.More() {
		return fmt.Errorf("ref: trailing data in %q", b)
	}
	return nil
}

// UUID is written the way the library's records do.
type UUID [16]byte

func (u UUID) String() string {
	return fmt.Sprintf("%x-%x-%x-%x-%x", u[0:4], u[4:6], u[6:8], u[8:10], u[10:16])
}

func (u UUID) MarshalText() ([]byte, error) { return []byte(u.String()), nil }

func (u *UUID) UnmarshalText(b []byte) error {
	raw, err := hex.DecodeString(string(bytes.ReplaceAll(b, []byte("-"), nil)))
	if err != nil || len(raw) != 16 {
		return fmt.Errorf("ref: bad UUID %q", b)
	}
	copy(u[:], raw)
	if u.String() != string(b) {
		return fmt.Errorf("ref: bad UUID %q", b)
	}
	return nil
}

// The stored records.
type (
	ObjectRecord struct {
		Ciphertext     []byte
		AssociatedData []byte
		OID            UUID
	}
	AccessRecord struct {
		OID        UUID
		Ciphertext []byte
		WrappedKey []byte
	}
	Access struct {
		Groups     map[string]struct{}
		WrappedDEK []byte
	}
	NodeRecord struct {
		Ciphertext []byte
		WrappedKey []byte
	}
	Node struct {
		Identifier  string
		NextCounter uint64
	}
	UserRecord struct {
		UID        string
		Ciphertext []byte
		WrappedKey []byte
	}
	User struct {
		SaltAndHash []byte
		Scopes      uint64
		Groups      map[string]struct{}
	}
	GroupRecord struct {
		GID        string
		Ciphertext []byte
		WrappedKey []byte
	}
	Group struct {
		Scopes uint64
	}
	TokenRecord struct {
		ExpiryTime time.Time
		Ciphertext []byte
		WrappedKey []byte
	}
)

// Random hands out bytes for keys and nonces.
type Random func(n int) []byte

// Parse decodes a stored record strictly.
func Parse(raw []byte, v any) error { return strict(raw, v) }

// Bytes encodes a stored record.
func Bytes(v any) []byte { return mustJSON(v) }

func aadObject(oid [16]byte, ad []byte) []byte { return append(append([]byte{}, oid[:]...), ad...) }

func SealObject(kek []byte, rnd Random, oid [16]byte, plaintext, ad []byte) (wrapped []byte, rec ObjectRecord) {
	if plaintext == nil {
		plaintext = []byte{}
	}
	w, c := Seal(kek, rnd(32), rnd(12), plaintext, aadObject(oid, ad))
	return w, ObjectRecord{c, ad, oid}
}

func OpenObject(kek []byte, wrapped []byte, rec ObjectRecord, oid [16]byte) (plaintext []byte, dek []byte, err error) {
	dek, err = Open(kek, wrapped, rec.Ciphertext, &plaintext, aadObject(oid, rec.AssociatedData))
	return
}

func SealAccess(aek []byte, rnd Random, oid [16]byte, a Access) AccessRecord {
	w, c := Seal(aek, rnd(32), rnd(12), a, oid[:])
	return AccessRecord{oid, c, w}
}

func OpenAccess(aek []byte, rec AccessRecord, oid [16]byte) (a Access, dek []byte, err error) {
	dek, err = Open(aek, rec.WrappedKey, rec.Ciphertext, &a, oid[:])
	return
}

func SealToken(tek []byte, rnd Random, expiry time.Time, contents []byte) TokenRecord {
	w, c := Seal(tek, rnd(32), rnd(12), contents, expiry)
	return TokenRecord{expiry, c, w}
}

func OpenToken(tek []byte, rec TokenRecord) (contents, dek []byte, err error) {
	dek, err = Open(tek, rec.WrappedKey, rec.Ciphertext, &contents, rec.ExpiryTime)
	return
}

func (t TokenRecord) String() string { return base64.RawURLEncoding.EncodeToString(mustJSON(t)) }

func TokenFromString(s string) (t TokenRecord, err error) {
	b, err := base64.RawURLEncoding.Strict().DecodeString(s)
	if err != nil {
		return t, err
	}
	return t, strict(b, &t)
}

func SealUser(uek []byte, rnd Random, uid string, u User) UserRecord {
	w, c := Seal(uek, rnd(32), rnd(12), u, uid)
	return UserRecord{uid, c, w}
}

func OpenUser(uek []byte, rec UserRecord, uid string) (u User, dek []byte, err error) {
	dek, err = Open(uek, rec.WrappedKey, rec.Ciphertext, &u, uid)
	return
}

func SealGroup(gek []byte, rnd Random, gid string, g Group) GroupRecord {
	w, c := Seal(gek, rnd(32), rnd(12), g, gid)
	return GroupRecord{gid, c, w}
}

func OpenGroup(gek []byte, rec GroupRecord, gid string) (g Group, dek []byte, err error) {
	dek, err = Open(gek, rec.WrappedKey, rec.Ciphertext, &g, gid)
	return
}

// IndexKeys derives the label key and the encryption key of a keyword.
func IndexKeys(iek []byte, keyword string) (k1, k2 []byte) {
	return KMAC(Rate256, iek, []byte(keyword), []byte("label"), 32), KMAC(Rate256, iek, []byte(keyword), []byte("id"), 32)
}

// Label is the record name of the node at a position.
func Label(k1 []byte, counter uint64) []byte {
	return KMAC(Rate256, k1, nil, mustJSON(binary.AppendUvarint(nil, counter)), 32)
}

func SealNode(k2 []byte, rnd Random, label []byte, n Node) NodeRecord {
	w, c := Seal(k2, rnd(32), rnd(12), n, label)
	return NodeRecord{c, w}
}

func OpenNode(k2 []byte, rec NodeRecord, label []byte) (n Node, dek []byte, err error) {
	dek, err = Open(k2, rec.WrappedKey, rec.Ciphertext, &n, label)
	return
}

// PasswordHash is the salted hash of a password.
func PasswordHash(password string, salt []byte) []byte {
	h, err := pbkdf2.Key(func() *sha3.SHA3 { return sha3.New256() }, password, salt, 10000, 32)
	if err != nil {
		panic(err)
	}
	return h
}
