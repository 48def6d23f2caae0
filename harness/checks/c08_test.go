package checks

import (
	"bytes"
	"crypto/rand"
	"encoding/base64"
	"encoding/binary"
	"fmt"
	"io"
	mrand "math/rand/v2"
	"sort"
	"strings"
	"sync"
	"testing"

	"github.com/gofrs/uuid"

	d1 "github.com/cybercryptio/d1-lib/v2"
	"github.com/cybercryptio/d1-lib/v2/crypto"
	"github.com/cybercryptio/d1-lib/v2/id"
	dio "github.com/cybercryptio/d1-lib/v2/io"

	"verif/harness/kit"
	"verif/harness/ref"
)

// C08: every sealing uses fresh, full-entropy random keys, nonces and salts.

// recorder is the system's random source; it keeps all it hands out.
type recorder struct {
	mu    sync.Mutex
	under io.Reader
	short bool // hand out less than asked for at times, as readers may
	n     uint32
	out   []byte
}

func (r *recorder) Read(b []byte) (int, error) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.n = r.n*1664525 + 1013904223
	if r.short && len(b) > 1 && r.n>>30 > 0 {
		b = b[:1+int(r.n>>8)%len(b)]
	}
	if _, err := io.ReadFull(r.under, b); err != nil {
		return 0, err
	}
	r.out = append(r.out, b...)
	return len(b), nil
}

type drawn struct {
	what string
	b    []byte
}

type c08 struct {
	c     *kit.C
	mu    sync.Mutex
	items []drawn
	uuids map[string]string
	ones  [128]int
	zeros [128]int
}

func (x *c08) add(what string, b []byte) {
	x.mu.Lock()
	x.items = append(x.items, drawn{what, bytes.Clone(b)})
	x.mu.Unlock()
}

func (x *c08) uuid(what string, u uuid.UUID) {
	x.mu.Lock()
	defer x.mu.Unlock()
	x.c.Case("uuid", u)
	if prev, ok := x.uuids[string(u[:])]; ok {
		x.c.Violate("uuid-reused", "the ID %s of a new %s was given to a %s before", u, what, prev)
	}
	x.uuids[string(u[:])] = what
	if u.Version() != 4 || u.Variant() != uuid.VariantRFC4122 {
		x.c.Violate("uuid-kind", "the ID %s of a new %s is not a random UUID", u, what)
	}
	for i := range x.ones {
		if u[i/8]>>(7-i%8)&1 == 1 {
			x.ones[i]++
		} else {
			x.zeros[i]++
		}
	}
}

func TestC08(t *testing.T) {
	kit.Run(t, "C08", "exploration", "An evaluation is one data key, nonce, salt or password found in the recorded output of the random source, or one UUID. Non-trivial: distinct values.", func(c *kit.C) {
		for _, short := range []bool{false, true} {
			rec := &recorder{under: rand.Reader, short: short}
			orig := rand.Reader
			rand.Reader = rec
			probe := make([]byte, 16)
			rand.Read(probe)
			if !bytes.Equal(rec.out, probe) {
				c.Inconclusive("the random source cannot be observed")
			}
			x := &c08{c: c, uuids: map[string]string{}}
			n := c.N(72, 800)
			if short { // one call at a time, because the parts of a value are only found next to each other
				for i := 0; i < n/4; i++ {
					c.Guard("world", func() { prep(c, func() { x.world(i, short) }) })
				}
			} else {
				c.Parallel("world", n, func(i int) { prep(c, func() { x.world(i, short) }) })
			}
			c.Guard("primitives", func() { prep(c, x.primitives) })
			rand.Reader = orig
			x.judge(rec)
		}
		c.Require("drawn_data_key", 1000)
		c.Require("drawn_salt", 20)
	})
}

// world runs all sealing operations on two instances, several goroutines at a time.
func (x *c08) world(i int, short bool) {
	c := x.c
	r := c.Rand("world", i, short)
	k := kit.NewKeys(r)
	st := kit.NewStore()
	tap := kit.NewTap(st)
	ids := kit.NewIDs()
	tok := ids.User("u", id.ScopeAll)
	ds := []*d1.D1{kit.NewD1(k, tap, ids), kit.NewD1(k, tap, ids)}
	ix := kit.NewIndex(k, tap, ids)
	sa := kit.NewStandalone(k, tap)
	names := map[string]string{} // hex of a label -> keyword
	var mu sync.Mutex

	work := func(g int, r *mrand.Rand) {
		d := kit.Pick(r, ds)
		kw := fmt.Sprint("kw", g)
		k1, _ := ref.IndexKeys(k.D1.IEK, kw)
		mu.Lock()
		for n := uint64(0); n < 40; n++ {
			names[string(ref.Label(k1, n))] = kw
		}
		mu.Unlock()
		var oids []uuid.UUID
		for s := 0; s < 25; s++ {
			switch r.IntN(8) {
			case 0, 1:
				oid := must(d.Encrypt(ctx, tok, obj([]byte("same"), []byte("same")), "g"))
				oids = append(oids, oid)
				x.uuid("object", oid)
			case 2:
				if len(oids) > 0 {
					must0(kit.Pick(r, ds).Update(ctx, tok, kit.Pick(r, oids), obj([]byte("same"), []byte("same"))))
				}
			case 3:
				if len(oids) > 0 {
					must0(kit.Pick(r, ds).AddGroupsToAccess(ctx, tok, kit.Pick(r, oids), "g"))
					must0(kit.Pick(r, ds).RemoveGroupsFromAccess(ctx, tok, kit.Pick(r, oids), "none"))
				}
			case 4:
				t := must(d.CreateToken(ctx, []byte("same")))
				x.token("token", k.D1.TEK, must(t.String()))
			case 5, 6:
				must0(ix.Add(ctx, tok, kw, "same"))
			case 7:
				must0(ix.Add(ctx, tok, kw, "other"))
				must0(ix.Delete(ctx, tok, kw, "other"))
			}
		}
		if g == 0 {
			uid, pwd := must2(sa.NewUser(ctx, id.ScopeAll))
			x.uuid("user", must(uuid.FromString(uid)))
			for n := 0; n < 3; n++ {
				if b, err := base64.RawURLEncoding.DecodeString(pwd); err == nil {
					x.add("password", b)
				} else {
					c.Violate("password-format", "the password is not base64: %v", err)
				}
				tok, _, err := sa.LoginUser(ctx, uid, pwd)
				must0(err)
				x.token("identity token", k.ID.TEK, tok)
				gid := must(sa.NewGroup(ctx, tok, id.ScopeAll))
				x.uuid("group", must(uuid.FromString(gid)))
				must0(sa.AddUserToGroups(ctx, tok, uid, gid))
				must0(sa.RemoveUserFromGroups(ctx, tok, uid, gid))
				p := must(sa.ChangeUserPassword(ctx, uid, pwd))
				pwd = p
			}
		}
	}
	var wg sync.WaitGroup
	for g := 0; g < 3; g++ {
		wg.Add(1)
		gr := c.Rand("worker", i, short, g)
		run := func() {
			defer wg.Done()
			c.Guard("worker", func() { prep(c, func() { work(g, gr) }) })
		}
		if short {
			run()
		} else {
			go run()
		}
	}
	wg.Wait()

	// Open everything that was written.
	salts := map[string]bool{}
	accs := map[[16]byte][]ref.Access{}
	bad := func(e kit.Event, err error) {
		c.Violate("format", "the record of %v cannot be opened: %v", e, err)
	}
	events := tap.Events()
	for _, e := range events {
		if e.Type != dio.DataTypeSealedAccess || e.Op != "Put" && e.Op != "Update" {
			continue
		}
		var rec ref.AccessRecord
		oid := [16]byte(e.ID)
		if err := ref.Parse(e.Data, &rec); err != nil {
			bad(e, err)
			continue
		}
		a, dek, err := ref.OpenAccess(k.D1.AEK, rec, oid)
		if err != nil {
			bad(e, err)
			continue
		}
		accs[oid] = append(accs[oid], a)
		x.add("data key of an access list", dek)
		x.add("nonce of an access list", rec.Ciphertext[len(rec.Ciphertext)-12:])
	}
	for _, e := range events {
		if e.Op != "Put" && e.Op != "Update" {
			continue
		}
		switch e.Type {
		case dtObject:
			var rec ref.ObjectRecord
			oid := [16]byte(e.ID)
			if err := ref.Parse(e.Data, &rec); err != nil {
				bad(e, err)
				continue
			}
			found := false
			for _, a := range accs[oid] {
				if _, dek, err := ref.OpenObject(k.D1.KEK, a.WrappedDEK, rec, oid); err == nil {
					x.add("data key of an object", dek)
					x.add("nonce of an object", rec.Ciphertext[len(rec.Ciphertext)-12:])
					found = true
					break
				}
			}
			if !found {
				bad(e, fmt.Errorf("no access list has its key"))
			}
		case dtNode:
			var rec ref.NodeRecord
			if err := ref.Parse(e.Data, &rec); err != nil {
				bad(e, err)
				continue
			}
			_, k2 := ref.IndexKeys(k.D1.IEK, names[string(e.ID)])
			_, dek, err := ref.OpenNode(k2, rec, e.ID)
			if err != nil {
				bad(e, err)
				continue
			}
			x.add("data key of a node", dek)
			x.add("nonce of a node", rec.Ciphertext[len(rec.Ciphertext)-12:])
		case dtUser:
			var rec ref.UserRecord
			if err := ref.Parse(e.Data, &rec); err != nil {
				bad(e, err)
				continue
			}
			u, dek, err := ref.OpenUser(k.ID.UEK, rec, string(e.ID))
			if err != nil || len(u.SaltAndHash) != 40 {
				bad(e, err)
				continue
			}
			x.add("data key of a user", dek)
			x.add("nonce of a user", rec.Ciphertext[len(rec.Ciphertext)-12:])
			if s := string(u.SaltAndHash); !salts[s] { // kept while the password is
				salts[s] = true
				x.add("salt", u.SaltAndHash[:8])
			}
		case dtGroup:
			var rec ref.GroupRecord
			if err := ref.Parse(e.Data, &rec); err != nil {
				bad(e, err)
				continue
			}
			_, dek, err := ref.OpenGroup(k.ID.GEK, rec, string(e.ID))
			if err != nil {
				bad(e, err)
				continue
			}
			x.add("data key of a group", dek)
			x.add("nonce of a group", rec.Ciphertext[len(rec.Ciphertext)-12:])
		}
	}
}

func (x *c08) token(what string, key []byte, s string) {
	t, err := ref.TokenFromString(s)
	if err == nil {
		var dek []byte
		if _, dek, err = ref.OpenToken(key, t); err == nil {
			x.add("data key of a "+what, dek)
			x.add("nonce of a "+what, t.Ciphertext[len(t.Ciphertext)-12:])
			return
		}
	}
	x.c.Violate("format", "a %s cannot be opened: %v", what, err)
}

// primitives uses the library's cryptography directly.
func (x *c08) primitives() {
	r := x.c.Rand("primitives")
	nr := &crypto.NativeRandom{}
	for n := uint(12); n < 300; n++ {
		b := must(nr.GetBytes(n))
		if len(b) != int(n) {
			x.c.Violate("random-length", "GetBytes(%d) returned %d bytes", n, len(b))
		}
		x.add("random bytes", b)
		for i := range b { // the caller may do with it what it likes
			b[i] = 0
		}
	}
	g := crypto.AES256GCM{Random: nr}
	key := kit.Key(r)
	for n := 0; n < 300; n++ {
		ct := must(g.Encrypt(make([]byte, n), nil, key))
		if len(ct) != n+28 {
			x.c.Violate("format", "a ciphertext of %d bytes has length %d", n, len(ct))
			continue
		}
		x.add("nonce of GCM", ct[len(ct)-12:])
	}
	cr := must(crypto.NewAESCryptor(key))
	for n := 0; n < 300; n++ {
		w, ct, err := cr.Encrypt("same", "same")
		must0(err)
		dek, err := ref.Unwrap(key, w)
		must0(err)
		x.add("data key of a cryptor", dek)
		x.add("nonce of a cryptor", ct[len(ct)-12:])
	}
}

func (x *c08) judge(rec *recorder) {
	c := x.c
	at := map[uint64][]int{}
	for i := 0; i+8 <= len(rec.out); i++ {
		w := binary.LittleEndian.Uint64(rec.out[i:])
		at[w] = append(at[w], i)
	}
	type span struct {
		from, to int
		what     string
	}
	var spans []span
	kinds := map[string]int{}
	for _, it := range x.items {
		c.Case(it.b)
		kinds[it.what]++
		want := 32
		switch {
		case strings.HasPrefix(it.what, "nonce"):
			want = 12
		case it.what == "salt":
			want = 8
		case it.what == "random bytes":
			want = len(it.b)
		}
		if len(it.b) != want {
			c.Violate("length", "a %s has %d bytes", it.what, len(it.b))
			continue
		}
		switch {
		case it.what == "salt":
			c.Count("drawn_salt", 1)
		case strings.HasPrefix(it.what, "data"):
			c.Count("drawn_data_key", 1)
		default:
			c.Count("drawn_other", 1)
		}
		found := false
		for _, i := range at[binary.LittleEndian.Uint64(it.b)] {
			if i+len(it.b) <= len(rec.out) && bytes.Equal(rec.out[i:i+len(it.b)], it.b) {
				spans = append(spans, span{i, i + len(it.b), it.what})
				found = true
				break
			}
		}
		if !found {
			c.Violate("not-random", "a %s (%x) was not drawn in full from the system's random source", it.what, it.b)
		}
	}
	sort.Slice(spans, func(i, j int) bool { return spans[i].from < spans[j].from })
	for i := 1; i < len(spans); i++ {
		if spans[i].from < spans[i-1].to {
			c.Violate("reused", "a %s and a %s share random bytes", spans[i-1].what, spans[i].what)
		}
	}
	for i := range x.ones {
		if fixed := i >= 48 && i < 52 || i == 64 || i == 65; !fixed && len(x.uuids) > 200 && (x.ones[i] == 0 || x.zeros[i] == 0) {
			c.Violate("uuid-entropy", "bit %d of the IDs is the same in all %d IDs", i, len(x.uuids))
		}
	}
	for _, kd := range keysOf(kinds) {
		c.SampleEvery(kd, "%d times: %s", kinds[kd], kd)
	}
}
