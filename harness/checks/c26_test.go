package checks

import (
	"bytes"
	"fmt"
	"math/rand/v2"
	"testing"

	"github.com/gofrs/uuid"

	d1 "github.com/cybercryptio/d1-lib/v2"
	"github.com/cybercryptio/d1-lib/v2/crypto"
	"github.com/cybercryptio/d1-lib/v2/data"
	"github.com/cybercryptio/d1-lib/v2/id"
	"github.com/cybercryptio/d1-lib/v2/index"
	"github.com/cybercryptio/d1-lib/v2/key"

	"verif/harness/kit"
)

// C26: keys of wrong length are refused, and each master key guards its own data only.
func TestC26(t *testing.T) {
	kit.Run(t, "C26", "exploration", "An evaluation is one constructor call, or one read of data by an instance some of whose keys differ from those of the instance that wrote it. Non-trivial: distinct (lengths of the keys, failure of the Key Provider), (kind of data, keys that differ, how they differ).", func(c *kit.C) {
		c26Lengths(c)
		c.Parallel("worlds", c.N(4, 60), func(i int) { prep(c, func() { c26World(c, i) }) })
		c.Require("constructors_refused", 500)
		c.Require("reads_refused", 2000)
		c.Require("reads_granted", 1000)
	})
}

// slots are the master keys.
var slots26 = []string{"KEK", "AEK", "TEK", "IEK", "UEK", "GEK", "ID-TEK"}

func slot(k *kit.Keys, i int) *[]byte {
	return []*[]byte{&k.D1.KEK, &k.D1.AEK, &k.D1.TEK, &k.D1.IEK, &k.ID.UEK, &k.ID.GEK, &k.ID.TEK}[i]
}

func copyKeys26(k kit.Keys) kit.Keys {
	for i := range slots26 {
		p := slot(&k, i)
		*p = bytes.Clone(*p)
	}
	return k
}

// c26Lengths calls the constructors with keys of all lengths.
func c26Lengths(c *kit.C) {
	r := c.Rand("lengths")
	var lens []int
	for n := 0; n <= 80; n++ {
		lens = append(lens, n)
	}
	lens = append(lens, 96, 128, 255, 256, 257, 288, 512, 1024, 4096, 8192, 65568)
	try := func(k kit.Keys, fail error, static bool, desc string) {
		ok := func(is ...int) bool {
			for _, i := range is {
				if len(*slot(&k, i)) != 32 {
					return false
				}
			}
			return true
		}
		var kp key.Provider = &kit.KeyProvider{K: k.D1, Err: fail}
		if static {
			s := key.NewStatic(k.D1)
			kp, fail = &s, nil
		}
		verdict := func(what string, want bool, err error, works func() error) {
			c.Case(what, desc, fail != nil, static)
			switch {
			case !want && err == nil:
				c.Violate("accepted:"+what, "%s was created with %s, Key Provider's error: %v", what, desc, fail)
			case !want:
				c.Count("constructors_refused", 1)
			case err != nil:
				c.Violate("refused:"+what, "%s was refused with %s: %v", what, desc, err)
			default:
				if err := works(); err != nil {
					c.Violate("useless:"+what, "%s created with %s does not work: %v", what, desc, err)
				}
				c.Count("constructors_granted", 1)
			}
		}
		c.Guard("constructors", func() {
			st, ids := kit.NewStore(), kit.NewIDs()
			tok := ids.User("u", id.ScopeAll)
			d, err := d1.New(ctx, kp, st, ids)
			verdict("D1", ok(0, 1, 2) && fail == nil, err, func() error {
				oid, err := d.Encrypt(ctx, tok, obj([]byte("p"), []byte("a")))
				if err != nil {
					return err
				}
				o, err := d.Decrypt(ctx, tok, oid)
				if err == nil && !sameObj(o, []byte("p"), []byte("a")) {
					err = fmt.Errorf("Decrypt returned %s", gotObj(o))
				}
				return err
			})
			x, err := index.NewSecureIndex(ctx, kp, st, ids)
			verdict("index", ok(3) && fail == nil, err, func() error {
				if err := x.Add(ctx, tok, "k", "i"); err != nil {
					return err
				}
				l, err := x.Search(ctx, tok, "k")
				if err == nil && !sameStrings(l, []string{"i"}) {
					err = fmt.Errorf("Search returned %q", l)
				}
				return err
			})
			s, err := id.NewStandalone(k.ID, st)
			verdict("Standalone", ok(4, 5, 6), err, func() error {
				_, _, err := s.NewUser(ctx, id.ScopeAll)
				return err
			})
			if !ok(0, 1, 2, 3, 4, 5, 6) {
				return
			}
		})
	}
	base := kit.NewKeys(r)
	for i := range slots26 {
		for _, n := range lens {
			k := copyKeys26(base)
			// The beginning of the key is that of the right one.
			*slot(&k, i) = append(bytes.Clone(*slot(&base, i)), kit.Bytes(r, n+8)...)[:n:n]
			try(k, nil, n%2 == 0, fmt.Sprintf("%s of %d bytes", slots26[i], n))
		}
		k := copyKeys26(base)
		*slot(&k, i) = nil
		try(k, nil, false, slots26[i]+" nil")
	}
	// Keys of several lengths at once, whose sum or any other combination may seem right.
	for n := 0; n < c.N(400, 10000); n++ {
		k := copyKeys26(base)
		desc := "lengths"
		for i := range slots26 {
			l := 32
			if r.IntN(3) == 0 {
				l = kit.Pick(r, []int{0, 16, 24, 31, 33, 48, 64})
			}
			*slot(&k, i) = kit.Bytes(r, l)
			desc += fmt.Sprint(" ", l)
		}
		var fail error
		if r.IntN(4) == 0 {
			fail = kit.Pick(r, failures)
		}
		try(k, fail, false, desc)
	}
	// Key Providers that fail, whatever else they return.
	for i, fail := range failures {
		try(base, fail, false, fmt.Sprint("right lengths ", i))
		try(kit.Keys{ID: base.ID}, fail, false, fmt.Sprint("no keys ", i))
	}
	// The primitives.
	for _, n := range lens {
		b := kit.Bytes(r, n)
		_, e1 := crypto.NewAESCryptor(b)
		_, e2 := crypto.NewKMAC256Tagger(b)
		if (e1 == nil) != (n == 32) || (e2 == nil) != (n == 32) {
			c.Violate("primitive", "key of %d bytes: NewAESCryptor: %v, NewKMAC256Tagger: %v", n, e1, e2)
		}
		c.Case("primitive", n)
	}
}

// world26 is data written under one set of keys.
type world26 struct {
	base          map[string]string
	k             kit.Keys
	ids           *kit.IDs
	tok           string
	oid           uuid.UUID
	groups        map[string]struct{}
	sealed        data.SealedToken
	uid, pw, utok string
	mgr           string // another user's token
	gid           string
	other         string
}

func newWorld26(r *rand.Rand) *world26 {
	w := &world26{k: kit.NewKeys(r), ids: kit.NewIDs()}
	st := kit.NewStore()
	w.tok = w.ids.User("u", id.ScopeAll)
	d, x, s := kit.NewD1(w.k, st, w.ids), kit.NewIndex(w.k, st, w.ids), kit.NewStandalone(w.k, st)
	w.oid, w.groups = mkObject(d, w.tok, "u", "g", "removable")
	w.sealed = must(d.CreateToken(ctx, []byte("contents")))
	for _, i := range []string{"a", "b", "a"} {
		must0(x.Add(ctx, w.tok, "kw", i))
	}
	w.uid, w.pw = must2(s.NewUser(ctx, id.ScopeEncrypt))
	w.utok, _ = must2(s.LoginUser(ctx, w.uid, w.pw))
	w.gid = must(s.NewGroup(ctx, w.utok, id.ScopeDecrypt))
	var pw string
	w.other, pw = must2(s.NewUser(ctx, id.ScopeAll)) // a user without groups
	w.mgr, _ = must2(s.LoginUser(ctx, w.other, pw))
	w.base = st.Snapshot()
	return w
}

// read26 is a read of one kind of data, with the keys that guard it.
type read26 struct {
	name  string
	needs []int
	// run returns what was read. empty tells that there is nothing instead of an error without the keys.
	run   func(w *world26, k kit.Keys, st *kit.Store) (string, error)
	want  func(w *world26) string
	empty bool
	slow  bool
	// A refused call must leave storage as it was.
	writes bool
}

var reads26 = func() []read26 {
	dd := func(w *world26, k kit.Keys, st *kit.Store) *d1.D1 { return kit.NewD1(k, st, w.ids) }
	ss := func(_ *world26, k kit.Keys, st *kit.Store) *id.Standalone { return kit.NewStandalone(k, st) }
	fixed := func(s string) func(*world26) string { return func(*world26) string { return s } }
	none := fixed("")
	var out []read26
	for _, o := range objectOps {
		needs := []int{1}
		if o.name == "Decrypt" {
			needs = []int{0, 1}
		}
		if o.name == "Update" {
			continue // it needs no key of the old content
		}
		out = append(out, read26{name: o.name, needs: needs, writes: true, run: func(w *world26, k kit.Keys, st *kit.Store) (string, error) {
			return o.run(dd(w, k, st), w.tok, w.oid)
		}, want: func(w *world26) string {
			switch o.name {
			case "Decrypt":
				return gotObj(data.Object{Plaintext: []byte(oldPlain), AssociatedData: []byte(oldAD)})
			case "GetAccessGroups":
				return gotSet(w.groups)
			}
			return ""
		}})
	}
	return append(out,
		read26{name: "Update", needs: []int{0, 1}, writes: true, run: func(w *world26, k kit.Keys, st *kit.Store) (string, error) {
			// With another key for contents it is not said what happens.
			if !bytes.Equal(k.D1.KEK, w.k.D1.KEK) && bytes.Equal(k.D1.AEK, w.k.D1.AEK) {
				return "", kit.ErrInjected
			}
			return "", dd(w, k, st).Update(ctx, w.tok, w.oid, obj([]byte("new"), nil))
		}, want: none},
		read26{name: "GetTokenContents", needs: []int{2}, run: func(w *world26, k kit.Keys, st *kit.Store) (string, error) {
			b, err := dd(w, k, st).GetTokenContents(ctx, &w.sealed)
			return string(b), err
		}, want: fixed("contents")},
		read26{name: "Search", needs: []int{3}, empty: true, run: func(w *world26, k kit.Keys, st *kit.Store) (string, error) {
			l, err := kit.NewIndex(k, st, w.ids).Search(ctx, w.tok, "kw")
			return fmt.Sprint(l), err
		}, want: fixed("[a b a]")},
		read26{name: "index Delete", needs: []int{3}, empty: true, run: func(w *world26, k kit.Keys, st *kit.Store) (string, error) {
			if err := kit.NewIndex(k, st, w.ids).Delete(ctx, w.tok, "kw", "a"); err != nil {
				return "", err
			}
			l, err := kit.NewIndex(w.k, st, w.ids).Search(ctx, w.tok, "kw")
			if sameStrings(l, []string{"a", "b", "a"}) { // nothing was deleted
				return "[]", err
			}
			return fmt.Sprint(l), err
		}, want: fixed("[b]")},
		read26{name: "index Add", needs: []int{3}, empty: true, run: func(w *world26, k kit.Keys, st *kit.Store) (string, error) {
			if err := kit.NewIndex(k, st, w.ids).Add(ctx, w.tok, "kw", "c"); err != nil {
				return "", err
			}
			own, err := kit.NewIndex(k, st, w.ids).Search(ctx, w.tok, "kw")
			if err != nil {
				return "", err
			}
			l, err := kit.NewIndex(w.k, st, w.ids).Search(ctx, w.tok, "kw")
			if sameStrings(l, []string{"a", "b", "a"}) && sameStrings(own, []string{"c"}) { // added elsewhere
				return "[]", err
			}
			return fmt.Sprint(l), err
		}, want: fixed("[a b a c]")},
		read26{name: "GetIdentity", needs: []int{4, 5, 6}, run: func(w *world26, k kit.Keys, st *kit.Store) (string, error) {
			i, err := ss(w, k, st).GetIdentity(ctx, w.utok)
			if err != nil {
				return "", err
			}
			return fmt.Sprint(i), nil
		}, want: func(w *world26) string {
			return fmt.Sprint(id.Identity{ID: w.uid, Scopes: id.ScopeEncrypt, Groups: map[string]id.AccessGroup{w.gid: {ID: w.gid, Scopes: id.ScopeDecrypt}}})
		}},
		read26{name: "GetIdentity without groups", needs: []int{4, 6}, run: func(w *world26, k kit.Keys, st *kit.Store) (string, error) {
			i, err := ss(w, k, st).GetIdentity(ctx, w.mgr)
			if err != nil {
				return "", err
			}
			return fmt.Sprint(i), nil
		}, want: func(w *world26) string {
			return fmt.Sprint(id.Identity{ID: w.other, Scopes: id.ScopeAll, Groups: map[string]id.AccessGroup{}})
		}},
		read26{name: "AddUserToGroups", needs: []int{4, 5, 6}, writes: true, run: func(w *world26, k kit.Keys, st *kit.Store) (string, error) {
			return "", ss(w, k, st).AddUserToGroups(ctx, w.utok, w.other, w.gid)
		}, want: none},
		read26{name: "RemoveUserFromGroups", needs: []int{4, 5, 6}, writes: true, run: func(w *world26, k kit.Keys, st *kit.Store) (string, error) {
			return "", ss(w, k, st).RemoveUserFromGroups(ctx, w.utok, w.uid, w.gid)
		}, want: none},
		read26{name: "NewGroup", needs: []int{4, 6}, writes: true, run: func(w *world26, k kit.Keys, st *kit.Store) (string, error) {
			_, err := ss(w, k, st).NewGroup(ctx, w.mgr, id.ScopeDecrypt)
			return "", err
		}, want: none},
		read26{name: "DeleteUser", needs: []int{4, 6}, writes: true, run: func(w *world26, k kit.Keys, st *kit.Store) (string, error) {
			return "", ss(w, k, st).DeleteUser(ctx, w.mgr, w.uid)
		}, want: none},
		read26{name: "LoginUser", needs: []int{4}, slow: true, run: func(w *world26, k kit.Keys, st *kit.Store) (string, error) {
			tok, _, err := ss(w, k, st).LoginUser(ctx, w.other, "wrong")
			if err == nil {
				return "a token for a wrong password: " + tok, nil
			}
			_, _, err = ss(w, k, st).LoginUser(ctx, w.uid, w.pw)
			return "", err
		}, want: none},
		read26{name: "ChangeUserPassword", needs: []int{4}, slow: true, writes: true, run: func(w *world26, k kit.Keys, st *kit.Store) (string, error) {
			_, err := ss(w, k, st).ChangeUserPassword(ctx, w.uid, w.pw)
			return "", err
		}, want: none},
	)
}()

// judge makes one read with other keys.
func (w *world26) judge(c *kit.C, rd *read26, k kit.Keys, how string) {
	st := kit.NewStore()
	st.Restore(w.base)
	granted := true
	var missing []string
	for _, i := range rd.needs {
		if !bytes.Equal(*slot(&k, i), *slot(&w.k, i)) {
			granted = false
			missing = append(missing, slots26[i])
		}
	}
	var got string
	var err error
	if c.Guard(rd.name, func() { got, err = rd.run(w, copyKeys26(k), st) }) {
		return
	}
	c.Case(rd.name, how)
	switch {
	case granted && err != nil:
		c.Violate("refused:"+rd.name, "with %s, %s failed, although all keys that guard the data are right: %v", how, rd.name, err)
	case granted && got != rd.want(w):
		c.Violate("wrong:"+rd.name, "with %s, %s gave %q instead of %q", how, rd.name, got, rd.want(w))
	case granted:
		c.Count("reads_granted", 1)
	case rd.empty:
		if got != "[]" || err != nil {
			c.Violate("found:"+rd.name, "with %s, %s gave %q, %v under another index key", how, rd.name, got, err)
		}
		c.Count("reads_refused", 1)
	case err == nil:
		c.Violate("granted:"+rd.name, "with %s, %s succeeded with %q although %v is wrong", how, rd.name, got, missing)
	case got != "":
		c.Violate("leaked:"+rd.name, "with %s, %s failed with %v but returned %q", how, rd.name, err, got)
	default:
		c.Count("reads_refused", 1)
		// NewGroup may have stored the group before its caller's record turned out unreadable.
		if rd.writes && !kit.SameContents(w.base, st.Snapshot()) {
			c.Violate("changed:"+rd.name, "with %s, %s failed with %v but storage changed: %s", how, rd.name, err, kit.DiffContents(w.base, st.Snapshot()))
		}
	}
}

func c26World(c *kit.C, n int) {
	r := c.Rand("world", n)
	w := newWorld26(r)
	other := kit.NewKeys(r)
	all := func(k kit.Keys, how string, slow bool) {
		for i := range reads26 {
			if rd := &reads26[i]; !rd.slow || slow {
				w.judge(c, rd, k, how)
			}
		}
	}
	// Every set of differing keys.
	for m := 0; m < 1<<len(slots26); m++ {
		k := copyKeys26(w.k)
		how := "other keys:"
		for i := range slots26 {
			if m>>i&1 == 1 {
				*slot(&k, i) = *slot(&other, i)
				how += " " + slots26[i]
			}
		}
		all(k, how, m&(m-1) == 0)
	}
	// One key differs in one bit.
	for i := range slots26 {
		for bit := 0; bit < 256; bit++ {
			k := copyKeys26(w.k)
			(*slot(&k, i))[bit/8] ^= 1 << (bit % 8)
			all(k, fmt.Sprintf("bit %d of %s flipped", bit, slots26[i]), bit%64 == n%64)
		}
		for _, f := range []func(b []byte) []byte{
			func(b []byte) []byte { return make([]byte, 32) },
			func(b []byte) []byte { return append(bytes.Clone(b[16:]), b[:16]...) },
			func(b []byte) []byte { return append(bytes.Clone(b[:16]), b[:16]...) },
			func(b []byte) []byte { return append(bytes.Clone(b[:16]), make([]byte, 16)...) },
			func(b []byte) []byte { return append(bytes.Clone(b[1:]), b[0]) },
			func(b []byte) []byte {
				out := bytes.Clone(b)
				for i := range out {
					out[i] = b[31-i]
				}
				return out
			},
			func(b []byte) []byte { return append(bytes.Clone(b[:31]), 0) },
		} {
			k := copyKeys26(w.k)
			*slot(&k, i) = f(*slot(&k, i))
			all(k, fmt.Sprintf("%s %x instead of %x", slots26[i], *slot(&k, i), *slot(&w.k, i)), false)
		}
	}
	// Keys in the wrong places.
	for i := range slots26 {
		for j := range slots26 {
			if i == j {
				continue
			}
			k := copyKeys26(w.k)
			*slot(&k, i) = *slot(&w.k, j)
			all(k, slots26[i]+" = "+slots26[j], false)
			*slot(&k, j) = *slot(&w.k, i)
			all(k, slots26[i]+" and "+slots26[j]+" exchanged", false)
		}
	}
	// Several instances with different keys share one storage.
	c26Shared(c, r)
}

// c26Shared lets instances with partly different keys work on one storage, each on its own data.
func c26Shared(c *kit.C, r *rand.Rand) {
	st, ids := kit.NewStore(), kit.NewIDs()
	tok := ids.User("u", id.ScopeAll)
	base := kit.NewKeys(r)
	type inst struct {
		k    kit.Keys
		d    *d1.D1
		x    *index.SecureIndex
		oids []uuid.UUID
		want []string
	}
	var is []*inst
	for n := 0; n < 4; n++ {
		k := copyKeys26(base)
		if n > 0 {
			k.D1.IEK = kit.Key(r)
			*slot(&k, r.IntN(2)) = kit.Key(r)
		}
		is = append(is, &inst{k: k, d: kit.NewD1(k, st, ids), x: kit.NewIndex(k, st, ids)})
	}
	for s := 0; s < 60; s++ {
		i := kit.Pick(r, is)
		switch r.IntN(4) {
		case 0:
			i.oids = append(i.oids, must(i.d.Encrypt(ctx, tok, obj([]byte(fmt.Sprint("object ", s)), nil))))
		case 1, 2:
			idt := fmt.Sprint("i", r.IntN(5))
			must0(i.x.Add(ctx, tok, "kw", idt))
			i.want = append(i.want, idt)
		default:
			idt := fmt.Sprint("i", r.IntN(5))
			must0(i.x.Delete(ctx, tok, "kw", idt))
			m := words{"kw": i.want}
			m.del("kw", idt)
			i.want = m["kw"]
		}
		for a, i := range is {
			if l, err := i.x.Search(ctx, tok, "kw"); err != nil || !sameStrings(l, i.want) && len(l)+len(i.want) > 0 {
				c.Violate("shared-index", "instance %d, whose index key differs from that of the others, finds %q, %v instead of %q", a, l, err, i.want)
			}
			c.Eval(1)
		}
	}
	for a, i := range is {
		for b, j := range is {
			same := bytes.Equal(i.k.D1.KEK, j.k.D1.KEK) && bytes.Equal(i.k.D1.AEK, j.k.D1.AEK)
			for _, oid := range j.oids {
				o, err := i.d.Decrypt(ctx, tok, oid)
				if (err == nil) != same {
					c.Violate("shared-object", "instance %d decrypting an object of instance %d: %s, %v", a, b, gotObj(o), err)
				}
				c.Case("shared", a, b, oid)
			}
		}
	}
}
