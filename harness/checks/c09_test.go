package checks

import (
	"bytes"
	_ "embed"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/rand/v2"
	"testing"
	"time"

	"github.com/gofrs/uuid"

	d1 "github.com/cybercryptio/d1-lib/v2"
	"github.com/cybercryptio/d1-lib/v2/crypto"
	"github.com/cybercryptio/d1-lib/v2/data"
	"github.com/cybercryptio/d1-lib/v2/id"
	"github.com/cybercryptio/d1-lib/v2/index"
	"github.com/cybercryptio/d1-lib/v2/io"

	"verif/harness/kit"
	"verif/harness/ref"
)

// C09: stored records follow the documented format.

//go:embed testdata/golden.json
var goldenJSON []byte

func TestC09(t *testing.T) {
	kit.Run(t, "C09", "exploration", "An evaluation is one record or token opened by the reference with its one documented key (or by the library, if the reference or the base version of the library wrote it) and compared with the contents. Non-trivial: distinct (direction, kind, contents).", func(c *kit.C) {
		c.Guard("golden", func() { prep(c, func() { c09Golden(c) }) })
		c.Parallel("written by the library", c.N(480, 6000), func(i int) { prep(c, func() { c09Library(c, i) }) })
		c.Parallel("written by the reference", c.N(480, 6000), func(i int) { prep(c, func() { c09Reference(c, i) }) })
		c.Parallel("types", c.N(180, 3000), func(i int) { prep(c, func() { c09Types(c, i) }) })
		for _, k := range []string{"object", "access", "node", "user", "group", "token"} {
			c.Require("reference_reads_"+k, 100)
			c.Require("library_reads_"+k, 100)
			c.Require("library_rejects_"+k, 100)
		}
	})
}

func (x *c09World) random(n int) []byte { return kit.Bytes(x.r, n) }

type c09World struct {
	c  *kit.C
	r  *rand.Rand
	k  kit.Keys
	st *kit.Store
}

func (x *c09World) read(dir, kind string, parts ...any) {
	x.c.Case(append([]any{dir, kind}, parts...)...)
	x.c.Count(dir+"_"+kind, 1)
}

// c09Contents also yields strings that JSON has to escape.
func c09Names(r *rand.Rand, n int) []string {
	m := map[string]bool{}
	for len(m) < n {
		m[kit.String(r)] = true
	}
	return keysOf(m)
}

// c09Library lets the library write and the reference read.
func c09Library(c *kit.C, i int) {
	r := c.Rand("library", i)
	x := &c09World{c, r, kit.NewKeys(r), kit.NewStore()}
	ids := kit.NewIDs()
	tok := ids.User("owner", id.ScopeAll)
	d := kit.NewD1(x.k, x.st, ids)
	ix := kit.NewIndex(x.k, x.st, ids)
	sa := kit.NewStandalone(x.k, x.st)
	bad := func(kind string, err error, what string, args ...any) {
		c.Violate("reference-read:"+kind, "%s: %v", fmt.Sprintf(what, args...), err)
	}
	records := 0

	for n := 0; n < 3; n++ {
		p, ad := kit.Content(r, 40), kit.Content(r, 40)
		groups := c09Names(r, r.IntN(4))
		oid := must(d.Encrypt(ctx, tok, obj(kit.Content(r, 0), kit.Content(r, 0)), groups...))
		want := set(append(groups, "owner")...)
		more := c09Names(r, r.IntN(3))
		must0(d.AddGroupsToAccess(ctx, tok, oid, more...))
		for _, g := range more {
			want[g] = struct{}{}
		}
		must0(d.Update(ctx, tok, oid, obj(p, ad)))
		records += 2

		var orec ref.ObjectRecord
		var arec ref.AccessRecord
		raw, _ := x.st.Raw(oid[:], io.DataTypeSealedObject)
		if err := ref.Parse(raw, &orec); err != nil {
			bad("object", err, "record %q", kit.Short(raw))
			continue
		}
		raw, _ = x.st.Raw(oid[:], io.DataTypeSealedAccess)
		if err := ref.Parse(raw, &arec); err != nil {
			bad("access", err, "record %q", kit.Short(raw))
			continue
		}
		a, _, err := ref.OpenAccess(x.k.D1.AEK, arec, oid)
		if err != nil || !sameSet(a.Groups, want) || arec.OID != ref.UUID(oid) {
			bad("access", err, "access list %q of %s, expected %q", keysOf(a.Groups), oid, keysOf(want))
			continue
		}
		x.read("reference_reads", "access", keysOf(want))
		got, _, err := ref.OpenObject(x.k.D1.KEK, a.WrappedDEK, orec, oid)
		if err != nil || !bytes.Equal(got, p) || !bytes.Equal(orec.AssociatedData, ad) || orec.OID != ref.UUID(oid) {
			bad("object", err, "object %s: %s, expected %s", oid, showObj(got, orec.AssociatedData), showObj(p, ad))
			continue
		}
		x.read("reference_reads", "object", p, ad)

		contents := kit.Content(r, 0)
		before := time.Now()
		tk := must(d.CreateToken(ctx, contents))
		after := time.Now()
		c09ReadToken(x, "token", x.k.D1.TEK, must(tk.String()), contents, before, after)
	}

	for _, kw := range c09Names(r, 2) {
		var want []string
		k1, k2 := ref.IndexKeys(x.k.D1.IEK, kw)
		n := r.IntN(6)
		if i%40 == 0 {
			n = 135
		}
		for ; n > 0; n-- {
			s := kit.String(r)
			must0(ix.Add(ctx, tok, kw, s))
			want = append(want, s)
		}
		counter := uint64(0)
		for j, w := range want {
			label := ref.Label(k1, counter)
			raw, ok := x.st.Raw(label, io.DataTypeSealedNode)
			var rec ref.NodeRecord
			err := fmt.Errorf("no record under label %x", label)
			if ok {
				err = ref.Parse(raw, &rec)
			}
			var node ref.Node
			if err == nil {
				node, _, err = ref.OpenNode(k2, rec, label)
			}
			if err != nil || node.Identifier != w || node.NextCounter != counter+1 {
				bad("node", err, "node %d of keyword %q is %+v, expected %q", j, kw, node, w)
				break
			}
			x.read("reference_reads", "node", kw, w, j)
			counter = node.NextCounter
			records++
		}
	}

	uid, pwd := must2(sa.NewUser(ctx, id.ScopeIndex, id.Scope(i)))
	before := time.Now()
	ut, _, err := sa.LoginUser(ctx, uid, pwd)
	must0(err)
	c09ReadToken(x, "identity token", x.k.ID.TEK, ut, []byte(uid), before, time.Now())
	groups := map[string]struct{}{}
	scopes := map[string]id.Scope{}
	for n := r.IntN(4); n > 0; n-- {
		s := id.Scope(r.Uint64() >> r.IntN(64))
		gid := must(sa.NewGroup(ctx, ut, s))
		groups[gid], scopes[gid] = struct{}{}, s
		records++
	}
	pwd = must(sa.ChangeUserPassword(ctx, uid, pwd))
	records++
	raw, _ := x.st.Raw([]byte(uid), id.DataTypeSealedUser)
	var urec ref.UserRecord
	var u ref.User
	if err = ref.Parse(raw, &urec); err == nil {
		u, _, err = ref.OpenUser(x.k.ID.UEK, urec, uid)
	}
	if err != nil || u.Scopes != uint64(id.ScopeIndex|id.Scope(i)) || !sameSet(u.Groups, groups) || len(u.SaltAndHash) != 40 ||
		!bytes.Equal(ref.PasswordHash(pwd, u.SaltAndHash[:8]), u.SaltAndHash[8:]) || urec.UID != uid {
		bad("user", err, "user %+v with password %q, expected groups %q", u, pwd, keysOf(groups))
	}
	x.read("reference_reads", "user", uid)
	for gid, s := range scopes {
		raw, _ := x.st.Raw([]byte(gid), id.DataTypeSealedGroup)
		var grec ref.GroupRecord
		var g ref.Group
		if err = ref.Parse(raw, &grec); err == nil {
			g, _, err = ref.OpenGroup(x.k.ID.GEK, grec, gid)
		}
		if err != nil || g.Scopes != uint64(s) || grec.GID != gid {
			bad("group", err, "group %+v, expected scopes %x", g, s)
		}
		x.read("reference_reads", "group", s)
	}
	if n := x.st.Len(); n != records {
		c.Violate("other-records", "storage holds %d records, expected %d", n, records)
	}
}

func c09ReadToken(x *c09World, kind string, key []byte, s string, want []byte, before, after time.Time) {
	t, err := ref.TokenFromString(s)
	var got []byte
	if err == nil {
		got, _, err = ref.OpenToken(key, t)
	}
	if err != nil || !bytes.Equal(got, want) {
		x.c.Violate("reference-read:"+kind, "%s %s: %q, %v; expected %q", kind, s, got, err, want)
		return
	}
	x.read("reference_reads", "token", want)
}

// c09Reference lets the reference write and the library read.
func c09Reference(c *kit.C, i int) {
	r := c.Rand("reference", i)
	x := &c09World{c, r, kit.NewKeys(r), kit.NewStore()}
	rnd := ref.Random(x.random)
	ids := kit.NewIDs()
	tok := ids.User("owner", id.ScopeAll)
	d := kit.NewD1(x.k, x.st, ids)
	ix := kit.NewIndex(x.k, x.st, ids)
	sa := kit.NewStandalone(x.k, x.st)

	// Objects, and ones with the authenticated data composed differently.
	for n := 0; n < 4; n++ {
		p, ad := kit.Content(r, 40), kit.Content(r, 40)
		oid := newUUID(r)
		w, orec := ref.SealObject(x.k.D1.KEK, rnd, oid, p, ad)
		groups := set(append(c09Names(r, r.IntN(4)), "owner")...)
		write := func(orec ref.ObjectRecord, arec ref.AccessRecord) {
			x.st.Set(oid[:], io.DataTypeSealedObject, ref.Bytes(orec))
			x.st.Set(oid[:], io.DataTypeSealedAccess, ref.Bytes(arec))
		}
		arec := ref.SealAccess(x.k.D1.AEK, rnd, oid, ref.Access{Groups: groups, WrappedDEK: w})
		write(orec, arec)
		got, err := d.Decrypt(ctx, tok, oid)
		if err != nil || !sameObj(got, p, ad) {
			c.Violate("library-read:object", "Decrypt of a reference object with %s returned %s, %v", showObj(p, ad), showObj(got.Plaintext, got.AssociatedData), err)
		}
		x.read("library_reads", "object", p, ad)
		g, err := d.GetAccessGroups(ctx, tok, oid)
		if err != nil || !sameSet(g, groups) {
			c.Violate("library-read:access", "GetAccessGroups of a reference access list with %q returned %q, %v", keysOf(groups), keysOf(g), err)
		}
		x.read("library_reads", "access", keysOf(groups))

		other := newUUID(r)
		b64 := func(parts ...[]byte) []byte { return bytes.Join(parts, nil) }
		for j, aad := range []any{ad, oid[:], b64(ad, oid[:]), b64(other[:], ad), b64(oid[:], ad, []byte{0}), b64(oid[:], other[:], ad), string(b64(oid[:], ad)), oid.String(), nil, []byte{}, json.RawMessage(`""`)} {
			if b, ok := aad.([]byte); ok && bytes.Equal(b, b64(oid[:], ad)) {
				continue
			}
			w2, ct := ref.Seal(x.k.D1.KEK, rnd(32), rnd(12), append([]byte{}, p...), aad)
			write(ref.ObjectRecord{Ciphertext: ct, AssociatedData: ad, OID: ref.UUID(oid)}, ref.SealAccess(x.k.D1.AEK, rnd, oid, ref.Access{Groups: groups, WrappedDEK: w2}))
			if got, err := d.Decrypt(ctx, tok, oid); err == nil {
				c.Violate("aad:object", "Decrypt accepted an object with other authenticated data (variant %d): %s", j, showObj(got.Plaintext, got.AssociatedData))
			}
			x.read("library_rejects", "object", j, p, ad)
		}
		for j, aad := range []any{other[:], oid.String(), nil, []byte{}, b64(oid[:], ad, []byte{1}), oid[:15], string(oid[:])} {
			aw, ct := ref.Seal(x.k.D1.AEK, rnd(32), rnd(12), ref.Access{Groups: groups, WrappedDEK: w}, aad)
			write(orec, ref.AccessRecord{OID: ref.UUID(oid), Ciphertext: ct, WrappedKey: aw})
			if g, err := d.GetAccessGroups(ctx, tok, oid); err == nil {
				c.Violate("aad:access", "GetAccessGroups accepted an access list with other authenticated data (variant %d): %q", j, keysOf(g))
			}
			x.read("library_rejects", "access", j, oid)
		}
	}

	// Tokens, in any time zone.
	for n := 0; n < 4; n++ {
		contents := kit.Content(r, 0)
		zone := time.FixedZone("", (r.IntN(28*60)-14*60)*60)
		exp := time.Now().Add(time.Hour + time.Duration(r.Int64N(int64(1000*time.Hour)))).In(zone)
		if r.IntN(2) == 0 {
			exp = exp.Truncate(kit.Pick(r, []time.Duration{time.Second, time.Millisecond, time.Hour}))
		}
		contents = append([]byte{}, contents...)
		s := ref.SealToken(x.k.D1.TEK, rnd, exp, contents).String()
		t, err := data.TokenFromString(s)
		var got []byte
		if err == nil {
			got, err = d.GetTokenContents(ctx, &t)
		}
		if err != nil || !bytes.Equal(got, contents) {
			c.Violate("library-read:token", "token %s with %q gave %q, %v", s, contents, got, err)
		}
		x.read("library_reads", "token", contents)
		for j, aad := range []any{nil, []byte{}, exp.Add(1), exp.Add(time.Second), exp.Unix(), exp.String(), contents} {
			w, ct := ref.Seal(x.k.D1.TEK, rnd(32), rnd(12), contents, aad)
			t := data.SealedToken{ExpiryTime: exp, Ciphertext: ct, WrappedKey: w}
			if got, err := d.GetTokenContents(ctx, &t); err == nil {
				c.Violate("aad:token", "a token with other authenticated data (variant %d) gave %q", j, got)
			}
			x.read("library_rejects", "token", j, contents)
		}
	}

	// An index, with chains as deletions leave them.
	for _, kw := range c09Names(r, 3) {
		k1, k2 := ref.IndexKeys(x.k.D1.IEK, kw)
		var want []string
		n := r.IntN(8)
		if i%40 == 0 {
			n = 150
		}
		if i%40 == 1 {
			n = 2
		}
		counter := uint64(0)
		var last []byte
		var lastNode ref.Node
		for ; n > 0; n-- {
			next := counter + 1 + uint64(r.IntN(3))
			if i%40 == 1 {
				next += 1 << (7 * (1 + r.IntN(6)))
			}
			label := ref.Label(k1, counter)
			node := ref.Node{Identifier: kit.String(r), NextCounter: next}
			x.st.Set(label, io.DataTypeSealedNode, ref.Bytes(ref.SealNode(k2, rnd, label, node)))
			want = append(want, node.Identifier)
			counter, last, lastNode = next, label, node
		}
		got, err := ix.Search(ctx, tok, kw)
		if err != nil || !sameStrings(got, want) {
			c.Violate("library-read:node", "Search of a reference index with %q returned %q, %v", want, got, err)
		}
		x.read("library_reads", "node", kw, want)
		if last == nil {
			continue
		}
		for j, aad := range []any{nil, []byte{}, kw, ref.Label(k1, counter), ref.Label(k1, counter+1), string(last), hex.EncodeToString(last), lastNode.Identifier} {
			w, ct := ref.Seal(k2, rnd(32), rnd(12), lastNode, aad)
			x.st.Set(last, io.DataTypeSealedNode, ref.Bytes(ref.NodeRecord{Ciphertext: ct, WrappedKey: w}))
			if got, err := ix.Search(ctx, tok, kw); err == nil {
				c.Violate("aad:node", "Search accepted a node with other authenticated data (variant %d): %q", j, got)
			}
			x.read("library_rejects", "node", j, lastNode.Identifier)
		}
		for j, key := range [][]byte{k1, x.k.D1.IEK, ref.KMAC(ref.Rate256, x.k.D1.IEK, []byte(kw), []byte("ID"), 32), ref.KMAC(ref.Rate128, x.k.D1.IEK, []byte(kw), []byte("id"), 32)} {
			x.st.Set(last, io.DataTypeSealedNode, ref.Bytes(ref.SealNode(key, rnd, last, lastNode)))
			if got, err := ix.Search(ctx, tok, kw); err == nil {
				c.Violate("key:node", "Search accepted a node under another key (variant %d): %q", j, got)
			}
			x.read("library_rejects", "node", "key", j, lastNode.Identifier)
		}
		x.st.Remove(last, io.DataTypeSealedNode)
	}

	// Users and groups.
	uid := newUUID(r).String()
	salt, pwd := rnd(8), kit.Alnum(r, 43)
	groups := map[string]id.Scope{}
	gset := map[string]struct{}{}
	for n := r.IntN(4); n > 0; n-- {
		gid := newUUID(r).String()
		s := id.Scope(r.Uint64() >> r.IntN(64))
		groups[gid], gset[gid] = s, struct{}{}
		x.st.Set([]byte(gid), id.DataTypeSealedGroup, ref.Bytes(ref.SealGroup(x.k.ID.GEK, rnd, gid, ref.Group{Scopes: uint64(s)})))
	}
	u := ref.User{SaltAndHash: append(salt, ref.PasswordHash(pwd, salt)...), Scopes: r.Uint64() >> r.IntN(64), Groups: gset}
	put := func(rec ref.UserRecord) { x.st.Set([]byte(uid), id.DataTypeSealedUser, ref.Bytes(rec)) }
	put(ref.SealUser(x.k.ID.UEK, rnd, uid, u))
	t := ref.SealToken(x.k.ID.TEK, rnd, time.Now().Add(time.Hour), []byte(uid)).String()
	who, err := sa.GetIdentity(ctx, t)
	if err != nil || who.ID != uid || uint64(who.Scopes) != u.Scopes || !sameGroups(who.Groups, groups) {
		c.Violate("library-read:user", "identity of a reference user %+v with groups %+v: %+v, %v", u, groups, who, err)
	}
	x.read("library_reads", "user", uid)
	for gid := range groups {
		x.read("library_reads", "group", gid)
	}
	if i%4 == 0 {
		lt, _, err := sa.LoginUser(ctx, uid, pwd)
		if err == nil {
			who, err = sa.GetIdentity(ctx, lt)
		}
		if err != nil || who.ID != uid {
			c.Violate("library-read:user", "login of a reference user: %+v, %v", who, err)
		}
	}
	for j, aad := range []any{nil, "", []byte(uid), "users/" + uid, newUUID(r).String(), uid + " "} {
		w, ct := ref.Seal(x.k.ID.UEK, rnd(32), rnd(12), u, aad)
		put(ref.UserRecord{UID: uid, Ciphertext: ct, WrappedKey: w})
		if who, err := sa.GetIdentity(ctx, t); err == nil {
			c.Violate("aad:user", "a user with other authenticated data (variant %d) was accepted: %+v", j, who)
		}
		x.read("library_rejects", "user", j, uid)
	}
	put(ref.SealUser(x.k.ID.UEK, rnd, uid, u))
	for gid, g := range groups {
		for j, aad := range []any{nil, "", []byte(gid), uid, newUUID(r).String(), gid + " "} {
			w, ct := ref.Seal(x.k.ID.GEK, rnd(32), rnd(12), ref.Group{Scopes: uint64(g)}, aad)
			x.st.Set([]byte(gid), id.DataTypeSealedGroup, ref.Bytes(ref.GroupRecord{GID: gid, Ciphertext: ct, WrappedKey: w}))
			if who, err := sa.GetIdentity(ctx, t); err == nil {
				c.Violate("aad:group", "a group with other authenticated data (variant %d) was accepted: %+v", j, who)
			}
			x.read("library_rejects", "group", j, gid)
		}
		break
	}
}

// c09Types seals and unseals the public data types under arbitrary keys.
func c09Types(c *kit.C, i int) {
	r := c.Rand("types", i)
	x := &c09World{c: c, r: r}
	rnd := ref.Random(x.random)
	key := kit.Key(r)
	cr := must(crypto.NewAESCryptor(key))
	bad := func(kind string, err error, format string, args ...any) {
		if err != nil {
			c.Violate("type:"+kind, "%s: %v", fmt.Sprintf(format, args...), err)
		} else {
			c.Violate("type:"+kind, format, args...)
		}
	}
	for n := 0; n < 20; n++ {
		oid := newUUID(r)
		p, ad := kit.Content(r, 100), kit.Content(r, 100)
		w, so, err := obj(p, ad).Seal(oid, &cr)
		must0(err)
		got, _, err := ref.OpenObject(key, w, ref.ObjectRecord{Ciphertext: so.Ciphertext, AssociatedData: so.AssociatedData, OID: ref.UUID(so.OID)}, oid)
		if err != nil || !bytes.Equal(got, p) || !bytes.Equal(so.AssociatedData, ad) || so.OID != oid {
			bad("object", err, "sealed object of %s", showObj(p, ad))
		}
		x.read("reference_reads", "object", p, ad)
		w, orec := ref.SealObject(key, rnd, oid, p, ad)
		o, err := (&data.SealedObject{Ciphertext: orec.Ciphertext, AssociatedData: orec.AssociatedData, OID: oid}).Unseal(w, &cr)
		if err != nil || !sameObj(o, p, ad) {
			bad("object", err, "unsealed object of %s: %s", showObj(p, ad), showObj(o.Plaintext, o.AssociatedData))
		}
		x.read("library_reads", "object", p, ad)

		a := data.NewAccess(kit.Content(r, 0))
		names := c09Names(r, r.IntN(5))
		a.AddGroups(names...)
		sacc := must(a.Seal(oid, &cr))
		ra, _, err := ref.OpenAccess(key, ref.AccessRecord{OID: ref.UUID(sacc.OID), Ciphertext: sacc.Ciphertext, WrappedKey: sacc.WrappedKey}, oid)
		if err != nil || !sameSet(ra.Groups, set(names...)) || !bytes.Equal(ra.WrappedDEK, a.WrappedDEK) || sacc.OID != oid {
			bad("access", err, "sealed access list %q: %+v", names, ra)
		}
		arec := ref.SealAccess(key, rnd, oid, ref.Access{Groups: set(names...), WrappedDEK: a.WrappedDEK})
		la, err := (&data.SealedAccess{OID: oid, Ciphertext: arec.Ciphertext, WrappedKey: arec.WrappedKey}).Unseal(&cr)
		if err != nil || !sameSet(la.GetGroups(), set(names...)) || !bytes.Equal(la.WrappedDEK, a.WrappedDEK) {
			bad("access", err, "unsealed access list %q: %+v", names, la)
		}
		x.read("library_reads", "access", names)

		tg := must(crypto.NewKMAC256Tagger(key))
		counter := r.Uint64() >> r.IntN(64)
		label := must((&data.Node{NextCounter: counter}).NextLabel(&tg))
		if want := ref.Label(key, counter); !bytes.Equal(label, want) {
			bad("node", nil, "the label for counter %d is %x, expected %x", counter, label, want)
		}
		node := data.Node{Identifier: kit.String(r), NextCounter: r.Uint64() >> r.IntN(64)}
		sn := must(node.Seal(label, &cr))
		rn, _, err := ref.OpenNode(key, ref.NodeRecord(sn), label)
		if err != nil || rn != ref.Node(node) {
			bad("node", err, "sealed node %+v: %+v", node, rn)
		}
		nrec := data.SealedNode(ref.SealNode(key, rnd, label, ref.Node(node)))
		if ln, err := nrec.Unseal(label, &cr); err != nil || ln != node {
			bad("node", err, "unsealed node %+v: %+v", node, ln)
		}
		x.read("library_reads", "node", node)
	}
}

// c09Golden reads what the base version of the library wrote.
func c09Golden(c *kit.C) {
	var g struct {
		Keys    map[string]string
		Records []struct {
			ID   []byte
			Type int
			Data []byte
		}
		Objects []struct {
			OID           string
			Plaintext, AD []byte
			Groups        []string
		}
		Words map[string][]string
		Users []struct {
			UID, Password, Token string
			Scopes               uint64
			Groups               []string
		}
		Groups map[string]uint64
		Tokens []struct {
			Token    string
			Contents []byte
		}
	}
	if err := json.Unmarshal(goldenJSON, &g); err != nil {
		panic(err)
	}
	k := func(n string) []byte {
		b, err := hex.DecodeString(g.Keys[n])
		if err != nil || len(b) != 32 {
			panic("bad golden key " + n)
		}
		return b
	}
	var keys kit.Keys
	keys.D1.KEK, keys.D1.AEK, keys.D1.TEK, keys.D1.IEK = k("KEK"), k("AEK"), k("TEK"), k("IEK")
	keys.ID.UEK, keys.ID.GEK, keys.ID.TEK = k("UEK"), k("GEK"), k("ITEK")
	for _, pr := range providers {
		st := pr.make()
		for _, rec := range g.Records {
			must0(st.Put(ctx, rec.ID, io.DataType(rec.Type), rec.Data))
		}
		sa := kit.NewStandalone(keys, st)
		var d *d1.D1 = kit.NewD1(keys, st, sa)
		var ix *index.SecureIndex = kit.NewIndex(keys, st, sa)
		for _, u := range g.Users {
			want := map[string]id.Scope{}
			for _, gid := range u.Groups {
				want[gid] = id.Scope(g.Groups[gid])
			}
			who, err := sa.GetIdentity(ctx, u.Token)
			if err != nil || who.ID != u.UID || uint64(who.Scopes) != u.Scopes || !sameGroups(who.Groups, want) {
				c.Violate("golden:user", "%s: identity of %s: %+v, %v", pr.name, u.UID, who, err)
			}
			if _, _, err := sa.LoginUser(ctx, u.UID, u.Password); err != nil {
				c.Violate("golden:login", "%s: login of %s: %v", pr.name, u.UID, err)
			}
			c.Case("golden", pr.name, u.UID)
		}
		tok := g.Users[0].Token
		for i, o := range g.Objects {
			oid, err := uuid.FromString(o.OID)
			must0(err)
			got, err := d.Decrypt(ctx, tok, oid)
			if err != nil || !sameObj(got, o.Plaintext, o.AD) {
				c.Violate("golden:object", "%s: object %d: %s, %v", pr.name, i, showObj(got.Plaintext, got.AssociatedData), err)
			}
			groups, err := d.GetAccessGroups(ctx, tok, oid)
			if err != nil || !sameSet(groups, set(o.Groups...)) {
				c.Violate("golden:access", "%s: access list %d: %q, %v; expected %q", pr.name, i, keysOf(groups), err, o.Groups)
			}
			// It can be worked with.
			must0(d.AddGroupsToAccess(ctx, tok, oid, "more"))
			must0(d.Update(ctx, tok, oid, obj([]byte("new"), nil)))
			if got, err := d.Decrypt(ctx, tok, oid); err != nil || !sameObj(got, []byte("new"), nil) {
				c.Violate("golden:object", "%s: updated object %d: %s, %v", pr.name, i, showObj(got.Plaintext, got.AssociatedData), err)
			}
			c.Case("golden", pr.name, o.OID)
		}
		for i, t := range g.Tokens {
			tk, err := data.TokenFromString(t.Token)
			var got []byte
			if err == nil {
				got, err = d.GetTokenContents(ctx, &tk)
			}
			if err != nil || !bytes.Equal(got, t.Contents) {
				c.Violate("golden:token", "%s: token %d: %q, %v", pr.name, i, got, err)
			}
			c.Case("golden", pr.name, "token", i)
		}
		for kw, want := range g.Words {
			got, err := ix.Search(ctx, tok, kw)
			if err != nil || !sameStrings(got, want) {
				c.Violate("golden:index", "%s: Search(%q): %q, %v; expected %q", pr.name, kw, got, err, want)
			}
			must0(ix.Add(ctx, tok, kw, "another"))
			if got, err := ix.Search(ctx, tok, kw); err != nil || !sameStrings(got, append(append([]string{}, want...), "another")) {
				c.Violate("golden:index", "%s: Search(%q) after an addition: %q, %v", pr.name, kw, got, err)
			}
			c.Case("golden", pr.name, "word", kw)
		}
	}
}
