package checks

import (
	"bytes"
	"encoding/json"
	"fmt"
	"testing"

	"github.com/gofrs/uuid"

	d1 "github.com/cybercryptio/d1-lib/v2"
	"github.com/cybercryptio/d1-lib/v2/crypto"
	"github.com/cybercryptio/d1-lib/v2/data"
	"github.com/cybercryptio/d1-lib/v2/id"
	"github.com/cybercryptio/d1-lib/v2/io"

	"verif/harness/kit"
)

// C05: modified, swapped or mixed stored objects and access lists are rejected.
func TestC05(t *testing.T) {
	kit.Run(t, "C05", "exploration", "An evaluation is one call over manipulated storage, judged against all genuine versions of the object. Non-trivial: distinct (operation, caller, kind and place of the manipulation, resulting record).", func(c *kit.C) {
		n := c.N(24, 240)
		c.Parallel("world", n, func(i int) { prep(c, func() { c05World(c, i) }) })
		c05Sealed(c)
		c.Require("mixes", 2000)
		c.Require("rejected", 10000)
		c.Require("genuine_accepted", 100)
	})
}

type c05Obj struct {
	o, gen int // object, generation of its key
	p, ad  []byte
	raw    []byte
}

type c05Acc struct {
	o, gen int
	list   map[string]struct{}
	raw    []byte
}

type c05Env struct {
	c     *kit.C
	k     kit.Keys
	ids   *kit.IDs
	st    *kit.Store
	tap   *kit.Tap
	warm  *d1.D1 // has worked with all the genuine records
	oids  []uuid.UUID
	objs  []c05Obj
	accs  []c05Acc
	users []string
	toks  map[string]string
}

func c05World(c *kit.C, i int) {
	r := c.Rand("world", i)
	e := &c05Env{c: c, k: kit.NewKeys(r), ids: kit.NewIDs(), st: kit.NewStore(), toks: map[string]string{}}
	e.tap = kit.NewTap(e.st)
	e.warm = kit.NewD1(e.k, e.tap, e.ids)
	e.users = []string{"owner", "mallory", "member", "former", "stranger"}
	for _, u := range e.users {
		e.toks[u] = e.ids.User(u, id.ScopeAll)
	}
	gen := 0
	snap := func(o int, p, ad []byte, list map[string]struct{}) {
		raw, ok := e.st.Raw(e.oids[o].Bytes(), io.DataTypeSealedObject)
		acc, ok2 := e.st.Raw(e.oids[o].Bytes(), io.DataTypeSealedAccess)
		if !ok || !ok2 {
			panic(libraryError{"the records of an object are not where they are documented to be"})
		}
		if len(e.objs) == 0 || !bytes.Equal(e.objs[len(e.objs)-1].raw, raw) {
			e.objs = append(e.objs, c05Obj{o, gen, p, ad, raw})
		}
		e.accs = append(e.accs, c05Acc{o, gen, copySet(list), acc})
	}
	content := func() []byte {
		switch r.IntN(4) {
		case 0:
			return nil
		case 1:
			return []byte("same")
		default:
			return kit.Bytes(r, r.IntN(40))
		}
	}
	// Three objects of the owner and one of mallory, each with several versions.
	for o := 0; o < 4; o++ {
		owner := "owner"
		if o == 3 {
			owner = "mallory"
		}
		tok := e.toks[owner]
		p, ad := content(), content()
		gen++
		e.oids = append(e.oids, must(e.warm.Encrypt(ctx, tok, obj(p, ad), "former")))
		list := set(owner, "former")
		snap(o, p, ad, list)
		for v := 0; v < 4; v++ {
			switch (v + r.IntN(2)) % 4 {
			case 0:
				must0(e.warm.AddGroupsToAccess(ctx, tok, e.oids[o], "member"))
				list["member"] = struct{}{}
			case 2:
				must0(e.warm.RemoveGroupsFromAccess(ctx, tok, e.oids[o], "former"))
				delete(list, "former")
			default:
				if r.IntN(3) > 0 { // otherwise written again without a change
					p, ad = content(), content()
				}
				gen++
				must0(e.warm.Update(ctx, tok, e.oids[o], obj(p, ad)))
			}
			snap(o, p, ad, list)
		}
		must(e.warm.Decrypt(ctx, tok, e.oids[o]))
	}
	// Other records in the same storage, for swapping.
	ix := kit.NewIndex(e.k, e.st, e.ids)
	must0(ix.Add(ctx, e.toks["owner"], "kw", "id"))
	sa := kit.NewStandalone(e.k, e.st)
	must2(sa.NewUser(ctx, id.ScopeAll))

	base := e.st.Snapshot()
	// All mixes of object and access records, at each object.
	for t := range e.oids {
		for oi, o := range e.objs {
			for ai, a := range e.accs {
				if (oi+ai+t)%3 != 0 && !(o.o == t && a.o == t) && !c.Thorough() {
					continue
				}
				e.place(base, t, o.raw, a.raw)
				c.Count("mixes", 1)
				e.judge("records exchanged", t, &o, &a, []int{oi, ai})
			}
		}
	}
	// Fields of several records combined.
	for n := 0; n < c.N(1500, 4000); n++ {
		t := r.IntN(len(e.oids))
		o, o2 := kit.Pick(r, e.objs), kit.Pick(r, e.objs)
		a, a2, a3 := kit.Pick(r, e.accs), kit.Pick(r, e.accs), kit.Pick(r, e.accs)
		if r.IntN(2) == 0 {
			a2 = a
		}
		if r.IntN(2) == 0 {
			o2 = o
		}
		oraw := withField(o.raw, "AssociatedData", byteField(o2.raw, "AssociatedData"))
		oraw = withField(oraw, "OID", kit.Pick(r, e.oids).String())
		araw := withField(a.raw, "WrappedKey", byteField(a2.raw, "WrappedKey"))
		araw = withField(araw, "OID", kit.Pick(r, e.oids).String())
		if r.IntN(10) == 0 { // the access list's own wrapped key as that of the object, and similar
			oraw = withField(oraw, "Ciphertext", byteField(a3.raw, "Ciphertext"))
		}
		if r.IntN(10) == 0 {
			araw = withField(araw, "Ciphertext", byteField(o.raw, "Ciphertext"))
		}
		e.place(base, t, oraw, araw)
		c.Count("mixes", 1)
		og, ag := e.genuineObj(oraw), e.genuineAcc(araw)
		e.judge("fields combined", t, og, ag, n)
	}
	// Records of other types.
	for t := range e.oids {
		for key, v := range base {
			e.place(base, t, []byte(v), nil)
			e.judge("record of another kind as object", t, e.genuineObj([]byte(v)), e.current(t), key)
			e.place(base, t, nil, []byte(v))
			e.judge("record of another kind as access list", t, e.currentObj(t), e.genuineAcc([]byte(v)), key)
		}
	}
	// Every field and the whole records changed.
	for t := range e.oids {
		cur, acc := e.currentObj(t), e.current(t)
		flips := c.N(300, 3000)
		for _, f := range []string{"Ciphertext", "AssociatedData"} {
			for _, m := range mutations(r, byteField(cur.raw, f), flips) {
				raw := withField(cur.raw, f, m.b)
				e.place(base, t, raw, nil)
				e.judge("object's "+f+" "+m.name, t, e.genuineObj(raw), acc, string(m.b))
			}
		}
		for _, f := range []string{"Ciphertext", "WrappedKey"} {
			for _, m := range mutations(r, byteField(acc.raw, f), flips) {
				raw := withField(acc.raw, f, m.b)
				e.place(base, t, nil, raw)
				e.judge("access list's "+f+" "+m.name, t, cur, e.genuineAcc(raw), m.b)
			}
		}
		for _, m := range rawMutations(r, cur.raw, flips) {
			e.place(base, t, m.b, nil)
			// How leniently records are decoded is the library's business: the untouched content is fine.
			og := e.genuineObj(m.b)
			if og == nil {
				og = cur
			}
			e.judge("object record "+m.name, t, og, acc, m.b)
		}
		for _, m := range rawMutations(r, acc.raw, flips) {
			e.place(base, t, nil, m.b)
			ag := e.genuineAcc(m.b)
			if ag == nil {
				ag = acc
			}
			e.judge("access record "+m.name, t, cur, ag, m.b)
		}
	}
	// Untouched, everything is still there for those who have access.
	e.st.Restore(base)
	for t, oid := range e.oids {
		cur, acc := e.currentObj(t), e.current(t)
		for _, u := range e.users {
			_, in := acc.list[u]
			got, err := e.warm.Decrypt(ctx, e.toks[u], oid)
			if in != (err == nil) || in && !sameObj(got, cur.p, cur.ad) {
				c.Violate("untouched", "Decrypt of the untouched object by %q (in the list: %v) returned %s, %v", u, in, gotObj(got), err)
			}
		}
	}
}

// place restores the storage and replaces the records of an object; nil leaves a record.
func (e *c05Env) place(base map[string]string, t int, oraw, araw []byte) {
	e.st.Restore(base)
	if oraw != nil {
		e.st.Set(e.oids[t].Bytes(), io.DataTypeSealedObject, oraw)
	}
	if araw != nil {
		e.st.Set(e.oids[t].Bytes(), io.DataTypeSealedAccess, araw)
	}
}

func (e *c05Env) currentObj(t int) *c05Obj {
	for i := len(e.objs) - 1; ; i-- {
		if e.objs[i].o == t {
			return &e.objs[i]
		}
	}
}

func (e *c05Env) current(t int) *c05Acc {
	for i := len(e.accs) - 1; ; i-- {
		if e.accs[i].o == t {
			return &e.accs[i]
		}
	}
}

// genuineObj returns the genuine object whose record this one decodes to, if there is one. Records
// that a standard JSON decoder does not decode are genuine never.
func (e *c05Env) genuineObj(raw []byte) *c05Obj {
	var x struct{ Ciphertext, AssociatedData []byte }
	if json.Unmarshal(raw, &x) != nil {
		return nil
	}
	for i := range e.objs {
		o := &e.objs[i]
		if bytes.Equal(x.Ciphertext, byteField(o.raw, "Ciphertext")) && bytes.Equal(x.AssociatedData, o.ad) {
			return o
		}
	}
	return nil
}

func (e *c05Env) genuineAcc(raw []byte) *c05Acc {
	var x struct{ Ciphertext, WrappedKey []byte }
	if json.Unmarshal(raw, &x) != nil {
		return nil
	}
	for i := range e.accs {
		a := &e.accs[i]
		if bytes.Equal(x.Ciphertext, byteField(a.raw, "Ciphertext")) && bytes.Equal(x.WrappedKey, byteField(a.raw, "WrappedKey")) {
			return a
		}
	}
	return nil
}

// judge makes calls on object t, whose storage decodes to the genuine records o and a (nil: to none).
func (e *c05Env) judge(what string, t int, o *c05Obj, a *c05Acc, mark any) {
	c := e.c
	if a != nil && a.o != t {
		a = nil
	}
	if o != nil && (o.o != t || a == nil || o.gen != a.gen) {
		o = nil
	}
	oid := e.oids[t]
	fresh := kit.NewD1(e.k, e.tap, e.ids)
	placed := e.st.Snapshot()
	for ui, u := range e.users {
		for di, d := range []*d1.D1{e.warm, fresh} {
			if di == 1 && ui > 1 {
				continue
			}
			tok := e.toks[u]
			in := false
			if a != nil {
				_, in = a.list[u]
			}
			desc := func() string {
				return fmt.Sprintf("%s at object %d (%q): %q calls", what, t, fmt.Sprint(mark), u)
			}
			// Decrypt
			got, err := d.Decrypt(ctx, tok, oid)
			c.Case(what, t, u, mark, "Decrypt", di)
			if err == nil {
				if o == nil || !in || !sameObj(got, o.p, o.ad) {
					c.Violate("forged:Decrypt", "%s: Decrypt returned %s; the records are genuine: object %v, access list %v; caller in the list: %v", desc(), gotObj(got), o != nil, a != nil, in)
				}
				c.Count("genuine_accepted", 1)
			} else {
				if gotObj(got) != "" {
					c.Violate("reveals:Decrypt", "%s: Decrypt failed with %v but returned %s", desc(), err, gotObj(got))
				}
				c.Count("rejected", 1)
			}
			// Operations that depend on the access list only.
			g, err := d.GetAccessGroups(ctx, tok, oid)
			if err == nil && (!in || !sameSet(g, a.list)) {
				c.Violate("forged:GetAccessGroups", "%s: GetAccessGroups returned %q", desc(), keysOf(g))
			}
			if err := d.AuthorizeIdentity(ctx, tok, oid); err == nil && !in {
				c.Violate("forged:AuthorizeIdentity", "%s: AuthorizeIdentity succeeded", desc())
			}
			if in {
				continue
			}
			for _, op := range objectOps {
				if op.name == "Decrypt" || op.name == "GetAccessGroups" || op.name == "AuthorizeIdentity" {
					continue
				}
				c.Eval(1)
				if _, err := op.run(d, tok, oid); err == nil {
					c.Violate("forged:"+op.name, "%s: %s succeeded", desc(), op.name)
				}
				if now := e.st.Snapshot(); !kit.SameContents(placed, now) {
					c.Violate("writes:"+op.name, "%s: %s failed but changed the storage: %s", desc(), op.name, kit.DiffContents(placed, now))
					e.st.Restore(placed)
				}
			}
		}
		if c.Full() {
			return
		}
	}
	if len(what) > 7 {
		c.SampleEvery(what, "%s at object %d (genuine object: %v, genuine access list: %v)", what, t, o != nil, a != nil)
	}
}

// c05Sealed manipulates sealed objects and access lists directly, including the object ID.
func c05Sealed(c *kit.C) {
	r := c.Rand("sealed")
	cr, err := crypto.NewAESCryptor(kit.Key(r))
	if err != nil {
		c.Violate("setup-failed", "NewAESCryptor: %v", err)
		return
	}
	for n := 0; n < c.N(10, 100); n++ {
		oid := newUUID(r)
		o := data.Object{Plaintext: kit.Content(r, 0), AssociatedData: kit.Content(r, 0)}
		if n == 0 {
			o.AssociatedData = nil
		}
		groups := []string{"a", "b"}
		switch n % 5 { // long ones, to be changed anywhere
		case 2:
			o.AssociatedData = kit.Bytes(r, 3000+r.IntN(8000))
		case 3:
			o.AssociatedData = kit.Bytes(r, 60000+r.IntN(80000))
		case 4:
			o.Plaintext = kit.Bytes(r, 3000+r.IntN(80000))
			for g := 0; g < 700; g++ {
				groups = append(groups, fmt.Sprint("group ", g))
			}
		}
		wrapped, so, err := o.Seal(oid, &cr)
		acc := data.NewAccess(wrapped)
		acc.AddGroups(groups...)
		sa, err2 := acc.Seal(oid, &cr)
		if err != nil || err2 != nil {
			c.Violate("setup-failed", "Seal: %v %v", err, err2)
			return
		}
		try := func(name string, so data.SealedObject, w []byte) {
			c.Case("sealed object", name, so.OID, so.Ciphertext, so.AssociatedData, w)
			if got, err := so.Unseal(w, &cr); err == nil || gotObj(got) != "" {
				c.Violate("forged:Object", "a sealed object with %s was unsealed: %s, %v", name, gotObj(got), err)
			}
			c.Count("rejected", 1)
		}
		tryA := func(name string, sa data.SealedAccess) {
			c.Case("sealed access", name, sa.OID, sa.Ciphertext, sa.WrappedKey)
			if got, err := sa.Unseal(&cr); err == nil || got.Groups != nil || got.WrappedDEK != nil {
				c.Violate("forged:Access", "a sealed access list with %s was unsealed: %v, %v", name, got, err)
			}
			c.Count("rejected", 1)
		}
		if got, err := so.Unseal(wrapped, &cr); err != nil || !sameObj(got, o.Plaintext, o.AssociatedData) {
			c.Violate("untouched", "an untouched sealed object was unsealed as %s, %v", gotObj(got), err)
		}
		if got, err := sa.Unseal(&cr); err != nil || !sameSet(got.Groups, set(groups...)) || !bytes.Equal(got.WrappedDEK, wrapped) {
			c.Violate("untouched", "an untouched sealed access list was unsealed as %v, %v", got, err)
		}
		for i := 0; i < 128; i++ {
			x, y := so, sa
			x.OID[i/8] ^= 1 << (i % 8)
			y.OID = x.OID
			try("another object ID", x, wrapped)
			tryA("another object ID", y)
		}
		for i := 1; i <= min(16, len(so.AssociatedData)); i++ { // bytes moved between ID and associated data
			x := so
			copy(x.OID[:], append(append([]byte{}, so.OID[i:]...), so.AssociatedData[:i]...))
			x.AssociatedData = so.AssociatedData[i:]
			if x.OID != so.OID {
				try("bytes moved between associated data and ID", x, wrapped)
			}
		}
		for _, m := range mutations(r, so.Ciphertext, 400) {
			x := so
			x.Ciphertext = m.b
			try("ciphertext "+m.name, x, wrapped)
		}
		for _, m := range mutations(r, so.AssociatedData, 400) {
			x := so
			x.AssociatedData = m.b
			try("associated data "+m.name, x, wrapped)
		}
		for _, m := range mutations(r, wrapped, 400) {
			try("wrapped key "+m.name, so, m.b)
		}
		for _, m := range mutations(r, sa.Ciphertext, 400) {
			x := sa
			x.Ciphertext = m.b
			tryA("ciphertext "+m.name, x)
		}
		for _, m := range mutations(r, sa.WrappedKey, 400) {
			x := sa
			x.WrappedKey = m.b
			tryA("wrapped key "+m.name, x)
		}
		// An access list and an object under the same key are not taken for each other.
		x := so
		x.Ciphertext = sa.Ciphertext
		try("an access list's ciphertext", x, sa.WrappedKey)
		y := sa
		y.Ciphertext, y.WrappedKey = so.Ciphertext, wrapped
		if len(o.AssociatedData) > 0 {
			tryA("an object's ciphertext", y)
		}
	}
}
