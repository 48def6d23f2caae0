package checks

import (
	"bytes"
	"context"
	"fmt"
	"math/rand/v2"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/gofrs/uuid"

	d1 "github.com/cybercryptio/d1-lib/v2"
	"github.com/cybercryptio/d1-lib/v2/crypto"
	"github.com/cybercryptio/d1-lib/v2/data"
	"github.com/cybercryptio/d1-lib/v2/id"
	"github.com/cybercryptio/d1-lib/v2/index"
	"github.com/cybercryptio/d1-lib/v2/io"
	"github.com/cybercryptio/d1-lib/v2/key"

	"verif/harness/kit"
	"verif/harness/ref"
)

// C22: the library neither modifies nor keeps hold of its callers' memory.
//
// All slices passed in lie inside larger areas that are compared after the call, and are overwritten
// then. Results are overwritten, or kept and compared later. What later calls return is compared with a
// model that never shares memory with the library.
func TestC22(t *testing.T) {
	kit.Run(t, "C22", "exploration", "An evaluation is a call whose arguments, with the memory around them, were compared before and after, or a result compared with the model or with itself later. Non-trivial: distinct (operation, sizes and spare capacities of the arguments).", func(c *kit.C) {
		k := kit.NewKeys(c.Rand("keys"))
		c.Parallel("objects", c.N(900, 12000), func(i int) { prep(c, func() { c22Objects(c, k, c.Rand("objects", i), i) }) })
		c.Parallel("index", c.N(240, 4000), func(i int) { prep(c, func() { c22Index(c, k, c.Rand("index", i), i) }) })
		c.Parallel("users", c.N(24, 400), func(i int) { prep(c, func() { c22Users(c, k, c.Rand("users", i), i) }) })
		c.Parallel("providers", c.N(900, 12000), func(i int) { prep(c, func() { c22Providers(c, c.Rand("providers", i), i) }) })
		c.Parallel("keys", c.N(240, 3000), func(i int) { prep(c, func() { c22Keys(c, c.Rand("keys", i)) }) })
		c.Parallel("primitives", c.N(1600, 30000), func(i int) { prep(c, func() { c22Primitives(c, k, c.Rand("primitives", i)) }) })
		c.Parallel("sealed", c.N(1600, 30000), func(i int) { prep(c, func() { c22Sealed(c, k, c.Rand("sealed", i)) }) })
		c.Require("guarded_arguments", 2000)
		c.Require("results_overwritten", 500)
		c.Require("results_kept", 500)
	})
}

// guards watches memory.
type guards struct {
	c        *kit.C
	r        *rand.Rand
	sizes    []string
	check    []func() string
	scribble []func()
	kept     []func() string
}

// area places the elements inside a larger array, with unused capacity behind them.
func area[T any](g *guards, what string, elems []T, filler func() T, same func(a, b T) bool) []T {
	if elems == nil {
		return nil
	}
	pre, spare := g.r.IntN(3), []int{0, 1, 8, 28, 64, 200}[g.r.IntN(6)]
	all := make([]T, pre+len(elems)+spare)
	for i := range all {
		all[i] = filler()
	}
	copy(all[pre:], elems)
	want := append([]T{}, all...)
	g.sizes = append(g.sizes, fmt.Sprintf("%s %d+%d", what, len(elems), spare))
	g.check = append(g.check, func() string {
		for i := range all {
			if !same(all[i], want[i]) {
				where := "inside the argument"
				if i < pre {
					where = "before the argument"
				} else if i >= pre+len(elems) {
					where = "in the unused capacity behind the argument"
				}
				return fmt.Sprintf("%s: element %d of %s (%d elements, %d spare) changed from %v to %v", what, i-pre, where, len(elems), spare, want[i], all[i])
			}
		}
		return ""
	})
	g.scribble = append(g.scribble, func() {
		for i := range all {
			all[i] = filler()
		}
	})
	g.c.Count("guarded_arguments", 1)
	return all[pre : pre+len(elems) : pre+len(elems)+spare]
}

func (g *guards) bytes(what string, b []byte) []byte {
	return area(g, what, b, func() byte { return byte(g.r.Uint32()) }, func(a, b byte) bool { return a == b })
}

func (g *guards) strings(what string, s []string) []string {
	n := 0
	return area(g, what, s, func() string { n++; return fmt.Sprint("filler", n) }, func(a, b string) bool { return a == b })
}

func (g *guards) scopes(what string, s []id.Scope) []id.Scope {
	return area(g, what, s, func() id.Scope { return id.Scope(g.r.Uint64()) }, func(a, b id.Scope) bool { return a == b })
}

// object makes a guarded object.
func (g *guards) object(p, ad []byte) *data.Object {
	o := &data.Object{Plaintext: g.bytes("plaintext", p), AssociatedData: g.bytes("associated data", ad)}
	before := *o
	g.check = append(g.check, func() string {
		if !sameSlice(before.Plaintext, o.Plaintext) || !sameSlice(before.AssociatedData, o.AssociatedData) {
			return "the fields of the object refer to other memory"
		}
		return ""
	})
	g.scribble = append(g.scribble, func() { *o = data.Object{Plaintext: []byte("other"), AssociatedData: nil} })
	return o
}

func sameSlice[T any](a, b []T) bool {
	return len(a) == len(b) && cap(a) == cap(b) && (a == nil) == (b == nil) && (cap(a) == 0 || &a[:1][0] == &b[:1][0])
}

// done compares all arguments after a call, then overwrites them.
func (g *guards) done(op string) {
	g.c.Case(op, strings.Join(g.sizes, " "))
	for _, f := range g.check {
		if msg := f(); msg != "" {
			g.c.Violate("modified-argument", "%s: %s", op, msg)
		}
	}
	for _, f := range g.scribble {
		f()
	}
	g.check, g.scribble, g.sizes = nil, nil, nil
}

// result overwrites a result or keeps it to compare it later.
func (g *guards) result(op string, b []byte) {
	if g.r.IntN(2) == 0 {
		b = b[:cap(b)]
		for i := range b {
			b[i] ^= 0x5a
		}
		g.c.Count("results_overwritten", 1)
		return
	}
	want := append([]byte{}, b...)
	g.keep(func() string {
		if !bytes.Equal(b, want) {
			return fmt.Sprintf("a result of %s changed after it was returned, from %s to %s", op, kit.Short(want), kit.Short(b))
		}
		return ""
	})
}

func (g *guards) keep(f func() string) {
	g.c.Count("results_kept", 1)
	g.kept = append(g.kept, f)
}

func (g *guards) resultSet(op string, m map[string]struct{}) {
	if g.r.IntN(2) == 0 {
		for k := range m {
			if g.r.IntN(2) == 0 {
				delete(m, k)
			}
		}
		if m != nil {
			m["put in by the caller"] = struct{}{}
		}
		g.c.Count("results_overwritten", 1)
		return
	}
	want := copySet(m)
	g.keep(func() string {
		if !sameSet(m, want) {
			return fmt.Sprintf("the set returned by %s changed afterwards from %q to %q", op, keysOf(want), keysOf(m))
		}
		return ""
	})
}

func (g *guards) resultStrings(op string, s []string) {
	if g.r.IntN(2) == 0 {
		s = s[:cap(s)]
		for i := range s {
			s[i] = "put in by the caller"
		}
		g.c.Count("results_overwritten", 1)
		return
	}
	want := append([]string{}, s...)
	g.keep(func() string {
		if !sameStrings(s, want) {
			return fmt.Sprintf("the list returned by %s changed afterwards from %q to %q", op, want, s)
		}
		return ""
	})
}

func (g *guards) end() {
	for _, f := range g.kept {
		g.c.Eval(1)
		if msg := f(); msg != "" {
			g.c.Violate("changed-result", "%s", msg)
		}
	}
}

// sharing is an IO Provider that stores the very slices it gets... copies of them, but hands out its own
// memory, with spare capacity, and compares it all the time.
type sharing struct {
	c  *kit.C
	mu sync.Mutex
	m  map[string]*shared
}

type shared struct {
	all  []byte // all the memory
	n    int    // how much of it is data
	want []byte
}

func newSharing(c *kit.C) *sharing { return &sharing{c: c, m: map[string]*shared{}} }

func (s *sharing) at(id []byte, dt io.DataType) string { return fmt.Sprintf("%x/%d", id, dt) }

func (s *sharing) set(k string, b []byte) {
	all := append(append([]byte{}, b...), bytes.Repeat([]byte{0xc3}, 40)...)
	s.m[k] = &shared{all, len(b), append([]byte{}, all...)}
}

func (s *sharing) verify(when string) {
	for k, v := range s.m {
		if !bytes.Equal(v.all, v.want) {
			s.c.Violate("modified-provider-memory", "%s: memory that the IO Provider handed out for %s was changed", when, k)
			copy(v.all, v.want)
		}
	}
}

func (s *sharing) Put(_ context.Context, id []byte, dt io.DataType, b []byte) error {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.verify("before Put")
	k := s.at(id, dt)
	if _, ok := s.m[k]; ok {
		return io.ErrAlreadyExists
	}
	s.set(k, b)
	return nil
}

func (s *sharing) Update(_ context.Context, id []byte, dt io.DataType, b []byte) error {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.verify("before Update")
	k := s.at(id, dt)
	if _, ok := s.m[k]; !ok {
		return io.ErrNotFound
	}
	s.set(k, b)
	return nil
}

func (s *sharing) Get(_ context.Context, id []byte, dt io.DataType) ([]byte, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.verify("before Get")
	v, ok := s.m[s.at(id, dt)]
	if !ok {
		return nil, io.ErrNotFound
	}
	return v.all[:v.n], nil
}

func (s *sharing) Delete(_ context.Context, id []byte, dt io.DataType) error {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.verify("before Delete")
	delete(s.m, s.at(id, dt))
	return nil
}

// keeping is an IO Provider that keeps the slices it gets (and gives copies back). The library must not
// change them after the call.
type keeping struct {
	sharing
}

func (s *keeping) set2(k string, b []byte) { s.m[k] = &shared{b, len(b), append([]byte{}, b...)} }

func (s *keeping) Put(_ context.Context, id []byte, dt io.DataType, b []byte) error {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.verify("before Put")
	k := s.at(id, dt)
	if _, ok := s.m[k]; ok {
		return io.ErrAlreadyExists
	}
	s.set2(k, b)
	return nil
}

func (s *keeping) Update(_ context.Context, id []byte, dt io.DataType, b []byte) error {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.verify("before Update")
	k := s.at(id, dt)
	if _, ok := s.m[k]; !ok {
		return io.ErrNotFound
	}
	s.set2(k, b)
	return nil
}

func (s *keeping) Get(_ context.Context, id []byte, dt io.DataType) ([]byte, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.verify("before Get")
	v, ok := s.m[s.at(id, dt)]
	if !ok {
		return nil, io.ErrNotFound
	}
	return append([]byte{}, v.want...), nil
}

func c22Provider(c *kit.C, i int) io.Provider {
	switch i % 6 {
	case 4:
		return newSharing(c)
	case 5:
		return &keeping{*newSharing(c)}
	default:
		return providers[i%6].make()
	}
}

// sharedIDs gives out the same identities, maps included, every time.
type sharedIDs struct{ m map[string]id.Identity }

func (p *sharedIDs) GetIdentity(_ context.Context, token string) (id.Identity, error) {
	i, ok := p.m[token]
	if !ok {
		return i, id.ErrNotAuthenticated
	}
	return i, nil
}

func c22Objects(c *kit.C, k kit.Keys, r *rand.Rand, i int) {
	g := &guards{c: c, r: r}
	st := c22Provider(c, i)
	ids := &sharedIDs{m: map[string]id.Identity{}}
	groupsOf := func(u string) map[string]id.AccessGroup {
		return map[string]id.AccessGroup{"g-" + u: {ID: "g-" + u, Scopes: id.ScopeAll}, "common": {ID: "common", Scopes: id.ScopeDecrypt}}
	}
	users := []string{"ann", "bob"}
	for _, u := range users {
		ids.m[u] = id.Identity{ID: u, Scopes: id.ScopeAll, Groups: groupsOf(u)}
	}
	identsUnchanged := func(op string) {
		for _, u := range users {
			want := groupsOf(u)
			got := ids.m[u].Groups
			if len(want) != len(got) || got["common"] != want["common"] || got["g-"+u] != want["g-"+u] {
				c.Violate("modified-identity", "%s changed the groups of an identity that the ID Provider handed out: %v", op, got)
				ids.m[u] = id.Identity{ID: u, Scopes: id.ScopeAll, Groups: want}
			}
		}
	}
	d := kit.NewD1(k, st, ids)
	type object struct {
		oid   uuid.UUID
		p, ad []byte
		list  map[string]struct{}
		owner string
	}
	var objs []*object
	check := func(op string, o *object) {
		c.Eval(1)
		got, err := d.Decrypt(ctx, o.owner, o.oid)
		if err != nil || !sameObj(got, o.p, o.ad) {
			c.Violate("changed-object", "after %s and overwriting its arguments and results: Decrypt returned %s, %v instead of %s", op, showObj(got.Plaintext, got.AssociatedData), err, showObj(o.p, o.ad))
		}
		g.result("Decrypt", got.Plaintext)
		g.result("Decrypt", got.AssociatedData)
		list, err := d.GetAccessGroups(ctx, o.owner, o.oid)
		if err != nil || !sameSet(list, o.list) {
			c.Violate("changed-access", "after %s and overwriting its arguments and results: the access list is %q, %v instead of %q", op, keysOf(list), err, keysOf(o.list))
		}
		g.resultSet("GetAccessGroups", list)
	}
	someGroups := func() []string {
		out := []string{}
		n := r.IntN(4)
		switch r.IntN(4) {
		case 0:
			n = 4 + r.IntN(12)
		case 1:
			if r.IntN(4) == 0 {
				n = 60 + r.IntN(300)
			}
		}
		for ; n > 0; n-- {
			out = append(out, fmt.Sprint("group", r.IntN(6+n)))
		}
		return out
	}
	type tok struct {
		t    data.SealedToken
		want []byte
	}
	var toks []*tok
	for step := 0; step < 24; step++ {
		var o *object
		if len(objs) > 0 {
			o = kit.Pick(r, objs)
		}
		op := "Encrypt"
		switch n := r.IntN(8); {
		case o == nil || n == 0:
			u := kit.Pick(r, users)
			o = &object{p: kit.Content(r, 60), ad: kit.Content(r, 60), owner: u}
			groups := someGroups()
			o.list = set(append([]string{u}, groups...)...)
			o.oid = must(d.Encrypt(ctx, u, g.object(o.p, o.ad), g.strings("groups", groups)...))
			objs = append(objs, o)
		case n == 1:
			op = "Update"
			o.p, o.ad = kit.Content(r, 60), kit.Content(r, 60)
			must0(d.Update(ctx, o.owner, o.oid, g.object(o.p, o.ad)))
		case n == 2:
			op = "AddGroupsToAccess"
			groups := someGroups()
			must0(d.AddGroupsToAccess(ctx, o.owner, o.oid, g.strings("groups", groups)...))
			for _, x := range groups {
				o.list[x] = struct{}{}
			}
		case n == 3:
			op = "RemoveGroupsFromAccess"
			groups := someGroups()
			must0(d.RemoveGroupsFromAccess(ctx, o.owner, o.oid, g.strings("groups", groups)...))
			for _, x := range groups {
				delete(o.list, x)
			}
		case n == 4:
			op = "CreateToken"
			want := kit.Content(r, 60)
			t := must(d.CreateToken(ctx, g.bytes("plaintext", want)))
			toks = append(toks, &tok{t, want})
		case n == 5 && len(toks) > 0:
			op = "GetTokenContents"
			t := kit.Pick(r, toks)
			before := data.SealedToken{ExpiryTime: t.t.ExpiryTime, Ciphertext: append([]byte{}, t.t.Ciphertext...), WrappedKey: append([]byte{}, t.t.WrappedKey...)}
			arg := &data.SealedToken{ExpiryTime: t.t.ExpiryTime, Ciphertext: g.bytes("ciphertext", t.t.Ciphertext), WrappedKey: g.bytes("wrapped key", t.t.WrappedKey)}
			got, err := d.GetTokenContents(ctx, arg)
			if err != nil || !bytes.Equal(got, t.want) {
				c.Violate("changed-token", "GetTokenContents returned %s, %v instead of %s after earlier arguments and results were overwritten", kit.Short(got), err, kit.Short(t.want))
			}
			if !arg.ExpiryTime.Equal(before.ExpiryTime) || !bytes.Equal(arg.Ciphertext, before.Ciphertext) || !bytes.Equal(arg.WrappedKey, before.WrappedKey) {
				c.Violate("modified-argument", "GetTokenContents changed the sealed token passed to it")
			}
			g.result(op, got)
		case n == 6 && len(objs) > 1:
			op = "Delete"
			must0(d.Delete(ctx, o.owner, o.oid))
			for j := range objs {
				if objs[j] == o {
					objs = append(objs[:j], objs[j+1:]...)
					break
				}
			}
			o = objs[0]
		default:
			op = "AuthorizeIdentity"
			must0(d.AuthorizeIdentity(ctx, o.owner, o.oid))
		}
		g.done(op)
		identsUnchanged(op)
		check(op, o)
	}
	for _, o := range objs {
		check("a history", o)
	}
	g.end()
}

func c22Index(c *kit.C, k kit.Keys, r *rand.Rand, i int) {
	g := &guards{c: c, r: r}
	st := c22Provider(c, i)
	ids := kit.NewIDs()
	tok := ids.User("u", id.ScopeIndex)
	x := kit.NewIndex(k, st, ids)
	m := words{}
	for step := 0; step < 25; step++ {
		kw, idt := kit.Pick(r, []string{"red", "blue"}), kit.Pick(r, []string{"1", "2", "3"})
		if r.IntN(3) > 0 {
			must0(x.Add(ctx, tok, kw, idt))
			m.add(kw, idt)
		} else {
			must0(x.Delete(ctx, tok, kw, idt))
			m.del(kw, idt)
		}
		c.Case("index", kw, len(m[kw]))
		for j := 0; j < 2; j++ {
			got, err := x.Search(ctx, tok, kw)
			if err != nil || !sameStrings(got, m[kw]) {
				c.Violate("changed-index", "after overwriting earlier results Search returned %q, %v instead of %q", got, err, m[kw])
			}
			g.resultStrings("Search", got)
		}
	}
	g.end()
}

func c22Users(c *kit.C, k kit.Keys, r *rand.Rand, i int) {
	g := &guards{c: c, r: r}
	s := kit.NewStandalone(k, c22Provider(c, i))
	scopes := []id.Scope{id.ScopeEncrypt, id.ScopeDecrypt, id.ScopeUpdate}
	uid, pw := must2(s.NewUser(ctx, g.scopes("scopes", scopes)...))
	g.done("NewUser")
	other, _ := must2(s.NewUser(ctx, id.ScopeAll))
	tok, _ := must2(s.LoginUser(ctx, uid, pw))
	member := map[string]struct{}{}
	var gids []string
	for j := 3 + r.IntN(2)*r.IntN(12); j > 0; j-- {
		gid := must(s.NewGroup(ctx, tok, g.scopes("scopes", []id.Scope{id.ScopeDecrypt, id.ScopeIndex})...))
		g.done("NewGroup")
		gids = append(gids, gid)
		member[gid] = struct{}{}
	}
	for step := 0; step < 10; step++ {
		var list []string
		for _, x := range gids {
			if _, ok := member[x]; ok && r.IntN(2) == 0 {
				list = append(list, x)
			}
		}
		r.Shuffle(len(list), func(i, j int) { list[i], list[j] = list[j], list[i] })
		if len(list) > 0 && r.IntN(4) == 0 {
			list = append(list, list...)
		}
		switch r.IntN(5) {
		case 0, 1:
			must0(s.AddUserToGroups(ctx, tok, other, g.strings("groups", list)...))
			g.done("AddUserToGroups")
		case 2:
			must0(s.RemoveUserFromGroups(ctx, tok, other, g.strings("groups", list)...))
			g.done("RemoveUserFromGroups")
		case 3:
			if len(member) > 1 && len(list) > 1 {
				must0(s.RemoveUserFromGroups(ctx, tok, uid, g.strings("groups", list[:1])...))
				delete(member, list[0])
				g.done("RemoveUserFromGroups")
			}
		}
		for n := 0; n < 2; n++ {
			got, err := s.GetIdentity(ctx, tok)
			c.Eval(1)
			bad := err != nil || got.ID != uid || got.Scopes != scopes[0]|scopes[1]|scopes[2] || len(got.Groups) != len(member)
			for x := range member {
				if got.Groups[x] != (id.AccessGroup{ID: x, Scopes: id.ScopeDecrypt | id.ScopeIndex}) {
					bad = true
				}
			}
			if bad {
				c.Violate("changed-identity", "after overwriting earlier arguments and results GetIdentity returned %+v, %v; expected user %s in %q", got, err, uid, keysOf(member))
			}
			idSet := got.GetIDs()
			delete(idSet, uid)
			idSet["x"] = struct{}{}
			if len(got.Groups) != len(member) || got.GetIDScope("x") != id.ScopeNone {
				c.Violate("changed-identity", "changing the result of GetIDs changed the identity")
			}
			if r.IntN(2) == 0 {
				for x := range got.Groups {
					delete(got.Groups, x)
				}
				if got.Groups != nil {
					got.Groups["evil"] = id.AccessGroup{ID: "evil", Scopes: id.ScopeAll}
				}
				c.Count("results_overwritten", 1)
			} else {
				n, kept := len(got.Groups), got
				g.keep(func() string {
					if len(kept.Groups) != n {
						return "the groups of an identity changed after it was returned"
					}
					return ""
				})
			}
		}
	}
	g.end()
}

// c22Providers calls the library's IO Providers directly.
func c22Providers(c *kit.C, r *rand.Rand, i int) {
	g := &guards{c: c, r: r}
	p := providers[1+i%3]
	st := p.make()
	type rec struct {
		id string
		dt io.DataType
	}
	model := map[rec][]byte{}
	var recs []rec
	for n := 0; n < 6; n++ {
		x := string(kit.Bytes(r, 1+r.IntN(40)))
		recs = append(recs, rec{x, io.DataType(n % 3)}, rec{x, io.DataType(r.IntN(300))})
	}
	for step := 0; step < 30; step++ {
		x := kit.Pick(r, recs)
		idt := g.bytes("id", []byte(x.id))
		want, exists := model[x]
		b := kit.Content(r, 0)
		op := p.name + " "
		switch r.IntN(4) {
		case 0:
			op += "Put"
			err := st.Put(ctx, idt, x.dt, g.bytes("data", b))
			if (err == nil) == exists {
				c.Violate("changed-record", "%s returned %v although the record's existence is %v", op, err, exists)
			}
			if err == nil {
				model[x] = append([]byte{}, b...)
			}
		case 1:
			op += "Update"
			err := st.Update(ctx, idt, x.dt, g.bytes("data", b))
			if (err == nil) != exists {
				c.Violate("changed-record", "%s returned %v although the record's existence is %v", op, err, exists)
			}
			if err == nil {
				model[x] = append([]byte{}, b...)
			}
		case 2:
			op += "Get"
			for n := 0; n < 2; n++ {
				got, err := st.Get(ctx, idt, x.dt)
				if (err == nil) != exists || err == nil && !bytes.Equal(got, want) {
					c.Violate("changed-record", "%s returned %s, %v instead of %s (existing: %v) after earlier arguments and results were overwritten", op, kit.Short(got), err, kit.Short(want), exists)
				}
				if err == nil {
					g.result(op, got)
				}
			}
		case 3:
			op += "Delete"
			if r.IntN(3) == 0 {
				must0(st.Delete(ctx, idt, x.dt))
				delete(model, x)
			}
		}
		g.done(op)
	}
	for x, want := range model {
		got, err := st.Get(ctx, []byte(x.id), x.dt)
		c.Eval(1)
		if err != nil || !bytes.Equal(got, want) {
			c.Violate("changed-record", "%s: at the end of a history a record is %s, %v instead of %s", p.name, kit.Short(got), err, kit.Short(want))
		}
	}
	g.end()
}

// wipingKeys hands out its own key memory and checks and wipes it later.
type wipingKeys struct{ k key.Keys }

func (p *wipingKeys) GetKeys(context.Context) (key.Keys, error) { return p.k, nil }

func c22Keys(c *kit.C, r *rand.Rand) {
	g := &guards{c: c, r: r}
	k := kit.NewKeys(r)
	guarded := func() key.Keys {
		return key.Keys{KEK: g.bytes("KEK", k.D1.KEK), AEK: g.bytes("AEK", k.D1.AEK), TEK: g.bytes("TEK", k.D1.TEK), IEK: g.bytes("IEK", k.D1.IEK)}
	}
	ids := kit.NewIDs()
	tok := ids.User("u", id.ScopeAll)
	st := kit.NewStore()
	pd, px, ps := kit.NewD1(k, st, ids), kit.NewIndex(k, st, ids), kit.NewStandalone(k, st) // never touched
	// The same with keys that are wiped after construction.
	var d d1.D1
	var x index.SecureIndex
	static := r.IntN(2) == 0
	if static {
		sp := key.NewStatic(guarded())
		g.done("NewStatic")
		for n := 0; n < 2; n++ {
			got := must(sp.GetKeys(ctx))
			if !bytes.Equal(got.KEK, k.D1.KEK) || !bytes.Equal(got.AEK, k.D1.AEK) || !bytes.Equal(got.TEK, k.D1.TEK) || !bytes.Equal(got.IEK, k.D1.IEK) {
				c.Violate("changed-keys", "the static Key Provider's keys changed when the caller overwrote the keys it passed in or got")
			}
			for _, b := range [][]byte{got.KEK, got.AEK, got.TEK, got.IEK} {
				b = b[:cap(b)]
				for i := range b {
					b[i] = 0
				}
			}
			c.Count("results_overwritten", 4)
		}
		d, x = must(d1.New(ctx, &sp, st, ids)), must(index.NewSecureIndex(ctx, &sp, st, ids))
	} else {
		p := &wipingKeys{guarded()}
		d = must(d1.New(ctx, p, st, ids))
		x = must(index.NewSecureIndex(ctx, p, st, ids))
		g.done("New with a Key Provider that keeps its keys")
	}
	cfg := id.StandaloneConfig{UEK: g.bytes("UEK", k.ID.UEK), GEK: g.bytes("GEK", k.ID.GEK), TEK: g.bytes("TEK", k.ID.TEK)}
	s := must(id.NewStandalone(cfg, st))
	g.done("NewStandalone")
	how := fmt.Sprintf("(static: %v)", static)
	same := func(what string, ok bool, detail any) {
		c.Case("keys", what, static)
		if !ok {
			c.Violate("changed-keys", "after wiping the key material that was handed over %s, %s: %v", how, what, detail)
		}
	}
	oid := must(d.Encrypt(ctx, tok, obj([]byte("p"), []byte("ad")), "g"))
	o, err := pd.Decrypt(ctx, tok, oid)
	same("an instance with the same keys cannot decrypt", err == nil && string(o.Plaintext) == "p", err)
	oid = must(pd.Encrypt(ctx, tok, obj([]byte("p2"), nil)))
	o, err = d.Decrypt(ctx, tok, oid)
	same("an object encrypted with these keys cannot be decrypted", err == nil && string(o.Plaintext) == "p2", err)
	t := must(d.CreateToken(ctx, []byte("t")))
	b, err := pd.GetTokenContents(ctx, &t)
	same("a token cannot be opened with these keys", err == nil && string(b) == "t", err)
	must0(x.Add(ctx, tok, "kw", "a"))
	must0(px.Add(ctx, tok, "kw", "b"))
	must0(x.Add(ctx, tok, "kw", "c"))
	for _, y := range []*index.SecureIndex{&x, px} {
		got, err := y.Search(ctx, tok, "kw")
		same("index entries differ", err == nil && sameStrings(got, []string{"a", "b", "c"}), got)
	}
	uid, pw := must2(s.NewUser(ctx, id.ScopeAll))
	ut, _, err := ps.LoginUser(ctx, uid, pw)
	same("a user cannot log in at a provider with the same keys", err == nil, err)
	if err == nil {
		ident, err := s.GetIdentity(ctx, ut)
		same("a login token of a provider with the same keys is refused", err == nil && ident.ID == uid, err)
		gid := must(s.NewGroup(ctx, ut, id.ScopeIndex))
		ident, err = ps.GetIdentity(ctx, ut)
		same("a group cannot be read by a provider with the same keys", err == nil && ident.Groups[gid].Scopes == id.ScopeIndex, err)
	}
}

// c22Primitives calls the functions of package crypto directly.
func c22Primitives(c *kit.C, k kit.Keys, r *rand.Rand) {
	g := &guards{c: c, r: r}
	kek := kit.Key(r)
	// Cryptor
	cr := must(crypto.NewAESCryptor(g.bytes("KEK", kek)))
	g.done("NewAESCryptor")
	p, ad := kit.Content(r, 60), kit.Content(r, 60)
	wrapped, ct, err := cr.Encrypt(g.bytes("plaintext", p), g.bytes("data", ad))
	must0(err)
	g.done("Cryptor.Encrypt")
	var got []byte
	must0(cr.Decrypt(&got, g.bytes("data", ad), g.bytes("wrapped key", wrapped), g.bytes("ciphertext", ct)))
	g.done("Cryptor.Decrypt")
	if !bytes.Equal(got, p) {
		c.Violate("changed-keys", "Cryptor.Decrypt returned %s instead of %s after the arguments of Encrypt and the key were overwritten", kit.Short(got), kit.Short(p))
	}
	// Wrong data must leave the arguments alone, too.
	bad := append([]byte{}, ct...)
	bad[r.IntN(len(bad))] ^= 1
	target := []byte("target")
	if err := cr.Decrypt(&target, g.bytes("data", ad), g.bytes("wrapped key", wrapped), g.bytes("ciphertext", bad)); err == nil {
		c.Violate("tampered", "a modified ciphertext was accepted")
	} else if string(target) != "target" {
		c.Violate("modified-argument", "Cryptor.Decrypt changed its target to %q although it failed", target)
	}
	g.done("Cryptor.Decrypt of a modified ciphertext")
	// Results keep their contents while the cryptor is used further.
	g.result("Cryptor.Encrypt", ct)
	g.result("Cryptor.Encrypt", wrapped)
	g.result("Cryptor.Decrypt", got)
	w2, c2, err := cr.Encrypt(p, ad)
	must0(err)
	var again []byte
	if err := cr.Decrypt(&again, ad, w2, c2); err != nil || !bytes.Equal(again, p) {
		c.Violate("changed-keys", "a second round trip gave %s, %v instead of %s after results of the first were overwritten", kit.Short(again), err, kit.Short(p))
	}
	// Key wrapping
	kwp, err := crypto.NewKWP(g.bytes("wrapping key", kek[:16+16*r.IntN(2)]))
	must0(err)
	g.done("NewKWP")
	in := kit.Bytes(r, 16+r.IntN(60))
	w := must(kwp.Wrap(g.bytes("data", in)))
	g.done("KWP.Wrap")
	u := must(kwp.Unwrap(g.bytes("data", w)))
	g.done("KWP.Unwrap")
	if !bytes.Equal(u, in) {
		c.Violate("changed-keys", "Unwrap(Wrap(x)) differs after the wrapping key was wiped")
	}
	g.result("KWP.Wrap", w)
	g.result("KWP.Unwrap", u)
	u2 := must(kwp.Unwrap(must(kwp.Wrap(in))))
	if !bytes.Equal(u2, in) {
		c.Violate("changed-keys", "Unwrap(Wrap(x)) differs after results were overwritten")
	}
	// MACs
	mkey, cust := kit.Bytes(r, 32+r.IntN(40)), kit.Bytes(r, r.IntN(40))
	mac := crypto.NewKMAC256(g.bytes("key", mkey), 32, g.bytes("customization", cust))
	g.done("NewKMAC256")
	msg := kit.Content(r, 0)
	if n, err := mac.Write(g.bytes("message", msg)); err != nil || n != len(msg) {
		c.Violate("kmac", "Write returned %d, %v", n, err)
	}
	g.done("KMAC.Write")
	want := ref.KMAC(136, mkey, msg, cust, 32)
	for n := 0; n < 2; n++ {
		sum := mac.Sum(nil)
		if !bytes.Equal(sum, want) {
			c.Violate("changed-keys", "KMAC256 is %x instead of %x after the key, customization and message were overwritten", sum, want)
		}
		g.result("KMAC.Sum", sum)
	}
	mac.Reset()
	mac.Write(msg) //nolint:errcheck
	if sum := mac.Sum(nil); !bytes.Equal(sum, want) {
		c.Violate("changed-keys", "KMAC256 after Reset is %x instead of %x after the key was wiped", sum, want)
	}
	derived := crypto.KMACKDF(32, g.bytes("key", mkey), g.bytes("label", cust), g.bytes("context", msg))
	g.done("KMACKDF")
	if !bytes.Equal(derived, want) {
		c.Violate("changed-keys", "KMACKDF is %x instead of %x", derived, want)
	}
	g.result("KMACKDF", derived)
	if again := crypto.KMACKDF(32, mkey, cust, msg); !bytes.Equal(again, want) {
		c.Violate("changed-keys", "KMACKDF is %x instead of %x after its result was overwritten", again, want)
	}
	tagger := must(crypto.NewKMAC256Tagger(g.bytes("key", kek)))
	g.done("NewKMAC256Tagger")
	pristine := must(crypto.NewKMAC256Tagger(append([]byte{}, kek...)))
	wantTag := append([]byte{}, must(pristine.Tag(clone(msg)))...)
	for n := 0; n < 2; n++ {
		tag := must(tagger.Tag(g.bytes("data", msg)))
		g.done("Tagger.Tag")
		if !bytes.Equal(tag, wantTag) {
			c.Violate("changed-keys", "the tag is %x instead of %x after the tagger's key was wiped by the caller", tag, wantTag)
		}
		g.result("Tagger.Tag", tag)
	}
	// Functions that work in place on one argument must leave the others alone.
	aead := &crypto.AES256GCM{Random: &crypto.NativeRandom{}}
	sealed := must(aead.Encrypt(append([]byte{}, p...), g.bytes("associated data", ad), g.bytes("key", kek)))
	g.done("AES256GCM.Encrypt")
	open := must(aead.Decrypt(append([]byte{}, sealed...), g.bytes("associated data", ad), g.bytes("key", kek)))
	g.done("AES256GCM.Decrypt")
	if !bytes.Equal(open, p) {
		c.Violate("changed-keys", "AES256GCM round trip gave %s instead of %s", kit.Short(open), kit.Short(p))
	}
	// Random bytes are the caller's.
	rnd := &crypto.NativeRandom{}
	n := uint(1 + r.IntN(64))
	a := must(rnd.GetBytes(n))
	keep := append([]byte{}, a...)
	bb := must(rnd.GetBytes(n))
	for i := range bb {
		bb[i] = 0
	}
	if !bytes.Equal(a, keep) {
		c.Violate("changed-result", "GetBytes changed an earlier result")
	}
	if r.IntN(20) == 0 { // slow
		h := crypto.NewPasswordHasher()
		pw, sh, err := h.GeneratePassword()
		must0(err)
		if !h.Compare(pw, g.bytes("salt and hash", sh)) {
			c.Violate("password", "a new password is refused")
		}
		g.done("PasswordHasher.Compare")
		if !h.Compare(pw, sh) {
			c.Violate("password", "a password is refused after another copy of the hash was overwritten")
		}
	}
	g.end()
}

// c22Sealed seals and opens the structures of package data directly.
func c22Sealed(c *kit.C, k kit.Keys, r *rand.Rand) {
	g := &guards{c: c, r: r}
	cr := must(crypto.NewAESCryptor(kit.Key(r)))
	oid := newUUID(r)
	p, ad := kit.Content(r, 60), kit.Content(r, 60)
	o := g.object(p, ad)
	wrapped, sealed, err := o.Seal(oid, &cr)
	must0(err)
	g.done("Object.Seal")
	for n := 0; n < 2; n++ {
		arg := data.SealedObject{Ciphertext: g.bytes("ciphertext", sealed.Ciphertext), AssociatedData: g.bytes("associated data", sealed.AssociatedData), OID: oid}
		got, err := arg.Unseal(g.bytes("wrapped key", wrapped), &cr)
		if err != nil || !sameObj(got, p, ad) {
			c.Violate("changed-sealed", "Unseal returned %s, %v instead of %s after the object that was sealed, or an earlier result, was overwritten", showObj(got.Plaintext, got.AssociatedData), err, showObj(p, ad))
		}
		g.done("SealedObject.Unseal")
		if err == nil && !sameObj(got, p, ad) {
			c.Violate("changed-result", "overwriting the sealed object changed the object unsealed from it earlier: %s instead of %s", showObj(got.Plaintext, got.AssociatedData), showObj(p, ad))
		}
		got2, err := sealed.Unseal(wrapped, &cr)
		if err != nil || !sameObj(got2, p, ad) {
			c.Violate("changed-sealed", "Unseal returned %s, %v instead of %s after results were overwritten", showObj(got2.Plaintext, got2.AssociatedData), err, showObj(p, ad))
		}
		g.result("SealedObject.Unseal", got2.Plaintext)
		g.result("SealedObject.Unseal", got2.AssociatedData)
	}
	// Access
	dek := kit.Bytes(r, 40)
	acc := data.NewAccess(append([]byte{}, dek...))
	groups := []string{"a", "b", kit.String(r)}
	for n := r.IntN(3) * r.IntN(40); n > 0; n-- {
		groups = append(groups, fmt.Sprint("x", r.IntN(1000)))
	}
	r.Shuffle(len(groups), func(i, j int) { groups[i], groups[j] = groups[j], groups[i] })
	acc.AddGroups(g.strings("groups", groups)...)
	g.done("Access.AddGroups")
	acc.RemoveGroups(g.strings("groups", []string{"b", "none"})...)
	g.done("Access.RemoveGroups")
	wantGroups := set(groups...)
	delete(wantGroups, "b")
	delete(wantGroups, "none")
	acc.ContainsGroups(g.strings("groups", groups)...)
	g.done("Access.ContainsGroups")
	sa := must(acc.Seal(oid, &cr))
	acc.AddGroups("later")
	acc.WrappedDEK[0] ^= 1
	for n := 0; n < 2; n++ {
		arg := data.SealedAccess{OID: oid, Ciphertext: g.bytes("ciphertext", sa.Ciphertext), WrappedKey: g.bytes("wrapped key", sa.WrappedKey)}
		got, err := arg.Unseal(&cr)
		if err != nil || !sameSet(got.Groups, wantGroups) || !bytes.Equal(got.WrappedDEK, dek) {
			c.Violate("changed-sealed", "the unsealed access is %q, %v instead of %q after the access that was sealed, or an earlier result, was changed", keysOf(got.Groups), err, keysOf(wantGroups))
		}
		g.done("SealedAccess.Unseal")
		if err == nil {
			g.resultSet("SealedAccess.Unseal", got.Groups)
			g.result("SealedAccess.Unseal", got.WrappedDEK)
		}
	}
	// Tokens
	buf := append([]byte{}, p...)
	t := data.NewToken(buf, time.Hour)
	st := must(t.Seal(&cr))
	g.c.Eval(1)
	if !bytes.Equal(buf, p) {
		c.Violate("modified-argument", "sealing a token changed its plaintext")
	}
	for i := range buf {
		buf[i]++
	}
	str := must(st.String())
	for n := 0; n < 2; n++ {
		arg := data.SealedToken{ExpiryTime: st.ExpiryTime, Ciphertext: g.bytes("ciphertext", st.Ciphertext), WrappedKey: g.bytes("wrapped key", st.WrappedKey)}
		got, err := arg.Unseal(&cr)
		if err != nil || !bytes.Equal(got.Plaintext, p) {
			c.Violate("changed-sealed", "the unsealed token is %s, %v instead of %s after its plaintext, or an earlier result, was overwritten", kit.Short(got.Plaintext), err, kit.Short(p))
		}
		if s := must(arg.String()); s != str {
			c.Violate("changed-sealed", "the token string changed from %s to %s", str, s)
		}
		g.done("SealedToken.Unseal, String")
		g.result("SealedToken.Unseal", got.Plaintext)
		parsed := must(data.TokenFromString(str))
		if !bytes.Equal(parsed.Ciphertext, st.Ciphertext) {
			c.Violate("changed-sealed", "TokenFromString gives other contents after an earlier result was overwritten")
		}
		for _, b := range [][]byte{parsed.Ciphertext, parsed.WrappedKey} {
			for i := range b {
				b[i] = 0
			}
		}
	}
	// Nodes
	label := kit.Bytes(r, 32)
	node := data.Node{Identifier: kit.String(r), NextCounter: r.Uint64()}
	sn := must(node.Seal(g.bytes("label", label), &cr))
	g.done("Node.Seal")
	want := node
	node = data.Node{}
	arg := data.SealedNode{Ciphertext: g.bytes("ciphertext", sn.Ciphertext), WrappedKey: g.bytes("wrapped key", sn.WrappedKey)}
	got, err := arg.Unseal(g.bytes("label", label), &cr)
	g.done("SealedNode.Unseal")
	if err != nil || got != want {
		c.Violate("changed-sealed", "the unsealed node is %+v, %v instead of %+v", got, err, want)
	}
	// Scopes
	var scopes []id.Scope
	var union id.Scope
	for n := r.IntN(6); n > 0; n-- {
		s := id.Scope(1) << r.IntN(12)
		scopes = append(scopes, s)
		union |= s
	}
	if got := id.ScopeUnion(g.scopes("scopes", scopes)...); got != union {
		c.Violate("scopes", "ScopeUnion(%v) = %v", scopes, got)
	}
	g.done("ScopeUnion")
	g.end()
}
