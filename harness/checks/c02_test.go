package checks

import (
	"errors"
	"fmt"
	"math/rand/v2"
	"strings"
	"testing"

	"github.com/gofrs/uuid"

	d1 "github.com/cybercryptio/d1-lib/v2"
	"github.com/cybercryptio/d1-lib/v2/data"
	"github.com/cybercryptio/d1-lib/v2/id"
	"github.com/cybercryptio/d1-lib/v2/index"

	"verif/harness/kit"
)

// C02: operations succeed exactly for callers with the scope and access they need.

type c02Group struct {
	in     bool // in the access list
	scopes id.Scope
}

func TestC02(t *testing.T) {
	kit.Run(t, "C02", "exploration", "An evaluation is one call compared with the decision of the access rules and, if it succeeded, checked for its effect. Non-trivial: distinct (operation, caller's scopes, membership of the caller's IDs in the access list, scopes of the caller's groups, names).", func(c *kit.C) {
		c02Matrix(c)
		c02Plain(c)
		c02Names(c)
		c02Spellings(c)
		c02Changing(c)
		c02Provider(c)
		c02Many(c)
		c02Unusual(c)
		c.Require("allowed", 5000)
		c.Require("denied", 5000)
	})
}

func c02Env(c *kit.C, label any) (*kit.IDs, *kit.Store, *d1.D1, string) {
	ids := kit.NewIDs()
	st := kit.NewStore()
	d := kit.NewD1(kit.NewKeys(c.Rand("keys", label)), st, ids)
	return ids, st, d, ids.User("owner", id.ScopeAll)
}

// c02Call calls an object operation on a fresh object and judges it.
func c02Call(c *kit.C, d *d1.D1, ids *kit.IDs, st *kit.Store, owner string, op objectOp, own id.Scope, ownIn bool, uid string, gids []string, groups []c02Group) {
	list := []string{"removable", "somebody"}
	var gs []id.AccessGroup
	if ownIn {
		list = append(list, uid)
	}
	want := own.Contains(op.scope) && ownIn
	for i, g := range groups {
		if g.in {
			list = append(list, gids[i])
			if own.Contains(op.scope) && g.scopes.Contains(op.scope) {
				want = true
			}
		}
		gs = append(gs, id.AccessGroup{ID: gids[i], Scopes: g.scopes})
	}
	tok := ids.User(uid, own, gs...)
	prep(c, func() {
		oid, groupSet := mkObject(d, owner, "owner", list...)
		got, err := op.run(d, tok, oid)
		desc := func() string {
			s := fmt.Sprintf("%s by %q with scopes %s, access list %q", op.name, uid, scopeText(own), list)
			for i, g := range groups {
				s += fmt.Sprintf(", member of %q with scopes %s", gids[i], scopeText(g.scopes))
			}
			return s
		}
		c.Case(op.name, uint64(own), ownIn, groups, uid, gids)
		c02Judge(c, want, got, err, desc)
		if s := expectAfter(op, want, got, d, owner, oid, groupSet); s != "" && (err == nil) == want {
			c.Violate("effect:"+op.name, "%s: %s", desc(), s)
		}
		d.Delete(ctx, owner, oid)
	})
	if n := st.Len(); n > 10000 {
		panic("the store grows")
	}
}

func c02Judge(c *kit.C, want bool, got string, err error, desc func() string) {
	if want {
		c.Count("allowed", 1)
		if err != nil {
			c.Violate("refused", "%s: refused with %v although all requirements are met", desc(), err)
		}
		return
	}
	c.Count("denied", 1)
	switch {
	case err == nil:
		c.Violate("allowed", "%s: allowed (%s) although the requirements are not met", desc(), got)
	case !errors.Is(err, d1.ErrNotAuthorized):
		c.Violate("wrong-error", "%s: failed with %q instead of the not-authorized error", desc(), err)
	}
}

// c02Matrix enumerates all combinations of scopes with all memberships.
func c02Matrix(c *kit.C) {
	type groupsCase struct{ gs func(op objectOp) []c02Group }
	fixed := func(gs ...c02Group) groupsCase { return groupsCase{func(objectOp) []c02Group { return gs }} }
	cases := []groupsCase{
		fixed(),
		fixed(c02Group{true, id.ScopeAll}),
		fixed(c02Group{true, id.ScopeNone}),
		fixed(c02Group{false, id.ScopeAll}),
		{func(op objectOp) []c02Group { return []c02Group{{true, op.scope}} }},
		{func(op objectOp) []c02Group { return []c02Group{{true, id.ScopeAll &^ op.scope}} }},
		{func(op objectOp) []c02Group { return []c02Group{{true, id.ScopeAll &^ op.scope}, {false, id.ScopeAll}} }},
		{func(op objectOp) []c02Group {
			return []c02Group{{false, op.scope}, {true, id.ScopeNone}, {false, id.ScopeAll}}
		}},
		{func(op objectOp) []c02Group {
			return []c02Group{{true, id.ScopeAll &^ op.scope}, {true, op.scope}, {true, id.ScopeNone}}
		}},
	}
	c.Parallel("matrix", 512, func(s int) {
		ids, st, d, owner := c02Env(c, s)
		own := id.Scope(s)
		for _, op := range objectOps {
			for _, ownIn := range []bool{false, true} {
				for _, gc := range cases {
					c02Call(c, d, ids, st, owner, op, own, ownIn, "caller", []string{"g1", "g2", "g3"}, gc.gs(op))
				}
			}
			// All scopes of one group that is in the list, for a caller who has all or just the one.
			for _, o := range []id.Scope{id.ScopeAll, op.scope} {
				c02Call(c, d, ids, st, owner, op, o, false, "caller", []string{"g1"}, []c02Group{{true, own}})
				c02Call(c, d, ids, st, owner, op, o, false, "caller", []string{"g1", "g2"}, []c02Group{{true, own}, {false, id.ScopeAll}})
			}
		}
	})
	// Random ones, with other bits and more groups.
	n := c.N(240, 3000)
	c.Parallel("random", n, func(i int) {
		r := c.Rand("random", i)
		ids, st, d, owner := c02Env(c, fmt.Sprint("random", i))
		for j := 0; j < 500 && !c.Full(); j++ {
			op := kit.Pick(r, objectOps)
			var gs []c02Group
			var gids []string
			used := map[string]bool{"owner": true, "removable": true, "somebody": true, "added": true}
			name := func() string {
				for {
					s := kit.String(r)
					if !used[s] {
						used[s] = true
						return s
					}
				}
			}
			uid := name()
			for k := r.IntN(8); k > 0; k-- {
				gs = append(gs, c02Group{r.IntN(2) == 0, c02Scope(r, op)})
				gids = append(gids, name())
			}
			ownIn := r.IntN(3) == 0
			if len(gs) > 0 && r.IntN(4) == 0 { // a group that is called like the caller
				k := r.IntN(len(gs))
				gids[k] = uid
				// It is in the access list if the caller is, and adds nothing to that.
				gs[k].in = ownIn
			}
			c02Call(c, d, ids, st, owner, op, c02Scope(r, op), ownIn, uid, gids, gs)
		}
	})
}

func c02Scope(r *rand.Rand, op objectOp) id.Scope {
	switch r.IntN(8) {
	case 0:
		return id.ScopeAll
	case 1:
		return op.scope
	case 2:
		return id.ScopeAll &^ op.scope
	case 3:
		return id.Scope(r.Uint64()) &^ op.scope
	case 4:
		return ^id.Scope(0) &^ op.scope
	case 5:
		return id.Scope(r.Uint64()) | op.scope
	default:
		return id.Scope(r.Uint64())
	}
}

// c02Plain covers the operations that need no access list: Encrypt, the index, and operations on
// objects that do not exist.
func c02Plain(c *kit.C) {
	r := c.Rand("plain")
	ids, st, d, owner := c02Env(c, "plain")
	ix := kit.NewIndex(kit.NewKeys(r), st, ids)
	judge := func(name string, need, own id.Scope, got string, err error) {
		c.Case(name, uint64(own))
		desc := func() string { return fmt.Sprintf("%s with scopes %s", name, scopeText(own)) }
		want := own.Contains(need)
		if name[0] == 'i' {
			if want && err != nil {
				c.Violate("refused", "%s: refused with %v", desc(), err)
			} else if !want && err == nil {
				c.Violate("allowed", "%s: allowed (%s)", desc(), got)
			} else if !want && !errors.Is(err, index.ErrNotAuthorized) {
				c.Violate("wrong-error", "%s: failed with %v instead of the not-authorized error", desc(), err)
			}
			return
		}
		c02Judge(c, want, got, err, desc)
	}
	var scopes []id.Scope
	for s := 0; s < 512; s++ {
		scopes = append(scopes, id.Scope(s), id.Scope(s)|id.Scope(r.Uint64()<<9))
	}
	for i, own := range scopes {
		var gs []id.AccessGroup
		if i%3 > 0 { // scopes of groups do not replace one's own
			gs = append(gs, id.AccessGroup{ID: "g", Scopes: id.ScopeAll})
		}
		tok := ids.User("caller", own, gs...)
		oid, err := d.Encrypt(ctx, tok, obj([]byte("x"), nil), "owner")
		got := ""
		if oid != uuid.Nil {
			got = oid.String()
		}
		judge("Encrypt", id.ScopeEncrypt, own, got, err)
		if err == nil {
			if o, err := d.Decrypt(ctx, owner, oid); err != nil || string(o.Plaintext) != "x" {
				c.Violate("effect:Encrypt", "an object by a caller with scopes %s does not decrypt: %v", scopeText(own), err)
			}
			d.Delete(ctx, owner, oid)
		}
		kw := fmt.Sprint("kw", i)
		err = ix.Add(ctx, tok, kw, "x")
		judge("index Add", id.ScopeIndex, own, "", err)
		res, err2 := ix.Search(ctx, tok, kw)
		judge("index Search", id.ScopeIndex, own, fmt.Sprint(res), err2)
		if err == nil && err2 == nil && !sameStrings(res, []string{"x"}) {
			c.Violate("effect:index", "Search after Add returned %q", res)
		}
		judge("index Delete", id.ScopeIndex, own, "", ix.Delete(ctx, tok, kw, "x"))
		for _, op := range objectOps {
			missing := newUUID(r)
			if i%7 == 0 {
				missing = uuid.Nil
			}
			got, err := op.run(d, tok, missing)
			c.Case("missing", op.name, uint64(own))
			switch {
			case !own.Contains(op.scope):
				if !errors.Is(err, d1.ErrNotAuthorized) {
					c.Violate("wrong-error", "%s on a missing object with scopes %s: %v, %s", op.name, scopeText(own), err, got)
				}
			case op.name == "Delete":
				if err != nil {
					c.Violate("refused", "Delete of a missing object failed with %v", err)
				}
			case err == nil:
				c.Violate("allowed", "%s on a missing object succeeded: %s", op.name, got)
			}
		}
	}
}

// c02Names has an entry in the access list that is almost the caller's ID.
func c02Names(c *kit.C) {
	names := append([]string{}, kit.Strings...)
	r := c.Rand("names")
	for i := 0; i < 20; i++ {
		names = append(names, kit.String(r))
	}
	long := make([]byte, 3000)
	for i := range long {
		long[i] = 'x'
	}
	names = append(names, string(long), string(long[1:]), string(long[:2999])+"y")
	seen := map[string]bool{}
	var list []string
	for _, n := range names {
		if !seen[n] {
			seen[n] = true
			list = append(list, n)
		}
	}
	c.Parallel("names", len(list), func(i int) {
		ids, _, d, owner := c02Env(c, fmt.Sprint("names", i))
		entry := list[i]
		if entry == "owner" {
			return
		}
		prep(c, func() {
			oid, _ := mkObject(d, owner, "owner", entry)
			all, err := d.Encrypt(ctx, owner, obj([]byte(oldPlain), nil), append(append([]string{}, list[:i]...), list[i+1:]...)...)
			must0(err)
			for j, name := range list {
				for _, asGroup := range []bool{false, true} {
					tok := ids.User(name, id.ScopeAll)
					if asGroup {
						tok = ids.User("member", id.ScopeAll, id.AccessGroup{ID: name, Scopes: id.ScopeDecrypt})
					}
					c.Case("name", entry, "|", name, asGroup)
					for what, x := range map[string]struct {
						oid  uuid.UUID
						want bool
					}{fmt.Sprintf("access list %q", entry): {oid, i == j}, fmt.Sprintf("all but %q in the access list", entry): {all, i != j}} {
						o, err := d.Decrypt(ctx, tok, x.oid)
						c02Judge(c, x.want, gotObj(o), err, func() string {
							return fmt.Sprintf("Decrypt by %q (as a group: %v), %s", name, asGroup, what)
						})
					}
				}
			}
		})
	})
}

// c02Spellings has callers whose ID is another spelling of an entry, or that of one which is missing.
func c02Spellings(c *kit.C) {
	c.Parallel("spellings", len(kit.VariantBases), func(i int) {
		ids, _, d, owner := c02Env(c, fmt.Sprint("spellings", i))
		prep(c, func() {
			vs := kit.Variants(kit.VariantBases[i])
			one, _ := mkObject(d, owner, "owner", vs[0])
			all := must(d.Encrypt(ctx, owner, obj([]byte(oldPlain), nil), vs[1:]...))
			for j, name := range vs {
				for _, asGroup := range []bool{false, true} {
					tok := ids.User(name, id.ScopeAll)
					if asGroup {
						tok = ids.User("member", id.ScopeAll, id.AccessGroup{ID: name, Scopes: id.ScopeDecrypt})
					}
					c.Case("spelling", vs[0], "|", name, asGroup)
					o, err := d.Decrypt(ctx, tok, one)
					c02Judge(c, j == 0, gotObj(o), err, func() string {
						return fmt.Sprintf("Decrypt by %q (as a group: %v), access list %q", name, asGroup, vs[0])
					})
					o, err = d.Decrypt(ctx, tok, all)
					c02Judge(c, j != 0, gotObj(o), err, func() string {
						return fmt.Sprintf("Decrypt by %q (as a group: %v), all the spellings but %q in the access list", name, asGroup, vs[0])
					})
				}
			}
		})
	})
}

// c02Changing keeps one instance and its objects, and changes what tokens stand for and the access
// lists between the calls: only the present counts.
func c02Changing(c *kit.C) {
	n := c.N(240, 2400)
	c.Parallel("changing", n, func(i int) {
		r := c.Rand("changing", i)
		ids, st, d, owner := c02Env(c, fmt.Sprint("changing", i))
		d2 := kit.NewD1(kit.NewKeys(c.Rand("keys", fmt.Sprint("changing", i))), st, ids)
		type user struct {
			id     string
			scopes id.Scope
			groups map[string]id.Scope
			auth   bool
		}
		gids := []string{"g0", "g1", "g2"}
		uids := []string{"u0", "u1"}
		toks := []string{"token0", "token1", "token2"}
		cur := map[string]*user{}
		change := func(tok string) {
			u := cur[tok]
			if u == nil || r.IntN(6) == 0 {
				u = &user{id: kit.Pick(r, uids), groups: map[string]id.Scope{}, auth: true}
				cur[tok] = u
			}
			switch r.IntN(4) {
			case 0:
				u.auth = r.IntN(4) > 0
			case 1:
				u.scopes ^= 1 << r.IntN(9)
			case 2:
				u.scopes = c02Scope(r, kit.Pick(r, objectOps))
			case 3:
				g := kit.Pick(r, gids)
				if _, ok := u.groups[g]; ok && r.IntN(2) == 0 {
					delete(u.groups, g)
				} else {
					u.groups[g] = c02Scope(r, kit.Pick(r, objectOps))
				}
			}
			ident := id.Identity{ID: u.id, Scopes: u.scopes, Groups: map[string]id.AccessGroup{}}
			for g, s := range u.groups {
				ident.Groups[g] = id.AccessGroup{ID: g, Scopes: s}
			}
			if u.auth {
				ids.Set(tok, ident)
			} else {
				ids.SetFunc(tok, func() (id.Identity, error) { return ident, errors.New("revoked") })
			}
		}
		for _, tok := range toks {
			cur[tok] = &user{id: "u0", groups: map[string]id.Scope{}, auth: true}
			change(tok)
		}
		prep(c, func() {
			oid, list := mkObject(d, owner, "owner", "g0", "u0", "removable")
			for s := 0; s < 400 && !c.Full(); s++ {
				tok := kit.Pick(r, toks)
				if r.IntN(2) == 0 {
					change(tok)
				}
				inst := d
				if r.IntN(2) == 0 {
					inst = d2
				}
				if r.IntN(4) == 0 {
					e := kit.Pick(r, append(append([]string{}, gids...), uids...))
					if _, ok := list[e]; ok {
						must0(inst.RemoveGroupsFromAccess(ctx, owner, oid, e))
						delete(list, e)
					} else {
						must0(inst.AddGroupsToAccess(ctx, owner, oid, e))
						list[e] = struct{}{}
					}
				}
				u := cur[tok]
				op := kit.Pick(r, objectOps)
				_, in := list[u.id]
				want := in
				for g, sc := range u.groups {
					if _, in := list[g]; in && sc.Contains(op.scope) {
						want = true
					}
				}
				want = want && u.scopes.Contains(op.scope)
				desc := func() string {
					return fmt.Sprintf("step %d: %s by %q (authenticated: %v) with scopes %s and groups %v, access list %q", s, op.name, u.id, u.auth, scopeText(u.scopes), u.groups, keysOf(list))
				}
				got, err := op.run(inst, tok, oid)
				c.Case("changing", op.name, u.auth, uint64(u.scopes), u.groups, keysOf(list), u.id)
				if !u.auth {
					if !errors.Is(err, d1.ErrNotAuthenticated) {
						c.Violate("not-authenticated", "%s: %v, %s", desc(), err, got)
					}
					want = false
				} else {
					c02Judge(c, want, got, err, desc)
				}
				if err == nil && want {
					switch op.name {
					case "Delete":
						oid, list = mkObject(d, owner, "owner", "g0", "u0", "removable")
					case "AddGroupsToAccess":
						list["added"] = struct{}{}
					case "RemoveGroupsFromAccess":
						delete(list, "removable")
					}
				}
			}
		})
	})
}

// c02Provider has the Identity Provider fail in various ways.
func c02Provider(c *kit.C) {
	ids, st, d, owner := c02Env(c, "provider")
	ix := kit.NewIndex(kit.NewKeys(c.Rand("provider")), st, ids)
	all := id.Identity{ID: "owner", Scopes: id.ScopeAll, Groups: map[string]id.AccessGroup{"g": {ID: "g", Scopes: id.ScopeAll}}}
	for i, e := range []error{errors.New("x"), d1.ErrNotAuthorized, d1.ErrNotAuthenticated, index.ErrNotAuthorized, id.ErrUserNotFound, id.ErrNotAuthorized, fmt.Errorf("wrapped: %w", d1.ErrNotAuthorized), d1.ErrAccessNotFound} {
		for _, ident := range []id.Identity{{}, all} {
			ids.SetFunc("bad", func() (id.Identity, error) { return ident, e })
			prep(c, func() {
				oid, _ := mkObject(d, owner, "owner", "g")
				for _, x := range []uuid.UUID{oid, uuid.Nil} {
					for _, op := range objectOps {
						got, err := op.run(d, "bad", x)
						c.Case("provider", i, ident.ID, op.name, x == oid)
						if !errors.Is(err, d1.ErrNotAuthenticated) {
							c.Violate("not-authenticated", "%s with a provider that fails with %q: %v, %s", op.name, e, err, got)
						}
					}
				}
				if _, err := d.Encrypt(ctx, "bad", obj(nil, nil)); !errors.Is(err, d1.ErrNotAuthenticated) {
					c.Violate("not-authenticated", "Encrypt with a provider that fails with %q: %v", e, err)
				}
				if err := ix.Add(ctx, "bad", "k", "v"); !errors.Is(err, index.ErrNotAuthenticated) {
					c.Violate("not-authenticated", "index Add with a provider that fails with %q: %v", e, err)
				}
				if _, err := ix.Search(ctx, "bad", "k"); !errors.Is(err, index.ErrNotAuthenticated) {
					c.Violate("not-authenticated", "index Search with a provider that fails with %q: %v", e, err)
				}
				if err := ix.Delete(ctx, "bad", "k", "v"); !errors.Is(err, index.ErrNotAuthenticated) {
					c.Violate("not-authenticated", "index Delete with a provider that fails with %q: %v", e, err)
				}
				if s := expectAfter(objectOps[0], false, "", d, owner, oid, set("g", "owner")); s != "" {
					c.Violate("effect", "after refused calls: %s", s)
				}
			})
		}
	}
}

// c02Many has callers with many groups, of which one decides.
func c02Many(c *kit.C) {
	sizes := []int{10, 33, 65, 129, 300, 1025}
	c.Parallel("many groups", len(sizes)*c.N(3, 40), func(i int) {
		ids, st, d, owner := c02Env(c, fmt.Sprint("many", i))
		r := c.Rand("many groups", i)
		n := sizes[i%len(sizes)]
		for _, op := range objectOps {
			for _, kind := range []string{"one", "one without the scope", "none", "all without the scope", "one of all"} {
				gids := make([]string, n)
				groups := make([]c02Group, n)
				at := kit.Pick(r, []int{0, n - 1, r.IntN(n)})
				for j := range gids {
					gids[j] = fmt.Sprintf("group %04d", j)
					g := c02Group{scopes: id.ScopeAll}
					switch {
					case kind == "one" && j == at:
						g = c02Group{true, op.scope}
					case kind == "one without the scope" && j == at:
						g = c02Group{true, id.ScopeAll &^ op.scope}
					case kind == "all without the scope", kind == "one of all" && j != at:
						g = c02Group{true, id.ScopeAll &^ op.scope}
					case kind == "one of all":
						g = c02Group{true, op.scope}
					}
					groups[j] = g
				}
				c02Call(c, d, ids, st, owner, op, id.ScopeAll, false, "caller", gids, groups)
			}
		}
	})
}

// c02Unusual calls operations with arguments that leave them nothing or little to do, and with unusual
// tokens. Whether a caller may call does not depend on that.
func c02Unusual(c *kit.C) {
	type call struct {
		name  string
		scope id.Scope
		run   func(d *d1.D1, tok string, oid uuid.UUID) error
	}
	var calls []call
	long := strings.Repeat("long", 30000)
	for _, gs := range [][]string{nil, {}, {""}, {"owner"}, {"g"}, {"owner", "owner"}, {"x", "x"}, {"not there"}, {"", "", ""}, {long}, make([]string, 300), {"u"}} {
		calls = append(calls,
			call{fmt.Sprintf("AddGroupsToAccess of %.40q", gs), id.ScopeModifyAccessGroups, func(d *d1.D1, tok string, oid uuid.UUID) error {
				return d.AddGroupsToAccess(ctx, tok, oid, gs...)
			}},
			call{fmt.Sprintf("RemoveGroupsFromAccess of %.40q", gs), id.ScopeModifyAccessGroups, func(d *d1.D1, tok string, oid uuid.UUID) error {
				return d.RemoveGroupsFromAccess(ctx, tok, oid, gs...)
			}})
	}
	for _, o := range []*data.Object{{}, obj([]byte{}, []byte{}), obj([]byte("content"), []byte("ad")), obj([]byte("content"), nil), obj(nil, []byte("ad")), obj([]byte(long), []byte(long))} {
		calls = append(calls, call{fmt.Sprintf("Update to %.40q, %.40q", o.Plaintext, o.AssociatedData), id.ScopeUpdate, func(d *d1.D1, tok string, oid uuid.UUID) error {
			return d.Update(ctx, tok, oid, o)
		}})
	}
	for _, op := range objectOps {
		calls = append(calls, call{op.name, op.scope, func(d *d1.D1, tok string, oid uuid.UUID) error {
			_, err := op.run(d, tok, oid)
			return err
		}})
	}
	tokens := []string{"plain", "", " ", "\x00", "\n", "null", long, "\xff\xfe", "Bearer plain", "plain ", "owner"}
	c.Parallel("unusual", len(calls), func(i int) {
		ids, st, d, _ := c02Env(c, fmt.Sprint("unusual", i))
		cl := calls[i]
		owner := ids.User("the owner", id.ScopeAll)
		want := func(desc string, err, want error) {
			c.Case("unusual", desc)
			switch {
			case want == nil && err != nil:
				c.Violate("refused", "%s: refused with %v although all requirements are met", desc, err)
			case want != nil && err == nil:
				c.Violate("allowed", "%s: succeeded instead of failing with %q", desc, want)
			case !errors.Is(err, want):
				c.Violate("wrong-error", "%s: failed with %q instead of %q", desc, err, want)
			}
			c.Count(map[bool]string{true: "allowed", false: "denied"}[want == nil], 1)
		}
		for ti, tok := range tokens {
			prep(c, func() {
				oid := must(d.Encrypt(ctx, owner, obj([]byte("content"), []byte("ad")), "g", "u", "v"))
				before := st.Snapshot()
				ids.SetFunc(tok, func() (id.Identity, error) {
					return id.Identity{ID: "u", Scopes: id.ScopeAll}, errors.New("refused")
				})
				who := fmt.Sprintf("%s with the token %.20q ", cl.name, tok)
				want(who+"that is refused", cl.run(d, tok, oid), d1.ErrNotAuthenticated)
				ids.Set(tok, id.Identity{ID: "u", Scopes: id.ScopeAll &^ cl.scope})
				want(who+"without the scope", cl.run(d, tok, oid), d1.ErrNotAuthorized)
				ids.Set(tok, id.Identity{ID: "w", Scopes: id.ScopeAll})
				want(who+"outside of the list", cl.run(d, tok, oid), d1.ErrNotAuthorized)
				ids.Set(tok, id.Identity{ID: "w", Scopes: id.ScopeAll, Groups: map[string]id.AccessGroup{"v": {ID: "v", Scopes: id.ScopeAll &^ cl.scope}}})
				want(who+"by a group without the scope", cl.run(d, tok, oid), d1.ErrNotAuthorized)
				if now := st.Snapshot(); !kit.SameContents(before, now) {
					c.Violate("effect", "%s: refused calls changed the storage: %s", who, kit.DiffContents(before, now))
				}
				if ti%2 == 0 {
					ids.Set(tok, id.Identity{ID: "w", Scopes: id.ScopeAll, Groups: map[string]id.AccessGroup{"v": {ID: "v", Scopes: cl.scope}}})
				} else {
					ids.Set(tok, id.Identity{ID: "u", Scopes: cl.scope})
				}
				want(who+"and all that is needed", cl.run(d, tok, oid), nil)
				d.Delete(ctx, owner, oid)
			})
		}
	})
	// The index.
	type icall struct {
		name string
		run  func(ix *index.SecureIndex, tok string) error
	}
	var icalls []icall
	for _, kw := range []string{"", "kw", "unknown", "\x00", " ", long} {
		icalls = append(icalls, icall{fmt.Sprintf("Search for %.20q", kw), func(ix *index.SecureIndex, tok string) error {
			got, err := ix.Search(ctx, tok, kw)
			if err != nil && len(got) > 0 {
				c.Violate("leaks", "a refused Search returned %q", got)
			}
			return err
		}})
		for _, s := range []string{"", "id", "unknown", "\x00", long} {
			icalls = append(icalls,
				icall{fmt.Sprintf("index Add of %.20q, %.20q", kw, s), func(ix *index.SecureIndex, tok string) error { return ix.Add(ctx, tok, kw, s) }},
				icall{fmt.Sprintf("index Delete of %.20q, %.20q", kw, s), func(ix *index.SecureIndex, tok string) error { return ix.Delete(ctx, tok, kw, s) }})
		}
	}
	c.Parallel("unusual index", len(icalls), func(i int) {
		ids, st, _, _ := c02Env(c, fmt.Sprint("unusual index", i))
		ix := kit.NewIndex(kit.NewKeys(c.Rand("unusual index", i)), st, ids)
		cl := icalls[i]
		prep(c, func() {
			must0(ix.Add(ctx, ids.User("adder", id.ScopeIndex), "kw", "id"))
			before := st.Snapshot()
			for _, tok := range tokens {
				ids.SetFunc(tok, func() (id.Identity, error) {
					return id.Identity{ID: "u", Scopes: id.ScopeAll}, errors.New("refused")
				})
				c.Case("unusual index", i, tok, 0)
				if err := cl.run(ix, tok); !errors.Is(err, index.ErrNotAuthenticated) {
					c.Violate("not-authenticated", "%s with the token %.20q that is refused: %v", cl.name, tok, err)
				}
				ids.Set(tok, id.Identity{ID: "u", Scopes: id.ScopeAll &^ id.ScopeIndex, Groups: map[string]id.AccessGroup{"v": {ID: "v", Scopes: id.ScopeIndex}}})
				c.Case("unusual index", i, tok, 1)
				if err := cl.run(ix, tok); !errors.Is(err, index.ErrNotAuthorized) {
					c.Violate("allowed", "%s with the token %.20q without the scope: %v", cl.name, tok, err)
				}
			}
			if now := st.Snapshot(); !kit.SameContents(before, now) {
				c.Violate("effect", "%s: refused calls changed the storage: %s", cl.name, kit.DiffContents(before, now))
			}
			for _, tok := range tokens {
				ids.Set(tok, id.Identity{ID: "u", Scopes: id.ScopeIndex})
				c.Case("unusual index", i, tok, 2)
				if err := cl.run(ix, tok); err != nil {
					c.Violate("refused", "%s with the token %.20q and the scope: %v", cl.name, tok, err)
				}
			}
		})
	})
}
