package checks

import (
	"fmt"
	"strings"
	"testing"
	"unicode/utf8"

	"github.com/gofrs/uuid"

	d1 "github.com/cybercryptio/d1-lib/v2"
	"github.com/cybercryptio/d1-lib/v2/id"

	"verif/harness/kit"
)

// C03: access lists contain exactly the acknowledged grants, effective at once.
func TestC03(t *testing.T) {
	kit.Run(t, "C03", "exploration", "An evaluation is one comparison of an object's access list, or of the access of one caller, with a set model of the history. Non-trivial: distinct (provider, expected list, caller).", func(c *kit.C) {
		n := c.N(1600, 16000)
		c.Parallel("history", n, func(i int) { c03History(c, i) })
		c03Large(c)
		c03Invalid(c)
		c.Require("list_changes", 500)
		c.Require("empty_lists", 5)
	})
}

func c03History(c *kit.C, i int) {
	r := c.Rand("history", i)
	prov := providers[i%len(providers)]
	ids := kit.NewIDs()
	k := kit.NewKeys(r)
	store := prov.make()
	ds := []*d1.D1{kit.NewD1(k, store, ids), kit.NewD1(k, store, ids)}

	// Callers: users on their own, and users who come by a group.
	var names []string
	seen := map[string]bool{"stranger": true}
	for len(names) < 7 {
		s := kit.String(r)
		if !seen[s] {
			seen[s] = true
			names = append(names, s)
		}
	}
	type caller struct{ tok, as string }
	var callers []caller
	for _, n := range names {
		callers = append(callers, caller{ids.User(n, id.ScopeAll), n})
	}
	for j, n := range names[:4] {
		callers = append(callers, caller{ids.User(fmt.Sprint("member", j), id.ScopeAll, id.AccessGroup{ID: n, Scopes: id.ScopeAll}), n})
	}

	type object struct {
		oid  uuid.UUID
		list map[string]struct{}
	}
	var objs []*object
	tr := &trail{}
	randNames := func(max int) []string {
		var out []string
		for n := r.IntN(max + 1); n > 0; n-- {
			switch r.IntN(5) {
			case 0:
				out = append(out, kit.String(r))
			default:
				out = append(out, kit.Pick(r, names))
			}
		}
		if len(out) > 1 && r.IntN(6) == 0 {
			out = append(out, out[0])
		}
		return out
	}
	verify := func(o *object) {
		read := false
		for _, x := range callers {
			d := kit.Pick(r, ds)
			_, want := o.list[x.as]
			err := d.AuthorizeIdentity(ctx, x.tok, o.oid)
			c.Case(prov.name, keysOf(o.list), x.as, x.tok)
			if (err == nil) != want {
				c.Violate("access", "%s: %q has access: %v (%v), expected %v with access list %q of %s\n%s", prov.name, x.as, err == nil, err, want, keysOf(o.list), o.oid, tr)
			}
			if want && !read {
				read = true
				g, err := d.GetAccessGroups(ctx, x.tok, o.oid)
				c.Case(prov.name, keysOf(o.list))
				if err != nil || !sameSet(g, o.list) {
					c.Violate("list", "%s: the access list of %s is %q, %v; expected %q\n%s", prov.name, o.oid, keysOf(g), err, keysOf(o.list), tr)
				}
				// Changing the result changes nothing.
				if err == nil {
					g["intruder"] = struct{}{}
					for _, n := range names {
						delete(g, n)
					}
				}
			}
		}
		if len(o.list) == 0 {
			c.Count("empty_lists", 1)
		}
	}
	for s := 0; s < 90 && !c.Full(); s++ {
		d := kit.Pick(r, ds)
		x := kit.Pick(r, callers)
		op := r.IntN(10)
		if len(objs) == 0 || len(objs) < 6 && op == 0 {
			g := randNames(4)
			me := callers[r.IntN(len(names))]
			oid, err := d.Encrypt(ctx, me.tok, obj([]byte("x"), nil), g...)
			if err != nil {
				c.Violate("encrypt-failed", "Encrypt failed: %v", err)
				return
			}
			tr.add("%s = Encrypt by %q with groups %q", oid, me.as, g)
			o := &object{oid, set(append(append([]string{}, g...), me.as)...)}
			objs = append(objs, o)
			verify(o)
			continue
		}
		o := kit.Pick(r, objs)
		_, allowed := o.list[x.as]
		for try := 0; try < 3 && !allowed; try++ { // mostly somebody who has access
			x = kit.Pick(r, callers)
			_, allowed = o.list[x.as]
		}
		var err error
		var name string
		switch {
		case op < 5:
			g := randNames(5)
			name = fmt.Sprintf("AddGroupsToAccess %q", g)
			err = d.AddGroupsToAccess(ctx, x.tok, o.oid, g...)
			if allowed {
				for _, y := range g {
					o.list[y] = struct{}{}
				}
				c.Count("list_changes", 1)
			}
		case op < 8:
			g := randNames(4)
			if r.IntN(12) == 0 {
				g = append(keysOf(o.list), "stranger")
			}
			name = fmt.Sprintf("RemoveGroupsFromAccess %q", g)
			err = d.RemoveGroupsFromAccess(ctx, x.tok, o.oid, g...)
			if allowed {
				for _, y := range g {
					delete(o.list, y)
				}
				c.Count("list_changes", 1)
			}
		case op == 8:
			name = "Update"
			err = d.Update(ctx, x.tok, o.oid, obj([]byte(fmt.Sprint(s)), nil))
		default:
			name = "Decrypt"
			_, err = d.Decrypt(ctx, x.tok, o.oid)
		}
		tr.add("%s of %s by %q: %v", name, o.oid, x.as, err)
		if (err == nil) != allowed {
			c.Violate("access", "%s: %s of %s by %q returned %v, access expected: %v\n%s", prov.name, name, o.oid, x.as, err, allowed, tr)
			return
		}
		verify(o)
		if r.IntN(5) == 0 {
			for _, o := range objs {
				verify(o)
			}
		}
	}
	c.Sample("%s: %v", prov.name, tr.lines[max(0, len(tr.lines)-4):])
}

// c03Large has long lists and long IDs.
func c03Large(c *kit.C) {
	ids := kit.NewIDs()
	d := kit.NewD1(kit.NewKeys(c.Rand("large")), kit.NewStore(), ids)
	tok := ids.User("u", id.ScopeAll)
	for _, n := range []int{100, 5000} {
		var gs []string
		for i := 0; i < n; i++ {
			gs = append(gs, fmt.Sprintf("group-%d", i))
		}
		gs = append(gs, strings.Repeat("x", 100*n), strings.Repeat("x", 100*n-1))
		prep(c, func() {
			oid := must(d.Encrypt(ctx, tok, obj(nil, nil), gs[:n/2]...))
			must0(d.AddGroupsToAccess(ctx, tok, oid, gs[n/2:]...))
			want := set(append([]string{"u"}, gs...)...)
			check := func() {
				g, err := d.GetAccessGroups(ctx, tok, oid)
				c.Case("large", n, len(want))
				if err != nil || !sameSet(g, want) {
					c.Violate("list", "an access list of %d entries came back with %d entries, %v", len(want), len(g), err)
				}
			}
			check()
			for _, i := range []int{0, 1, n / 2, n - 1, n} {
				must0(d.RemoveGroupsFromAccess(ctx, tok, oid, gs[i]))
				delete(want, gs[i])
				check()
			}
			must0(d.RemoveGroupsFromAccess(ctx, tok, oid, gs[:n-1]...))
			for _, g := range gs[:n-1] {
				delete(want, g)
			}
			check()
		})
	}
	// All the spellings of a name.
	c.Parallel("spellings", len(kit.VariantBases), func(i int) {
		prep(c, func() {
			vs := kit.Variants(kit.VariantBases[i])
			oid := must(d.Encrypt(ctx, tok, obj(nil, nil), vs[:len(vs)/2]...))
			must0(d.AddGroupsToAccess(ctx, tok, oid, vs[len(vs)/2:]...))
			want := set(append([]string{"u"}, vs...)...)
			check := func(what string) {
				g, err := d.GetAccessGroups(ctx, tok, oid)
				c.Case("spellings", i, what)
				if err != nil || !sameSet(g, want) {
					c.Violate("list", "%s: the access list is %q, %v; expected %q", what, keysOf(g), err, keysOf(want))
				}
			}
			check("all the spellings")
			must0(d.RemoveGroupsFromAccess(ctx, tok, oid, vs[0]))
			delete(want, vs[0])
			check(fmt.Sprintf("after the removal of %q", vs[0]))
			must0(d.AddGroupsToAccess(ctx, tok, oid, vs[0]))
			must0(d.RemoveGroupsFromAccess(ctx, tok, oid, vs[1:]...))
			want = set("u", vs[0])
			check(fmt.Sprintf("after the removal of all the spellings but %q", vs[0]))
		})
	})
	// Every name at once, so that merging any two shows.
	prep(c, func() {
		oid := must(d.Encrypt(ctx, tok, obj(nil, nil), kit.Strings...))
		want := set(append([]string{"u"}, kit.Strings...)...)
		for i, s := range kit.Strings {
			g, err := d.GetAccessGroups(ctx, tok, oid)
			c.Case("all", i)
			if err != nil || !sameSet(g, want) {
				c.Violate("list", "the access list is %q, %v; expected %q", keysOf(g), err, keysOf(want))
				return
			}
			must0(d.RemoveGroupsFromAccess(ctx, tok, oid, s))
			delete(want, s)
		}
	})
}

// c03Invalid uses IDs that are not valid UTF-8. A known finding is that each of them is stored with
// every invalid byte replaced by U+FFFD.
func c03Invalid(c *kit.C) {
	ids := kit.NewIDs()
	d := kit.NewD1(kit.NewKeys(c.Rand("invalid")), kit.NewStore(), ids)
	tok := ids.User("u", id.ScopeAll)
	for _, a := range []string{"\xff", "\xfe", "a\xffb", "\xc3", "\xe6\xbc", "\xed\xa0\x80", "x\x80", "\xc0\x80"} {
		prep(c, func() {
			oid := must(d.Encrypt(ctx, tok, obj(nil, nil), a))
			g := must(d.GetAccessGroups(ctx, tok, oid))
			c.Case("invalid", a)
			if sameSet(g, set("u", a)) {
				return
			}
			if sameSet(g, set("u", replaced(a))) {
				c.Violate("non-utf8-id-replaced", "group ID %q came back as %q", a, keysOf(g))
				return
			}
			c.Violate("list", "the access list made from %q is %q", a, keysOf(g))
		})
	}
}

// replaced has every invalid byte replaced by U+FFFD.
func replaced(s string) string {
	var b strings.Builder
	for len(s) > 0 {
		r, n := utf8.DecodeRuneInString(s)
		b.WriteRune(r)
		s = s[n:]
	}
	return b.String()
}
