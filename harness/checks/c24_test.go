package checks

import (
	"errors"
	"fmt"
	"math/rand/v2"
	"sort"
	"strings"
	"testing"

	"github.com/cybercryptio/d1-lib/v2/id"

	"verif/harness/kit"
)

// C24: identities carry exactly the assigned scopes and group memberships.
//
// Random histories of users and groups over several instances on the same storage, some with storage
// faults, are compared with a model after every step.
func TestC24(t *testing.T) {
	kit.Run(t, "C24", "exploration", "An evaluation is one operation on users or groups, or one identity, compared with the model. Non-trivial: distinct (operation, reason for refusal, numbers of groups named and held, fault) and distinct identities.", func(c *kit.C) {
		k := kit.NewKeys(c.Rand("keys"))
		c.Parallel("histories", c.N(120, 3000), func(i int) { prep(c, func() { c24History(c, k, c.Rand("histories", i), i) }) })
		c.Parallel("many", c.N(8, 40), func(i int) { prep(c, func() { c24Many(c, k, c.Rand("many", i), i) }) })
		c.Parallel("spellings", c.N(3, 9), func(i int) { prep(c, func() { c24Spellings(c, k, i) }) })
		c24Scopes(c)
		c.Require("identities", 5000)
		c.Require("refused_not_member", 200)
		c.Require("refused_no_user", 50)
		c.Require("group_changes", 500)
		c.Require("faults", 100)
	})
}

type user24 struct {
	uid, tok, pw string
	scopes       id.Scope
	groups       map[string]struct{}
	exists       bool
}

type model24 struct {
	users  []*user24
	byID   map[string]*user24
	groups map[string]id.Scope
}

func (m *model24) want(u *user24) map[string]id.AccessGroup {
	out := map[string]id.AccessGroup{}
	for g := range u.groups {
		out[g] = id.AccessGroup{ID: g, Scopes: m.groups[g]}
	}
	return out
}

func sameAccessGroups(a, b map[string]id.AccessGroup) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if w, ok := b[k]; !ok || v != w {
			return false
		}
	}
	return true
}

func someScopes(r *rand.Rand) []id.Scope {
	switch r.IntN(8) {
	case 0:
		return nil
	case 1:
		return []id.Scope{id.ScopeAll}
	case 2:
		return []id.Scope{id.ScopeNone}
	case 3:
		return []id.Scope{id.Scope(r.Uint64())}
	}
	var out []id.Scope
	for n := 1 + r.IntN(5); n > 0; n-- {
		s := kit.Pick(r, bitScopes)
		switch r.IntN(12) {
		case 0: // bits that have no meaning yet
			s |= id.Scope(1) << r.IntN(64)
		case 1:
			s = id.Scope(1) << r.IntN(64)
		case 2:
			s |= kit.Pick(r, bitScopes) | kit.Pick(r, bitScopes)
		}
		out = append(out, s)
	}
	return out
}

func union(ss []id.Scope) (u id.Scope) {
	for _, s := range ss {
		u |= s
	}
	return u
}

func c24History(c *kit.C, k kit.Keys, r *rand.Rand, n int) {
	p := providers[n%len(providers)]
	tap := kit.NewTap(p.make())
	tap.Record = false
	var insts []*id.Standalone
	for i := 0; i < 2; i++ {
		insts = append(insts, kit.NewStandalone(k, tap))
	}
	inst := func() *id.Standalone {
		if r.IntN(8) == 0 {
			insts[r.IntN(len(insts))] = kit.NewStandalone(k, tap)
		}
		return insts[r.IntN(len(insts))]
	}
	m := &model24{byID: map[string]*user24{}, groups: map[string]id.Scope{}}
	var gids []string
	var tr trail
	tr.add("provider %s", p.name)
	newUser := func() {
		ss := someScopes(r)
		uid, pw := must2(inst().NewUser(ctx, ss...))
		tok, _ := must2(inst().LoginUser(ctx, uid, pw))
		u := &user24{uid: uid, tok: tok, pw: pw, scopes: union(ss), groups: map[string]struct{}{}, exists: true}
		m.users = append(m.users, u)
		m.byID[uid] = u
		tr.add("NewUser(%v) = %s", ss, uid)
	}
	for i := 0; i < 4; i++ {
		newUser()
	}
	// check compares the identity of a user with the model; alt are other possible sets of groups.
	check := func(u *user24, alt map[string]struct{}) bool {
		got, err := inst().GetIdentity(ctx, u.tok)
		c.Count("identities", 1)
		if !u.exists {
			c.Eval(1)
			if err == nil {
				c.Violate("deleted-user-identified", "the token of the deleted user %s identifies %+v; history:\n%s", u.uid, got, &tr)
				return false
			}
			return true
		}
		if err != nil {
			c.Violate("unable-to-authenticate", "GetIdentity with a valid token of user %s failed: %v; history:\n%s", u.uid, err, &tr)
			return false
		}
		want := m.want(u)
		c.Case("identity", u.scopes, len(want), n)
		if alt != nil && !sameAccessGroups(got.Groups, want) {
			u.groups = alt
			want = m.want(u)
		}
		if got.ID != u.uid || got.Scopes != u.scopes || !sameAccessGroups(got.Groups, want) {
			c.Violate("wrong-identity", "GetIdentity of user %s returned\n%+v instead of scopes %v and groups\n%v; history:\n%s", u.uid, got, u.scopes, want, &tr)
			return false
		}
		var ids []string
		for g := range want {
			ids = append(ids, g)
		}
		ids = append(ids, u.uid)
		if s := got.GetIDs(); !sameSet(s, set(ids...)) {
			c.Violate("wrong-ids", "GetIDs of %+v is %v", got, keysOf(s))
		}
		for _, x := range append(append([]string{}, gids...), u.uid, m.users[0].uid, "", "none") {
			w := id.ScopeNone
			if x == u.uid {
				w = u.scopes
			} else if g, ok := want[x]; ok {
				w = g.Scopes
			}
			if s := got.GetIDScope(x); s != w {
				c.Violate("wrong-scope", "GetIDScope(%q) of %+v is %v instead of %v", x, got, s, w)
			}
		}
		return true
	}
	for step := 0; step < 40; step++ {
		caller := m.users[r.IntN(len(m.users))]
		target := m.users[r.IntN(len(m.users))]
		tok := caller.tok
		callerOK := caller.exists
		if r.IntN(15) == 0 {
			tok, callerOK = kit.Pick(r, []string{"", "x", caller.uid, caller.pw, caller.tok[:len(caller.tok)-4], strings.ToUpper(caller.tok)}), false
		}
		uid := target.uid
		if r.IntN(12) == 0 {
			uid = kit.Pick(r, append([]string{"", "unknown", strings.ToUpper(uid), uid + " "}, gids...))
		}
		tu := m.byID[uid]
		targetOK := tu != nil && tu.exists
		// Storage faults
		h, fctx, cancel := new(hits), ctx, func() {}
		faulty := r.IntN(8) == 0
		arm := func() {
			if faulty {
				h, fctx, cancel = faultIn(r, tap, 6)
			}
		}
		disarm := func() {
			noFaults(tap)
			cancel()
		}
		var err error
		var op string
		var alt map[string]struct{} // what the target's groups may be instead, after a fault
		var changed *user24
		switch x := r.IntN(20); {
		case x == 0:
			newUser()
			continue
		case x < 4: // NewGroup
			ss := someScopes(r)
			arm()
			var gid string
			gid, err = inst().NewGroup(fctx, tok, ss...)
			disarm()
			op = fmt.Sprintf("NewGroup(by %s, %v) = %s, %v (storage %s)", caller.uid, ss, gid, err, h.what)
			tr.add("%s", op)
			c.Case("NewGroup", callerOK, len(caller.groups), h.hit, err == nil)
			if err == nil {
				if _, dup := m.groups[gid]; dup || gid == "" || m.byID[gid] != nil {
					c.Violate("group-id", "NewGroup returned the ID %q, which is in use", gid)
				}
				m.groups[gid] = union(ss)
				gids = append(gids, gid)
				if callerOK {
					caller.groups[gid] = struct{}{}
				}
			} else if h.hit && callerOK {
				// The caller may belong to a new group whose ID it does not know.
				got, e := inst().GetIdentity(ctx, tok)
				if e == nil && h.wrote && len(got.Groups) == len(caller.groups)+1 {
					for g, a := range got.Groups {
						if _, ok := caller.groups[g]; !ok && a.Scopes == union(ss) {
							m.groups[g] = union(ss)
							gids = append(gids, g)
							caller.groups[g] = struct{}{}
						}
					}
				}
			}
			if err == nil && !callerOK {
				c.Violate("unauthenticated", "%s succeeded for an invalid token or deleted user; history:\n%s", op, &tr)
				return
			}
			changed = caller
			targetOK = true
		case x < 16: // Add/Remove
			var list []string
			held := keysOf(caller.groups)
			for n := r.IntN(4); n > 0; n-- {
				if len(held) > 0 && r.IntN(5) > 0 {
					list = append(list, kit.Pick(r, held))
				} else {
					list = append(list, kit.Pick(r, append([]string{caller.uid, uid, "", "none", "null", kit.Pick(r, nearIDs(kit.Pick(r, append(held, caller.uid))))}, gids...)))
				}
			}
			member := true
			for _, g := range list {
				if _, ok := caller.groups[g]; !ok {
					member = false
				}
			}
			after := map[string]struct{}{}
			if targetOK {
				after = copySet(tu.groups)
			}
			add := x < 11
			arm()
			if add {
				err = inst().AddUserToGroups(fctx, tok, uid, list...)
				for _, g := range list {
					after[g] = struct{}{}
				}
			} else {
				err = inst().RemoveUserFromGroups(fctx, tok, uid, list...)
				for _, g := range list {
					delete(after, g)
				}
			}
			disarm()
			op = fmt.Sprintf("%s(by %s, %q, %q) = %v (storage %s)", map[bool]string{true: "AddUserToGroups", false: "RemoveUserFromGroups"}[add], caller.uid, uid, list, err, h.what)
			tr.add("%s", op)
			c.Case(add, callerOK, member, targetOK, len(list), len(caller.groups), h.hit, err == nil)
			c.SampleEvery(fmt.Sprint(add, callerOK, member, targetOK), "%s", op)
			allowed := callerOK && member && targetOK
			switch {
			case err == nil && !allowed:
				c.Violate("not-refused", "%s succeeded (valid caller: %v, member of all: %v, user exists: %v); history:\n%s", op, callerOK, member, targetOK, &tr)
				return
			case err == nil:
				tu.groups = after
				changed = tu
				c.Count("group_changes", 1)
			case h.hit:
				if allowed && h.wrote {
					alt, changed = after, tu
				}
			case allowed:
				c.Violate("wrongly-refused", "%s failed although the caller belongs to all the groups and the user exists; history:\n%s", op, &tr)
			case callerOK && targetOK:
				c.Count("refused_not_member", 1)
				if !errors.Is(err, id.ErrNotAuthorized) {
					c.Violate("wrong-error", "%s instead of ErrNotAuthorized; history:\n%s", op, &tr)
				}
			case callerOK && member:
				c.Count("refused_no_user", 1)
				if !errors.Is(err, id.ErrUserNotFound) {
					c.Violate("wrong-error", "%s instead of ErrUserNotFound; history:\n%s", op, &tr)
				}
			}
		case x < 17: // DeleteUser
			existing := 0
			for _, u := range m.users {
				if u.exists {
					existing++
				}
			}
			if existing < 3 {
				continue
			}
			err = inst().DeleteUser(ctx, tok, uid)
			op = fmt.Sprintf("DeleteUser(by %s, %q) = %v", caller.uid, uid, err)
			tr.add("%s", op)
			c.Case("DeleteUser", callerOK, targetOK, err == nil)
			switch {
			case err == nil && !callerOK:
				c.Violate("unauthenticated", "%s succeeded for an invalid token or deleted user; history:\n%s", op, &tr)
				return
			case err != nil && callerOK && targetOK:
				c.Violate("wrongly-refused", "%s; history:\n%s", op, &tr)
			case err == nil && tu != nil:
				tu.exists = false
				changed = tu
			}
		case x < 18: // a password change keeps everything else
			if !targetOK || tu.pw == "" {
				continue
			}
			npw, e := inst().ChangeUserPassword(ctx, uid, tu.pw)
			must0(e)
			tu.pw = npw
			tr.add("ChangeUserPassword(%s)", uid)
			changed = tu
		default: // GetIdentity with a fault is complete or fails
			faulty = true
			arm()
			got, e := inst().GetIdentity(fctx, caller.tok)
			disarm()
			if e == nil && (!caller.exists || got.ID != caller.uid || got.Scopes != caller.scopes || !sameAccessGroups(got.Groups, m.want(caller))) {
				c.Violate("wrong-identity", "GetIdentity of %s, of which storage %s, returned %+v instead of scopes %v and groups %v or an error; history:\n%s", caller.uid, h.what, got, caller.scopes, m.want(caller), &tr)
			}
			c.Case("GetIdentity with fault", h.hit, len(caller.groups), e == nil)
		}
		if h.hit {
			c.Count("faults", 1)
		}
		for _, u := range m.users {
			a := alt
			if u != changed {
				a = nil
			}
			if (u == changed || u == target || u == caller || r.IntN(3) == 0) && !check(u, a) {
				return
			}
		}
	}
	// IDs that are almost those of users and groups.
	for _, u := range m.users {
		held := keysOf(u.groups)
		if !u.exists || len(held) == 0 {
			continue
		}
		g, target := kit.Pick(r, held), kit.Pick(r, m.users)
		for _, x := range nearIDs(g) {
			if _, ok := m.groups[x]; ok || !target.exists {
				continue
			}
			for _, list := range [][]string{{x}, {g, x}} {
				if err := inst().AddUserToGroups(ctx, u.tok, target.uid, list...); !errors.Is(err, id.ErrNotAuthorized) {
					c.Violate("not-refused", "AddUserToGroups with the groups %q by a member of %q: %v", list, held, err)
				}
				if err := inst().RemoveUserFromGroups(ctx, u.tok, target.uid, list...); !errors.Is(err, id.ErrNotAuthorized) {
					c.Violate("not-refused", "RemoveUserFromGroups with the groups %q by a member of %q: %v", list, held, err)
				}
			}
		}
		for _, x := range nearIDs(target.uid) {
			if m.byID[x] != nil {
				continue
			}
			if err := inst().AddUserToGroups(ctx, u.tok, x, g); !errors.Is(err, id.ErrUserNotFound) {
				c.Violate("not-refused", "AddUserToGroups with the user %q: %v", x, err)
			}
			if err := inst().RemoveUserFromGroups(ctx, u.tok, x, g); !errors.Is(err, id.ErrUserNotFound) {
				c.Violate("not-refused", "RemoveUserFromGroups with the user %q: %v", x, err)
			}
			inst().DeleteUser(ctx, u.tok, x)
		}
		break
	}
	for _, u := range m.users {
		if !check(u, nil) {
			return
		}
		if u.exists && r.IntN(3) == 0 {
			if _, _, err := inst().LoginUser(ctx, u.uid, u.pw); err != nil {
				c.Violate("unable-to-authenticate", "user %s can no longer log in: %v; history:\n%s", u.uid, err, &tr)
			}
			if npw, err := inst().ChangeUserPassword(ctx, u.uid, u.pw); err == nil {
				tr.add("ChangeUserPassword(%s)", u.uid)
				u.pw = npw
			}
			if !check(u, nil) {
				return
			}
		}
	}
}

// c24Many gives a user many groups.
func c24Many(c *kit.C, k kit.Keys, r *rand.Rand, n int) {
	s := kit.NewStandalone(k, providers[n%len(providers)].make())
	uid, pw := must2(s.NewUser(ctx, id.ScopeDecrypt))
	uid2, pw2 := must2(s.NewUser(ctx, id.ScopeIndex))
	tok, _ := must2(s.LoginUser(ctx, uid, pw))
	tok2, _ := must2(s.LoginUser(ctx, uid2, pw2))
	want := map[string]id.AccessGroup{}
	var gids []string
	total := []int{60, 130, 70, 300}[n%4]
	for i := 0; i < total; i++ {
		ss := someScopes(r)
		g := must(s.NewGroup(ctx, tok, ss...))
		gids = append(gids, g)
		want[g] = id.AccessGroup{ID: g, Scopes: union(ss)}
	}
	check := func(t, u string, scopes id.Scope, want map[string]id.AccessGroup) {
		got, err := s.GetIdentity(ctx, t)
		c.Case("many", len(want), n)
		if err != nil || got.ID != u || got.Scopes != scopes || !sameAccessGroups(got.Groups, want) {
			c.Violate("wrong-identity", "with %d groups GetIdentity returned %d groups, %v", len(want), len(got.Groups), err)
		}
	}
	check(tok, uid, id.ScopeDecrypt, want)
	check(tok2, uid2, id.ScopeIndex, nil)
	must0(s.AddUserToGroups(ctx, tok, uid2, gids...))
	check(tok2, uid2, id.ScopeIndex, want)
	if err := s.RemoveUserFromGroups(ctx, tok, uid, gids[5:50]...); err != nil {
		c.Violate("wrongly-refused", "removing a member from 45 groups failed: %v", err)
		return
	}
	left := map[string]id.AccessGroup{}
	for i, g := range gids {
		if i < 5 || i >= 50 {
			left[g] = want[g]
		}
	}
	check(tok, uid, id.ScopeDecrypt, left)
	check(tok2, uid2, id.ScopeIndex, want)
	// One group out of many that the caller is not a member of.
	for _, i := range []int{5, 20, 49} {
		list := append(append([]string{}, gids[:5]...), gids[50:]...)
		at := r.IntN(len(list) + 1)
		list = append(list[:at], append([]string{gids[i]}, list[at:]...)...)
		if err := s.RemoveUserFromGroups(ctx, tok, uid2, list...); err == nil {
			c.Violate("not-refused", "RemoveUserFromGroups with one of %d groups that the caller does not belong to succeeded", len(list))
		}
		if err := s.AddUserToGroups(ctx, tok, uid, list...); err == nil {
			c.Violate("not-refused", "AddUserToGroups with one of %d groups that the caller does not belong to succeeded", len(list))
		}
	}
	check(tok, uid, id.ScopeDecrypt, left)
	check(tok2, uid2, id.ScopeIndex, want)
	// Neither a new password, nor logging in, nor a removal from or addition to no groups changes any of it.
	must(s.ChangeUserPassword(ctx, uid, pw))
	must(s.ChangeUserPassword(ctx, uid2, pw2))
	must0(s.AddUserToGroups(ctx, tok, uid))
	must0(s.RemoveUserFromGroups(ctx, tok, uid2))
	check(tok, uid, id.ScopeDecrypt, left)
	check(tok2, uid2, id.ScopeIndex, want)
}

// c24Spellings names users and groups in other spellings.
func c24Spellings(c *kit.C, k kit.Keys, n int) {
	s := kit.NewStandalone(k, providers[n%len(providers)].make())
	uid, pw := must2(s.NewUser(ctx, id.ScopeAll))
	uid2, pw2 := must2(s.NewUser(ctx, id.ScopeDecrypt))
	tok, _ := must2(s.LoginUser(ctx, uid, pw))
	tok2, _ := must2(s.LoginUser(ctx, uid2, pw2))
	g := must(s.NewGroup(ctx, tok, id.ScopeUpdate))
	g2 := must(s.NewGroup(ctx, tok2, id.ScopeIndex))
	must0(s.AddUserToGroups(ctx, tok, uid2, g))
	want := map[string]id.AccessGroup{g: {ID: g, Scopes: id.ScopeUpdate}, g2: {ID: g2, Scopes: id.ScopeIndex}}
	for _, v := range kit.Variants(g)[1:] {
		for what, err := range map[string]error{
			"AddUserToGroups":      s.AddUserToGroups(ctx, tok, uid2, v),
			"RemoveUserFromGroups": s.RemoveUserFromGroups(ctx, tok, uid2, g, v),
		} {
			c.Case("spelling", what, v)
			if !errors.Is(err, id.ErrNotAuthorized) {
				c.Violate("not-refused", "%s with the group %q by a member of %q only: %v", what, v, g, err)
			}
		}
	}
	for _, v := range kit.Variants(uid2)[1:] {
		for what, err := range map[string]error{
			"AddUserToGroups":      s.AddUserToGroups(ctx, tok, v, g),
			"RemoveUserFromGroups": s.RemoveUserFromGroups(ctx, tok, v, g),
		} {
			c.Case("spelling", what, v)
			if !errors.Is(err, id.ErrUserNotFound) {
				c.Violate("not-refused", "%s with the user %q, who does not exist: %v", what, v, err)
			}
		}
		s.DeleteUser(ctx, tok, v) //nolint:errcheck
	}
	if who, err := s.GetIdentity(ctx, tok2); err != nil || who.ID != uid2 || who.Scopes != id.ScopeDecrypt || !sameAccessGroups(who.Groups, want) {
		c.Violate("wrong-identity", "after calls about other spellings of %q and of %q its identity is %+v, %v", uid2, g, who, err)
	}
	c.Count("identities", 1)
}

// c24Scopes checks sets of scopes and hand-made identities.
func c24Scopes(c *kit.C) {
	r := c.Rand("scopes")
	for i, a := range bitScopes {
		for j, b := range bitScopes {
			c.Case("distinct scopes", i, j)
			if i != j && (a == b || a&b != 0 || a == 0) {
				c.Violate("scopes", "the scopes %v and %v overlap", a, b)
			}
			if i != j && a.String() == b.String() {
				c.Violate("scopes", "different scopes have the name %v", a)
			}
		}
		if !id.ScopeAll.Contains(a) || id.ScopeNone.Contains(a) {
			c.Violate("scopes", "ScopeAll does not contain %v or ScopeNone does", a)
		}
	}
	for n := 0; n < c.N(20000, 500000); n++ {
		ss := someScopes(r)
		u := id.ScopeUnion(ss...)
		c.Case("union", fmt.Sprint(ss))
		if u != union(ss) {
			c.Violate("scopes", "ScopeUnion(%v) is %v", ss, u)
		}
		x := union(someScopes(r))
		if got, want := u.Contains(x), u|x == u; got != want {
			c.Violate("scopes", "%#x.Contains(%#x) = %v", uint64(u), uint64(x), got)
		}
		// Identities of other ID Providers.
		own := kit.String(r)
		ident := id.Identity{ID: own, Scopes: u, Groups: map[string]id.AccessGroup{}}
		want := map[string]id.Scope{}
		for m := r.IntN(4); m > 0; m-- {
			g := kit.String(r)
			s := union(someScopes(r))
			ident.Groups[g] = id.AccessGroup{ID: g, Scopes: s}
			want[g] = s
		}
		want[own] = u
		if got := ident.GetIDs(); !sameSet(got, set(keysOf(want)...)) {
			c.Violate("wrong-ids", "GetIDs of %+v is %q", ident, keysOf(got))
		}
		probe := append(keysOf(want), kit.String(r))
		sort.Strings(probe)
		for _, p := range probe {
			w, ok := want[p]
			if !ok {
				w = id.ScopeNone
			}
			if got := ident.GetIDScope(p); got != w {
				c.Violate("wrong-scope", "GetIDScope(%q) of %+v is %v instead of %v", p, ident, got, w)
			}
		}
	}
}
