package checks

import (
	"errors"
	"fmt"
	"strings"
	"testing"

	"github.com/gofrs/uuid"

	"github.com/cybercryptio/d1-lib/v2/data"
	"github.com/cybercryptio/d1-lib/v2/id"

	"verif/harness/kit"
)

// C04: a refused call changes nothing and reveals nothing.
func TestC04(t *testing.T) {
	kit.Run(t, "C04", "exploration", "An evaluation is one refused call, for which the whole storage is compared before and after and everything returned is looked at. Non-trivial: distinct (call, reason for the refusal, kind of arguments).", func(c *kit.C) {
		n := c.N(144, 1600)
		c.Parallel("library", n, func(i int) { prep(c, func() { c04Library(c, i) }) })
		m := c.N(72, 800)
		c.Parallel("standalone", m, func(i int) { prep(c, func() { c04Standalone(c, i) }) })
		c.Require("refused", 3000)
		c.Require("allowed_afterwards", 1000)
	})
}

// c04Refused makes a call that must be refused, and compares the storage.
func c04Refused(c *kit.C, st *kit.Store, tap *kit.Tap, name, reason string, call func() (string, error)) {
	before := st.Snapshot()
	tap.Reset()
	got, err := call()
	c.Count("refused", 1)
	c.Case(name, reason)
	c.Sample("%s, refused because %s: %v", name, reason, err)
	if err == nil {
		c.Violate("allowed:"+name, "%s was not refused although %s; it returned %q", name, reason, got)
		return
	}
	if got != "" {
		c.Violate("reveals:"+name, "%s was refused (%s) with %q but returned %s", name, reason, err, got)
	}
	if after := st.Snapshot(); !kit.SameContents(before, after) {
		var writes []string
		for _, e := range tap.Events() {
			if e.IsWrite() {
				writes = append(writes, e.String())
			}
		}
		c.Violate("writes:"+name, "%s was refused (%s) with %q but changed the storage: %s, calls %v", name, reason, err, kit.DiffContents(before, after), writes)
	}
}

func gotStr(s ...string) string {
	out := ""
	for _, x := range s {
		if x != "" {
			out += fmt.Sprintf("%q ", x)
		}
	}
	return out
}

func c04Library(c *kit.C, i int) {
	r := c.Rand("library", i)
	k := kit.NewKeys(r)
	ids := kit.NewIDs()
	st := kit.NewStore()
	tap := kit.NewTap(st)
	d := kit.NewD1(k, tap, ids)
	ix := kit.NewIndex(k, tap, ids)
	owner := ids.User("owner", id.ScopeAll)

	type object struct {
		oid   uuid.UUID
		p, ad string
		list  map[string]struct{}
	}
	var objs []*object
	var gone []uuid.UUID
	idx := map[string][]string{}
	newObj := func() {
		o := &object{p: fmt.Sprint("p", r.Uint64()), ad: fmt.Sprint("a", r.Uint64())}
		o.oid = must(d.Encrypt(ctx, owner, obj([]byte(o.p), []byte(o.ad)), "removable", "gone"))
		o.list = set("owner", "removable", "gone")
		objs = append(objs, o)
	}
	newObj()
	kws := []string{"k1", "k2", "k3"}

	// Callers that lack something. Each has an ID and groups that are not in any list, unless said otherwise.
	type bad struct {
		tok, reason string
		scope       id.Scope // the scopes it has
		authn       bool
		inList      bool
	}
	none := ids.User("nobody", id.ScopeNone, id.AccessGroup{ID: "g", Scopes: id.ScopeAll})
	bads := []bad{
		{"no such token", "the token is unknown", 0, false, false},
		{"", "the token is empty", 0, false, false},
		{none, "the caller has no scopes", 0, true, false},
		{ids.User("stranger", id.ScopeAll, id.AccessGroup{ID: "g", Scopes: id.ScopeAll}), "the caller is not in the access list", id.ScopeAll, true, false},
		{ids.User("Owner", id.ScopeAll, id.AccessGroup{ID: "owner ", Scopes: id.ScopeAll}), "the caller is not in the access list", id.ScopeAll, true, false},
		{ids.User("weak", id.ScopeAll, id.AccessGroup{ID: "gone", Scopes: id.ScopeNone}), "the caller's group in the access list has no scopes", id.ScopeAll, true, false},
	}
	ids.SetFunc("err", func() (id.Identity, error) {
		return id.Identity{ID: "owner", Scopes: id.ScopeAll}, errors.New("expired")
	})
	bads = append(bads, bad{"err", "the Identity Provider fails", 0, false, false})
	ids.Set("ownerless", id.Identity{ID: "owner", Scopes: id.ScopeNone})
	bads = append(bads, bad{"ownerless", "the owner has no scopes", 0, true, true})
	for _, b := range bitScopes {
		s := id.ScopeAll &^ b
		tok := fmt.Sprint("owner without ", b)
		ids.Set(tok, id.Identity{ID: "owner", Scopes: s, Groups: map[string]id.AccessGroup{"gone": {ID: "gone", Scopes: id.ScopeAll}}})
		bads = append(bads, bad{tok, "the owner lacks the scope " + b.String(), s, true, true})
		tok = fmt.Sprint("via group without ", b)
		ids.Set(tok, id.Identity{ID: "x", Scopes: id.ScopeAll, Groups: map[string]id.AccessGroup{"gone": {ID: "gone", Scopes: s}}})
		// In the list by a group that lacks a scope: refused only where that scope is needed.
		bads = append(bads, bad{tok, "the group lacks the scope " + b.String(), s | id.ScopeEncrypt | id.ScopeIndex, true, true})
	}
	refusal := func(b bad, need id.Scope, object bool) bool {
		return !b.authn || !b.scope.Contains(need) || object && !b.inList
	}

	for s := 0; s < 60 && !c.Full(); s++ {
		for n := 0; n < 8; n++ { // refused calls
			b := kit.Pick(r, bads)
			o := kit.Pick(r, objs)
			switch r.IntN(9) {
			case 8: // an object that does not exist, or no longer
				oid := newUUID(r)
				reason := "there is no such object"
				if len(gone) > 0 && r.IntN(2) == 0 {
					oid, reason = kit.Pick(r, gone), "the object is deleted"
				}
				if op := kit.Pick(r, objectOps); op.name != "Delete" {
					c04Refused(c, st, tap, op.name, reason, func() (string, error) { return op.run(d, owner, oid) })
				}
			case 0:
				if refusal(b, id.ScopeEncrypt, false) {
					c04Refused(c, st, tap, "Encrypt", b.reason, func() (string, error) {
						x, err := d.Encrypt(ctx, b.tok, obj([]byte("evil"), nil), "owner", "g")
						if x == uuid.Nil {
							return "", err
						}
						return x.String(), err
					})
				}
			case 1:
				if refusal(b, id.ScopeIndex, false) {
					kw, v := kit.Pick(r, kws), "evil"
					if len(idx[kw]) > 0 {
						v = kit.Pick(r, idx[kw])
					}
					c04Refused(c, st, tap, "index Add", b.reason, func() (string, error) { return "", ix.Add(ctx, b.tok, kw, v) })
					c04Refused(c, st, tap, "index Delete", b.reason, func() (string, error) { return "", ix.Delete(ctx, b.tok, kw, v) })
					c04Refused(c, st, tap, "index Search", b.reason, func() (string, error) {
						x, err := ix.Search(ctx, b.tok, kw)
						if x != nil {
							return fmt.Sprintf("%q", x), err
						}
						return "", err
					})
				}
			default:
				op := kit.Pick(r, objectOps)
				if refusal(b, op.scope, true) {
					c04Refused(c, st, tap, op.name, b.reason, func() (string, error) { return op.run(d, b.tok, o.oid) })
				}
			}
		}
		// One call that is allowed.
		o := kit.Pick(r, objs)
		c.Count("allowed_afterwards", 1)
		switch r.IntN(8) {
		case 0:
			newObj()
		case 1:
			p := fmt.Sprint("u", r.Uint64())
			must0(d.Update(ctx, owner, o.oid, obj([]byte(p), []byte(o.ad))))
			o.p = p
		case 2:
			x := fmt.Sprint("x", r.IntN(5))
			must0(d.AddGroupsToAccess(ctx, owner, o.oid, x))
			o.list[x] = struct{}{}
		case 3:
			x := fmt.Sprint("x", r.IntN(5))
			must0(d.RemoveGroupsFromAccess(ctx, owner, o.oid, x))
			delete(o.list, x)
		case 4, 5:
			kw, v := kit.Pick(r, kws), fmt.Sprint("v", r.IntN(20))
			must0(ix.Add(ctx, owner, kw, v))
			idx[kw] = append(idx[kw], v)
		case 6:
			kw := kit.Pick(r, kws)
			if len(idx[kw]) > 0 {
				v := kit.Pick(r, idx[kw])
				must0(ix.Delete(ctx, owner, kw, v))
				var rest []string
				for _, x := range idx[kw] {
					if x != v {
						rest = append(rest, x)
					}
				}
				idx[kw] = rest
			}
		case 7:
			if len(objs) > 1 {
				must0(d.Delete(ctx, owner, o.oid))
				gone = append(gone, o.oid)
				var rest []*object
				for _, x := range objs {
					if x != o {
						rest = append(rest, x)
					}
				}
				objs = rest
			}
		}
		// All is as if the refused calls had not been made.
		for _, o := range objs {
			got, err := d.Decrypt(ctx, owner, o.oid)
			if err != nil || !sameObj(got, []byte(o.p), []byte(o.ad)) {
				c.Violate("later", "after refused calls, Decrypt returned %s, %v", gotObj(got), err)
			}
			g, err := d.GetAccessGroups(ctx, owner, o.oid)
			if err != nil || !sameSet(g, o.list) {
				c.Violate("later", "after refused calls, the access list is %q, %v instead of %q", keysOf(g), err, keysOf(o.list))
			}
		}
		for _, kw := range kws {
			got, err := ix.Search(ctx, owner, kw)
			if err != nil || !sameStrings(got, idx[kw]) {
				c.Violate("later", "after refused calls, Search returned %q, %v instead of %q", got, err, idx[kw])
			}
		}
	}
}

func c04Standalone(c *kit.C, i int) {
	r := c.Rand("standalone", i)
	k := kit.NewKeys(r)
	st := kit.NewStore()
	tap := kit.NewTap(st)
	s := kit.NewStandalone(k, tap)
	other := k
	other.ID.TEK = kit.Key(r)
	foreign := kit.NewStandalone(other, st)

	type user struct {
		uid, pwd, tok string
		scopes        id.Scope
		groups        map[string]id.Scope
	}
	var users []*user
	newUser := func(scopes id.Scope) *user {
		uid, pwd := must2(s.NewUser(ctx, scopes))
		tok, _, err := s.LoginUser(ctx, uid, pwd)
		must0(err)
		return &user{uid, pwd, tok, scopes, map[string]id.Scope{}}
	}
	for j := 0; j < 3; j++ {
		users = append(users, newUser(id.Scope(r.IntN(512))))
	}
	// A user that is deleted; its token is still good otherwise.
	del := newUser(id.ScopeAll)
	must0(s.DeleteUser(ctx, users[0].tok, del.uid))
	var gids []string
	scopesOf := map[string]id.Scope{}
	for j := 0; j < 5; j++ {
		u := users[j%3]
		sc := id.Scope(r.IntN(512))
		gid := must(s.NewGroup(ctx, u.tok, sc))
		gids = append(gids, gid)
		scopesOf[gid] = sc
		u.groups[gid] = sc
	}
	badToken := func() (string, string) {
		u := kit.Pick(r, users)
		switch r.IntN(6) {
		case 0:
			return "", "the token is empty"
		case 1:
			return "garbage", "the token is garbage"
		case 2:
			t, _, err := foreign.LoginUser(ctx, u.uid, u.pwd)
			must0(err)
			return t, "the token is sealed under another key"
		case 3:
			return u.tok[:len(u.tok)-4], "the token is truncated"
		case 4:
			return del.tok, "the token's user is deleted"
		default:
			x := must(data.TokenFromString(u.tok))
			x.Ciphertext[r.IntN(len(x.Ciphertext))] ^= 1 << r.IntN(8)
			t := must(x.String())
			return t, "the token is altered"
		}
	}
	for n := 0; n < 40 && !c.Full(); n++ {
		for m := 0; m < 4; m++ {
			u := kit.Pick(r, users)
			tok, reason := badToken()
			switch r.IntN(9) {
			case 8: // users that do not exist
				uid, reason := newUUID(r).String(), "there is no such user"
				switch r.IntN(5) {
				case 0:
					uid, reason = del.uid, "the user is deleted"
				case 1:
					uid, reason = kit.Pick(r, gids), "it is the ID of a group"
				case 2:
					uid, reason = []string{"", "admin", "root", u.uid + "0", u.uid[1:], strings.Repeat("x", 100)}[r.IntN(6)], "it is not the ID of a user"
				}
				pwd := []string{"", u.pwd, del.pwd}[r.IntN(3)]
				c04Refused(c, st, tap, "LoginUser", reason, func() (string, error) {
					t, _, err := s.LoginUser(ctx, uid, pwd)
					return gotStr(t), err
				})
				c04Refused(c, st, tap, "ChangeUserPassword", reason, func() (string, error) {
					p, err := s.ChangeUserPassword(ctx, uid, pwd)
					return gotStr(p), err
				})
				if mine := keysOf(u.groups); len(mine) > 0 {
					c04Refused(c, st, tap, "AddUserToGroups", reason, func() (string, error) { return "", s.AddUserToGroups(ctx, u.tok, uid, kit.Pick(r, mine)) })
					c04Refused(c, st, tap, "RemoveUserFromGroups", reason, func() (string, error) { return "", s.RemoveUserFromGroups(ctx, u.tok, uid, kit.Pick(r, mine)) })
				}
			case 0:
				c04Refused(c, st, tap, "NewGroup", reason, func() (string, error) { g, err := s.NewGroup(ctx, tok, id.ScopeAll); return gotStr(g), err })
			case 1:
				c04Refused(c, st, tap, "DeleteUser", reason, func() (string, error) { return "", s.DeleteUser(ctx, tok, u.uid) })
			case 2:
				c04Refused(c, st, tap, "AddUserToGroups", reason, func() (string, error) { return "", s.AddUserToGroups(ctx, tok, u.uid, kit.Pick(r, gids)) })
				c04Refused(c, st, tap, "RemoveUserFromGroups", reason, func() (string, error) { return "", s.RemoveUserFromGroups(ctx, tok, u.uid, kit.Pick(r, gids)) })
			case 3:
				c04Refused(c, st, tap, "GetIdentity", reason, func() (string, error) {
					x, err := s.GetIdentity(ctx, tok)
					if x.ID != "" || x.Scopes != 0 || x.Groups != nil {
						return fmt.Sprintf("%v", x), err
					}
					return "", err
				})
			case 4:
				pwd := []string{"", "x", users[0].pwd + "x", del.pwd, u.pwd[:len(u.pwd)-1]}[r.IntN(5)]
				c04Refused(c, st, tap, "ChangeUserPassword", "the password is wrong", func() (string, error) {
					p, err := s.ChangeUserPassword(ctx, u.uid, pwd)
					return gotStr(p), err
				})
				c04Refused(c, st, tap, "LoginUser", "the password is wrong", func() (string, error) {
					t, _, err := s.LoginUser(ctx, u.uid, pwd)
					return gotStr(t), err
				})
			default: // a member of some of the groups only, or of none
				v := kit.Pick(r, users)
				var list []string
				lacking := false
				for x := 1 + r.IntN(4); x > 0; x-- {
					g := kit.Pick(r, gids)
					if r.IntN(8) == 0 {
						g = []string{u.uid, v.uid, "", "no such group"}[r.IntN(4)]
					}
					list = append(list, g)
					if _, ok := u.groups[g]; !ok {
						lacking = true
					}
				}
				if !lacking {
					continue
				}
				reason := fmt.Sprintf("the caller is a member of %d groups but not of all %d", len(u.groups), len(list))
				c04Refused(c, st, tap, "AddUserToGroups", reason, func() (string, error) { return "", s.AddUserToGroups(ctx, u.tok, v.uid, list...) })
				c04Refused(c, st, tap, "RemoveUserFromGroups", reason, func() (string, error) { return "", s.RemoveUserFromGroups(ctx, u.tok, v.uid, list...) })
			}
		}
		// One call that is allowed.
		c.Count("allowed_afterwards", 1)
		u, v := kit.Pick(r, users), kit.Pick(r, users)
		mine := keysOf(u.groups)
		switch r.IntN(5) {
		case 0:
			p := must(s.ChangeUserPassword(ctx, u.uid, u.pwd))
			u.pwd = p
		case 1:
			if len(mine) > 0 {
				g := kit.Pick(r, mine)
				must0(s.AddUserToGroups(ctx, u.tok, v.uid, g))
				v.groups[g] = scopesOf[g]
			}
		case 2:
			if len(mine) > 1 {
				g := kit.Pick(r, mine)
				must0(s.RemoveUserFromGroups(ctx, u.tok, v.uid, g))
				delete(v.groups, g)
			}
		case 3:
			if len(gids) < 10 {
				sc := id.Scope(r.IntN(512))
				g := must(s.NewGroup(ctx, u.tok, sc))
				gids = append(gids, g)
				scopesOf[g] = sc
				u.groups[g] = sc
			}
		}
		for _, u := range users {
			x, err := s.GetIdentity(ctx, u.tok)
			if err != nil || x.ID != u.uid || x.Scopes != u.scopes || !sameGroups(x.Groups, u.groups) {
				c.Violate("later", "after refused calls, the identity of %s with scopes %s and groups %v is %v, %v", u.uid, scopeText(u.scopes), u.groups, x, err)
			}
		}
		if w := kit.Pick(r, users); r.IntN(4) > 0 {
			continue
		} else if t, _, err := s.LoginUser(ctx, w.uid, w.pwd); err != nil || t == "" {
			c.Violate("later", "after refused calls, LoginUser with the current password failed: %v", err)
		}
	}
}

func sameGroups(a map[string]id.AccessGroup, b map[string]id.Scope) bool {
	if len(a) != len(b) {
		return false
	}
	for g, x := range a {
		s, ok := b[g]
		if !ok || x.ID != g || x.Scopes != s {
			return false
		}
	}
	return true
}
