package checks

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"strings"
	"testing"
	"time"

	"github.com/cybercryptio/d1-lib/v2/data"
	"github.com/cybercryptio/d1-lib/v2/id"

	"verif/harness/kit"
	"verif/harness/ref"
)

// C06: modified or swapped user and group records and identity tokens are rejected.
func TestC06(t *testing.T) {
	kit.Run(t, "C06", "exploration", "An evaluation is one call with a manipulated user record, group record or token, judged against everything genuinely assigned. Non-trivial: distinct (operation, kind and place of the manipulation, resulting record or token).", func(c *kit.C) {
		n := c.N(8, 160)
		c.Parallel("world", n, func(i int) { prep(c, func() { c06World(c, i) }) })
		c.Require("rejected", 5000)
		c.Require("genuine_accepted", 50)
		c.Require("tokens_rejected", 2000)
	})
}

type c06User struct {
	u      int
	pwd    string
	groups map[string]id.Scope
	raw    []byte
}

type c06Env struct {
	c      *kit.C
	st     *kit.Store
	s      *id.Standalone
	uids   []string
	scopes []id.Scope
	toks   []string
	pwds   []string // all ever issued
	recs   []c06User
	gids   []string
	gscope map[string]id.Scope
	graw   map[string][]byte
}

func c06World(c *kit.C, i int) {
	r := c.Rand("world", i)
	k := kit.NewKeys(r)
	e := &c06Env{c: c, st: kit.NewStore(), gscope: map[string]id.Scope{}, graw: map[string][]byte{}}
	e.s = kit.NewStandalone(k, e.st)
	cur := []map[string]id.Scope{}
	pwd := []string{}
	snap := func(u int) {
		raw, ok := e.st.Raw([]byte(e.uids[u]), id.DataTypeSealedUser)
		if !ok {
			panic(libraryError{"a user's record is not where it is documented to be"})
		}
		g := map[string]id.Scope{}
		for x, y := range cur[u] {
			g[x] = y
		}
		e.recs = append(e.recs, c06User{u, pwd[u], g, raw})
	}
	for u := 0; u < 3; u++ {
		scopes := []id.Scope{id.ScopeAll, id.ScopeDecrypt, id.ScopeNone}[u]
		uid, p := must2(e.s.NewUser(ctx, scopes))
		tok, _, err := e.s.LoginUser(ctx, uid, p)
		must0(err)
		e.uids, e.scopes, e.toks, e.pwds = append(e.uids, uid), append(e.scopes, scopes), append(e.toks, tok), append(e.pwds, p)
		cur, pwd = append(cur, map[string]id.Scope{}), append(pwd, p)
		snap(u)
	}
	if i%4 == 3 { // a long record
		for n := 0; n < 40; n++ {
			sc := id.Scope(n)
			gid := must(e.s.NewGroup(ctx, e.toks[1], sc))
			e.gscope[gid], cur[1][gid] = sc, sc
		}
		snap(1)
	}
	for g, sc := range []id.Scope{id.ScopeAll, id.ScopeNone, id.ScopeEncrypt} {
		u := g % 3
		gid := must(e.s.NewGroup(ctx, e.toks[u], sc))
		e.gids = append(e.gids, gid)
		e.gscope[gid] = sc
		e.graw[gid], _ = e.st.Raw([]byte(gid), id.DataTypeSealedGroup)
		cur[u][gid] = sc
		snap(u)
	}
	must0(e.s.AddUserToGroups(ctx, e.toks[0], e.uids[1], e.gids[0]))
	cur[1][e.gids[0]] = e.gscope[e.gids[0]]
	snap(1)
	p := must(e.s.ChangeUserPassword(ctx, e.uids[1], pwd[1]))
	pwd[1] = p
	e.pwds = append(e.pwds, p)
	snap(1)
	must0(e.s.RemoveUserFromGroups(ctx, e.toks[0], e.uids[1], e.gids[0]))
	delete(cur[1], e.gids[0])
	snap(1)

	base := e.st.Snapshot()
	last := func(u int) *c06User {
		for i := len(e.recs) - 1; ; i-- {
			if e.recs[i].u == u {
				return &e.recs[i]
			}
		}
	}
	genuine := func(raw []byte) *c06User {
		var x struct{ Ciphertext, WrappedKey []byte }
		if json.Unmarshal(raw, &x) != nil {
			return nil
		}
		for i := range e.recs {
			if bytes.Equal(x.Ciphertext, byteField(e.recs[i].raw, "Ciphertext")) && bytes.Equal(x.WrappedKey, byteField(e.recs[i].raw, "WrappedKey")) {
				return &e.recs[i]
			}
		}
		return nil
	}
	placeUser := func(u int, raw []byte) {
		e.st.Restore(base)
		e.st.Set([]byte(e.uids[u]), id.DataTypeSealedUser, raw)
	}
	placeGroup := func(g int, raw []byte) {
		e.st.Restore(base)
		e.st.Set([]byte(e.gids[g]), id.DataTypeSealedGroup, raw)
	}

	// Users
	for u := range e.uids {
		for ri := range e.recs {
			rec := e.recs[ri]
			placeUser(u, rec.raw)
			e.judgeUser("record of another user or time", u, &rec, ri, true)
			placeUser(u, withField(rec.raw, "UID", e.uids[u]))
			e.judgeUser("record of another user or time with the UID changed", u, &rec, ri, true)
			// Two records exchanged with each other.
			if rec.u != u {
				e.st.Set([]byte(e.uids[rec.u]), id.DataTypeSealedUser, last(u).raw)
				e.judgeUser("records exchanged", u, &rec, ri, false)
				e.judgeUser("records exchanged", rec.u, last(u), ri, false)
			}
			for rj := range e.recs {
				raw := withField(rec.raw, "WrappedKey", byteField(e.recs[rj].raw, "WrappedKey"))
				placeUser(u, raw)
				e.judgeUser("fields combined", u, genuine(raw), []int{ri, rj}, false)
			}
		}
		for key, v := range base {
			placeUser(u, []byte(v))
			e.judgeUser("record of another kind", u, genuine([]byte(v)), key, false)
		}
		flips := c.N(200, 2000)
		rec := last(u)
		for _, f := range []string{"Ciphertext", "WrappedKey"} {
			for _, m := range mutations(r, byteField(rec.raw, f), flips) {
				raw := withField(rec.raw, f, m.b)
				placeUser(u, raw)
				e.judgeUser(f+" "+m.name, u, genuine(raw), m.b, false)
			}
		}
		for _, m := range rawMutations(r, rec.raw, flips) {
			placeUser(u, m.b)
			g := genuine(m.b)
			if g == nil {
				g = rec // however leniently it was decoded
			}
			e.judgeUser("record "+m.name, u, g, m.b, false)
		}
		for _, uidField := range []any{"", "x", e.uids[(u+1)%3], nil, strings.ToUpper(e.uids[u])} {
			placeUser(u, withField(rec.raw, "UID", uidField))
			e.judgeUser("UID field changed", u, rec, uidField, false)
		}
	}

	// Groups
	for g, gid := range e.gids {
		u := g % 3 // its creator is a member
		try := func(what string, raw []byte, ok bool, mark any) {
			placeGroup(g, raw)
			x, err := e.s.GetIdentity(ctx, e.toks[u])
			c.Case("group", what, g, mark)
			if err != nil {
				c.Count("rejected", 1)
				if x.ID != "" || x.Scopes != 0 || x.Groups != nil {
					c.Violate("reveals:GetIdentity", "%s: GetIdentity failed with %v but returned %v", what, err, x)
				}
				return
			}
			if !ok || x.ID != e.uids[u] || x.Scopes != e.scopes[u] || !sameGroups(x.Groups, cur[u]) {
				c.Violate("forged:group", "%s at group %d (%q): GetIdentity returned %v; the genuine groups are %v", what, g, fmt.Sprint(mark), x, cur[u])
			}
			c.Count("genuine_accepted", 1)
		}
		same := func(raw []byte) bool {
			var x struct{ Ciphertext, WrappedKey []byte }
			return json.Unmarshal(raw, &x) != nil ||
				bytes.Equal(x.Ciphertext, byteField(e.graw[gid], "Ciphertext")) && bytes.Equal(x.WrappedKey, byteField(e.graw[gid], "WrappedKey"))
		}
		for h, other := range e.gids {
			try("record of another group", e.graw[other], g == h, h)
			try("record of another group with the GID changed", withField(e.graw[other], "GID", gid), g == h, h)
			try("wrapped key of another group", withField(e.graw[gid], "WrappedKey", byteField(e.graw[other], "WrappedKey")), g == h, h)
			try("ciphertext of another group", withField(e.graw[gid], "Ciphertext", byteField(e.graw[other], "Ciphertext")), g == h, h)
		}
		for key, v := range base {
			try("record of another kind", []byte(v), same([]byte(v)), key)
		}
		flips := c.N(200, 2000)
		for _, f := range []string{"Ciphertext", "WrappedKey"} {
			for _, m := range mutations(r, byteField(e.graw[gid], f), flips) {
				try(f+" "+m.name, withField(e.graw[gid], f, m.b), false, m.b)
			}
		}
		for _, m := range rawMutations(r, e.graw[gid], flips) {
			try("record "+m.name, m.b, true, m.b)
		}
		// A group that is gone is not an empty one.
		e.st.Restore(base)
		e.st.Remove([]byte(gid), id.DataTypeSealedGroup)
		if x, err := e.s.GetIdentity(ctx, e.toks[u]); err == nil && !sameGroups(x.Groups, cur[u]) {
			for y, sc := range x.Groups {
				if want, ok := cur[u][y]; !ok || want != sc.Scopes {
					c.Violate("forged:group", "with a group record removed, GetIdentity returned %v", x)
				}
			}
		}
	}

	// Tokens
	e.st.Restore(base)
	other := k
	other.ID.TEK = kit.Key(r)
	foreign := kit.NewStandalone(other, e.st)
	foreignTok, _, err := foreign.LoginUser(ctx, e.uids[0], pwd[0])
	must0(err)
	d := kit.NewD1(k, e.st, kit.NewIDs())
	d1Tok := must(d.CreateToken(ctx, []byte(e.uids[0])))
	rnd := func(n int) []byte { return kit.Bytes(r, n) }
	future := time.Now().Add(time.Hour)
	bad := map[string]string{
		"a token sealed under another key":       foreignTok,
		"a token of the library":                 must(d1Tok.String()),
		"a token sealed under the user key":      ref.SealToken(k.ID.UEK, rnd, future, []byte(e.uids[0])).String(),
		"a token sealed under the group key":     ref.SealToken(k.ID.GEK, rnd, future, []byte(e.uids[0])).String(),
		"a token sealed under a zero key":        ref.SealToken(make([]byte, 32), rnd, future, []byte(e.uids[0])).String(),
		"an expired token":                       ref.SealToken(k.ID.TEK, rnd, time.Now().Add(-time.Second), []byte(e.uids[0])).String(),
		"a token that expired long ago":          ref.SealToken(k.ID.TEK, rnd, time.Unix(0, 0), []byte(e.uids[0])).String(),
		"a token without contents":               ref.SealToken(k.ID.TEK, rnd, future, []byte{}).String(),
		"a token for nobody":                     ref.SealToken(k.ID.TEK, rnd, future, []byte("nobody")).String(),
		"a token for a group":                    ref.SealToken(k.ID.TEK, rnd, future, []byte(e.gids[0])).String(),
		"the user ID":                            e.uids[0],
		"the user ID in base64":                  base64.RawURLEncoding.EncodeToString([]byte(e.uids[0])),
		"the password":                           pwd[0],
		"the empty token":                        "",
		"a token with unsealed contents":         base64.RawURLEncoding.EncodeToString([]byte(fmt.Sprintf(`{"Plaintext":%q,"ExpiryTime":%q}`, base64.StdEncoding.EncodeToString([]byte(e.uids[0])), future.Format(time.RFC3339Nano)))),
		"the user's record as a token":           base64.RawURLEncoding.EncodeToString(last(0).raw),
		"the user's record as a token, expiring": base64.RawURLEncoding.EncodeToString(withField(last(0).raw, "ExpiryTime", future)),
	}
	for what, tok := range bad {
		e.badToken(what, tok)
	}
	// An independently made genuine token is fine (which shows that those above fail for their reason).
	if x, err := e.s.GetIdentity(ctx, ref.SealToken(k.ID.TEK, rnd, future, []byte(e.uids[0])).String()); err != nil || x.ID != e.uids[0] {
		c.Violate("genuine-token", "a token made by an independent implementation was not accepted: %v, %v", x, err)
	}
	var parsed []data.SealedToken
	for _, tok := range e.toks {
		parsed = append(parsed, must(data.TokenFromString(tok)))
	}
	for u, t := range parsed {
		for v, o := range parsed {
			if u == v {
				continue
			}
			for _, x := range []data.SealedToken{
				{ExpiryTime: t.ExpiryTime, Ciphertext: t.Ciphertext, WrappedKey: o.WrappedKey},
				{ExpiryTime: t.ExpiryTime, Ciphertext: o.Ciphertext, WrappedKey: t.WrappedKey},
				{ExpiryTime: o.ExpiryTime, Ciphertext: t.Ciphertext, WrappedKey: t.WrappedKey},
			} {
				if x.ExpiryTime.Equal(t.ExpiryTime) && bytes.Equal(x.Ciphertext, t.Ciphertext) && bytes.Equal(x.WrappedKey, t.WrappedKey) {
					continue // the two tokens expire at the same nanosecond
				}
				e.badToken("parts of two tokens", must(x.String()))
			}
		}
		for _, dt := range []time.Duration{1, -1, time.Second, time.Minute, time.Hour, 24 * time.Hour, 1000 * time.Hour, -time.Minute} {
			x := t
			x.ExpiryTime = t.ExpiryTime.Add(dt)
			e.badToken("another expiry time", must(x.String()))
		}
		x := t
		x.ExpiryTime = time.Date(9999, 1, 1, 0, 0, 0, 0, time.UTC)
		e.badToken("another expiry time", must(x.String()))
		for _, m := range mutations(r, t.Ciphertext, c.N(400, 4000)) {
			x := t
			x.Ciphertext = m.b
			e.badToken("ciphertext "+m.name, must(x.String()))
		}
		for _, m := range mutations(r, t.WrappedKey, c.N(400, 4000)) {
			x := t
			x.WrappedKey = m.b
			e.badToken("wrapped key "+m.name, must(x.String()))
		}
		// Changes to the string: whatever is accepted is this token.
		for _, m := range rawMutations(r, []byte(e.toks[u]), 400) {
			got, err := e.s.GetIdentity(ctx, string(m.b))
			c.Case("token string", m.b)
			if err == nil && (got.ID != e.uids[u] || got.Scopes != e.scopes[u] || !sameGroups(got.Groups, cur[u])) {
				c.Violate("forged:token", "a token string with %s gave the identity %v instead of user %d", m.name, got, u)
			}
			if err == nil {
				if y, perr := data.TokenFromString(string(m.b)); perr == nil && (!bytes.Equal(y.Ciphertext, t.Ciphertext) || !bytes.Equal(y.WrappedKey, t.WrappedKey) || !y.ExpiryTime.Equal(t.ExpiryTime)) {
					c.Violate("forged:token", "a token string with %s was accepted though it differs from the genuine one", m.name)
				}
			}
		}
	}
	c.Sample("world %d: %d user records of 3 users, 3 groups, %d kinds of wrong tokens", i, len(e.recs), len(bad))
}

func (e *c06Env) badToken(what, tok string) {
	e.c.Case("token", what, tok)
	x, err := e.s.GetIdentity(ctx, tok)
	if err == nil {
		e.c.Violate("forged:token", "%s gave the identity %v", what, x)
	} else if x.ID != "" || x.Scopes != 0 || x.Groups != nil {
		e.c.Violate("reveals:GetIdentity", "%s: GetIdentity failed with %v but returned %v", what, err, x)
	}
	e.c.Count("tokens_rejected", 1)
	if err := e.s.AddUserToGroups(ctx, tok, e.uids[2]); err == nil {
		e.c.Violate("forged:token", "%s was accepted by AddUserToGroups", what)
	}
}

// judgeUser judges calls for user u, whose record decodes to the genuine rec (nil: to none).
func (e *c06Env) judgeUser(what string, u int, rec *c06User, mark any, all bool) {
	c := e.c
	if rec != nil && rec.u != u {
		rec = nil
	}
	desc := fmt.Sprintf("%s at user %d (%q)", what, u, fmt.Sprint(mark))
	x, err := e.s.GetIdentity(ctx, e.toks[u])
	c.Case("user", what, u, mark)
	if err == nil {
		if rec == nil || x.ID != e.uids[u] || x.Scopes != e.scopes[u] || !sameGroups(x.Groups, rec.groups) {
			c.Violate("forged:user", "%s: GetIdentity returned %v; is the record genuine: %v", desc, x, rec != nil)
		}
		c.Count("genuine_accepted", 1)
	} else {
		c.Count("rejected", 1)
		if x.ID != "" || x.Scopes != 0 || x.Groups != nil {
			c.Violate("reveals:GetIdentity", "%s: GetIdentity failed with %v but returned %v", desc, err, x)
		}
	}
	if rec != nil && !all {
		return // checking passwords takes long
	}
	for _, p := range e.pwds {
		c.Eval(1)
		tok, _, err := e.s.LoginUser(ctx, e.uids[u], p)
		if err == nil {
			if rec == nil || p != rec.pwd {
				c.Violate("forged:login", "%s: LoginUser succeeded with a password that is not the user's", desc)
			} else if y, err := e.s.GetIdentity(ctx, tok); err == nil && y.ID != e.uids[u] {
				c.Violate("forged:login", "%s: LoginUser gave a token of %q", desc, y.ID)
			}
		} else if tok != "" {
			c.Violate("reveals:LoginUser", "%s: LoginUser failed with %v but returned a token", desc, err)
		}
		if rec == nil {
			before := e.st.Snapshot()
			if np, err := e.s.ChangeUserPassword(ctx, e.uids[u], p); err == nil || np != "" {
				c.Violate("forged:login", "%s: ChangeUserPassword: %q, %v", desc, np, err)
			}
			if !kit.SameContents(before, e.st.Snapshot()) {
				c.Violate("writes", "%s: ChangeUserPassword changed the storage", desc)
				e.st.Restore(before)
			}
		}
	}
	if rec == nil {
		before := e.st.Snapshot()
		err1 := e.s.AddUserToGroups(ctx, e.toks[0], e.uids[u], e.gids[0])
		err2 := e.s.RemoveUserFromGroups(ctx, e.toks[0], e.uids[u], e.gids[0])
		_, err3 := e.s.NewGroup(ctx, e.toks[u], id.ScopeAll)
		if err1 == nil || err2 == nil || err3 == nil {
			c.Violate("forged:user", "%s: operations on the user: AddUserToGroups %v, RemoveUserFromGroups %v, NewGroup %v", desc, err1, err2, err3)
		}
		if now := e.st.Snapshot(); !kit.SameContents(before, now) {
			c.Violate("writes", "%s: refused operations changed the storage: %s", desc, kit.DiffContents(before, now))
			e.st.Restore(before)
		}
	}
}
