package checks

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"errors"
	"math/rand/v2"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/cybercryptio/d1-lib/v2/crypto"
	"github.com/cybercryptio/d1-lib/v2/id"

	"verif/harness/kit"
	"verif/harness/ref"
)

// C23: only a user's current password logs in, and only as that user.
//
// Random histories of users over several instances on the same storage, some with storage faults, are
// compared with a model. Candidates for passwords come from everything known so far and from slight
// changes of the current password.
func TestC23(t *testing.T) {
	kit.Run(t, "C23", "exploration", "An evaluation is one login, password change, identification or hash comparison whose result was compared with the model. Non-trivial: distinct (operation, kind of user, kind of password, fault, outcome) and distinct modified hashes or passwords.", func(c *kit.C) {
		k := kit.NewKeys(c.Rand("keys"))
		u := &unique{c: c, seen: map[string]string{}}
		c.Parallel("histories", c.N(64, 1500), func(i int) { prep(c, func() { c23History(c, k, u, c.Rand("histories", i), i) }) })
		c.Parallel("spellings", c.N(8, 24), func(i int) { prep(c, func() { c23Spellings(c, k, c.Rand("spellings", i), i) }) })
		c.Parallel("hashes", c.N(24, 400), func(i int) { prep(c, func() { c23Hashes(c, u, c.Rand("hashes", i), i) }) })
		c.Require("logins", 500)
		c.Require("refused", 500)
		c.Require("changes", 100)
		c.Require("failed_changes", 20)
		c.Require("unique_values", 500)
	})
}

// unique checks that values differ from each other.
type unique struct {
	c    *kit.C
	mu   sync.Mutex
	seen map[string]string
}

func (u *unique) add(kind, v string) {
	u.mu.Lock()
	old, dup := u.seen[v]
	u.seen[v] = kind
	u.mu.Unlock()
	u.c.Count("unique_values", 1)
	if dup {
		u.c.Violate("not-unique", "a new %s equals an earlier %s: %q", kind, old, v)
	}
}

// sameHMACKey tells whether HMAC-SHA3-256 treats the strings as the same key, so that they are the same
// password.
func sameHMACKey(a, b string) bool {
	norm := func(s string) string {
		if len(s) > 136 {
			s = string(ref.SHA3_256([]byte(s)))
		}
		return strings.TrimRight(s, "\x00")
	}
	return norm(a) == norm(b)
}

// almost returns strings that differ slightly from the password.
func almost(r *rand.Rand, p string) (string, string) {
	if p == "" {
		return "more", "x"
	}
	i := r.IntN(len(p))
	switch r.IntN(16) {
	case 0:
		return "empty", ""
	case 1:
		return "shorter", p[:len(p)-1]
	case 2:
		return "without first", p[1:]
	case 3:
		return "prefix", p[:1+r.IntN(len(p))-1]
	case 4:
		return "longer", p + string(rune('A'+r.IntN(26)))
	case 5:
		return "space behind", p + kit.Pick(r, []string{" ", "\n", "\r\n", "\t", "=", "\x00x"})
	case 6:
		return "space before", kit.Pick(r, []string{" ", "\n", "\x00", "="}) + p
	case 7:
		return "lower", strings.ToLower(p)
	case 8:
		return "upper", strings.ToUpper(p)
	case 9:
		c := p[i]
		switch {
		case c >= 'a' && c <= 'z':
			c -= 32
		case c >= 'A' && c <= 'Z':
			c += 32
		default:
			c++
		}
		return "case of one", p[:i] + string(c) + p[i+1:]
	case 10:
		return "one bit", p[:i] + string([]byte{p[i] ^ 1<<r.IntN(8)}) + p[i+1:]
	case 11:
		j := r.IntN(len(p))
		b := []byte(p)
		b[i], b[j] = b[j], b[i]
		return "swapped", string(b)
	case 12:
		return "doubled", p + p
	case 13:
		raw, _ := base64.RawURLEncoding.DecodeString(p)
		return "decoded", string(raw)
	case 14:
		return "standard encoding", strings.NewReplacer("-", "+", "_", "/").Replace(p) + "="
	default:
		return "first half", p[:len(p)/2]
	}
}

type user23 struct {
	uid, pw string
	old     []string
	exists  bool
	toks    []string
	lost    bool // an interrupted change may have given it a password that nobody knows
}

func c23History(c *kit.C, k kit.Keys, u *unique, r *rand.Rand, n int) {
	p := providers[n%len(providers)]
	tap := kit.NewTap(p.make())
	var insts []*id.Standalone
	for i := 0; i < 3; i++ {
		insts = append(insts, kit.NewStandalone(k, tap))
	}
	inst := func() *id.Standalone {
		if r.IntN(8) == 0 { // a restart
			insts[r.IntN(len(insts))] = kit.NewStandalone(k, tap)
		}
		return insts[r.IntN(len(insts))]
	}
	var users []*user23
	byID := map[string]*user23{}
	var tr trail
	tr.add("provider %s", p.name)
	var known []string // all passwords ever returned
	var gid string
	newUser := func() {
		tap.Reset()
		uid, pw := must2(inst().NewUser(ctx, id.ScopeAll))
		tr.add("NewUser: %s %s", uid, pw)
		u.add("user ID", uid)
		u.add("password", pw)
		x := &user23{uid: uid, pw: pw, exists: true}
		users = append(users, x)
		byID[uid] = x
		known = append(known, pw)
		c23Stored(c, k, u, tap, uid, pw)
	}
	newUser()
	newUser()
	tok, _ := must2(insts[0].LoginUser(ctx, users[0].uid, users[0].pw))
	gid = must(insts[0].NewGroup(ctx, tok, id.ScopeAll))
	users[0].toks = append(users[0].toks, tok)

	// candidate picks a user ID and a password and says what they are.
	candidate := func() (uid, pw, kind string) {
		x := users[r.IntN(len(users))]
		uid, pw = x.uid, x.pw
		kind = "user "
		if !x.exists {
			kind = "deleted user "
		}
		switch r.IntN(12) {
		case 0:
			kind = "other ID "
			uid = kit.Pick(r, append(nearIDs(uid), "", gid, pw))
		}
		switch r.IntN(9) {
		case 0, 1, 2:
			kind += "current"
		case 3:
			kind += "outdated"
			if len(x.old) > 0 {
				pw = kit.Pick(r, x.old)
			}
		case 4:
			kind += "known"
			pw = kit.Pick(r, known)
		case 5:
			kind += "string"
			pw = kit.Pick(r, []string{kit.String(r), uid, gid, "", "null", string(kit.Bytes(r, 32))})
		default:
			var a string
			a, pw = almost(r, pw)
			kind += a
		}
		return uid, pw, kind
	}
	right := func(uid, pw string) bool {
		x := byID[uid]
		return x != nil && x.exists && !x.lost && sameHMACKey(x.pw, pw)
	}
	login := func(uid, pw, kind string) {
		before := time.Now()
		tok, expiry, err := inst().LoginUser(ctx, uid, pw)
		after := time.Now()
		want := right(uid, pw)
		c.Case("login", kind, want, err == nil)
		c.SampleEvery("login "+kind, "LoginUser(%q, %q): %s; error %v", uid, pw, kind, err)
		switch {
		case !want && err == nil:
			c.Violate("wrong-password-accepted", "LoginUser(%q, %q) succeeded with a wrong user or password (%s); history:\n%s", uid, pw, kind, &tr)
			return
		case !want:
			c.Count("refused", 1)
			if !errors.Is(err, id.ErrNotAuthenticated) {
				c.Violate("wrong-error", "LoginUser(%q, %q) (%s) failed with %v, not with ErrNotAuthenticated", uid, pw, kind, err)
			}
			if tok != "" || expiry != 0 {
				c.Violate("result-with-error", "a refused LoginUser returned the token %q and expiry %d", tok, expiry)
			}
			return
		case err != nil:
			c.Violate("right-password-refused", "LoginUser(%q, %q) with the current password failed: %v; history:\n%s", uid, pw, err, &tr)
			return
		}
		c.Count("logins", 1)
		if lo, hi := before.Add(time.Hour-time.Second).Unix(), after.Add(time.Hour+time.Second).Unix(); expiry < lo || expiry > hi {
			c.Violate("expiry", "LoginUser between %v and %v returned the expiry %v instead of an hour later", before, after, time.Unix(expiry, 0))
		}
		x := byID[uid]
		x.toks = append(x.toks, tok)
		ident, err := inst().GetIdentity(ctx, tok)
		if err != nil || ident.ID != uid {
			c.Violate("wrong-identity", "the token of a login as %q identifies %q, %v; history:\n%s", uid, ident.ID, err, &tr)
		}
	}
	for step := 0; step < 22; step++ {
		uid, pw, kind := candidate()
		x := byID[uid]
		switch n := r.IntN(20); {
		case n == 0:
			newUser()
		case n == 1 && x != nil && len(users) > 2 && len(users[0].toks) > 0 && users[0].exists:
			err := inst().DeleteUser(ctx, users[0].toks[0], uid)
			tr.add("DeleteUser %s: %v", uid, err)
			if err != nil {
				c.Violate("delete-failed", "DeleteUser failed: %v; history:\n%s", err, &tr)
				return
			}
			x.exists = false
			login(uid, x.pw, "deleted user current")
		case n < 9: // change the password
			var fault string
			tap.Reset()
			h, fctx, cancel := new(hits), ctx, func() {}
			if r.IntN(2) == 0 {
				h, fctx, cancel = faultIn(r, tap, 3)
			}
			npw, err := inst().ChangeUserPassword(fctx, uid, pw)
			noFaults(tap)
			cancel()
			if h.hit {
				fault = h.what
				c.Count("faults", 1)
			}
			want := right(uid, pw)
			tr.add("ChangeUserPassword %s %q (%s) %s: %q, %v", uid, pw, kind, fault, npw, err)
			c.Case("change", kind, want, fault != "", err == nil)
			switch {
			case !want && err == nil:
				c.Violate("wrong-password-accepted", "ChangeUserPassword(%q, %q) succeeded with a wrong user or password (%s); history:\n%s", uid, pw, kind, &tr)
				return
			case !want:
				c.Count("refused", 1)
				if fault == "" && !errors.Is(err, id.ErrNotAuthenticated) {
					c.Violate("wrong-error", "ChangeUserPassword(%q, %q) (%s) failed with %v, not with ErrNotAuthenticated", uid, pw, kind, err)
				}
			case err != nil && fault == "":
				c.Violate("right-password-refused", "ChangeUserPassword(%q, %q) with the current password failed: %v; history:\n%s", uid, pw, err, &tr)
			case err != nil:
				c.Count("failed_changes", 1)
				// If the write took effect, the password is one that nobody knows.
				if _, _, err := inst().LoginUser(ctx, uid, x.pw); err != nil {
					if !h.wrote {
						c.Violate("right-password-refused", "after ChangeUserPassword(%q) failed without writing anything, the current password is refused: %v; history:\n%s", uid, err, &tr)
					}
					c.Count("lost_passwords", 1)
					x.lost = true
				}
			default:
				c.Count("changes", 1)
				u.add("password", npw)
				known = append(known, npw)
				x.old = append(x.old, x.pw)
				x.pw = npw
				c23Stored(c, k, u, tap, uid, npw)
			}
			if err != nil && npw != "" {
				c.Violate("result-with-error", "a refused ChangeUserPassword returned the password %q", npw)
			}
			if x != nil {
				if err == nil {
					login(uid, x.old[len(x.old)-1], "user outdated")
				}
				if r.IntN(2) == 0 || fault != "" {
					login(uid, x.pw, "user current")
				}
			}
		case n < 12: // failing storage never lets anyone in
			h, fctx, cancel := faultIn(r, tap, 2)
			tok, expiry, err := inst().LoginUser(fctx, uid, pw)
			noFaults(tap)
			cancel()
			tr.add("LoginUser %s %q (%s), storage %s: %v", uid, pw, kind, h.what, err)
			c.Case("login with fault", kind, h.hit, err == nil)
			switch {
			case err == nil && !right(uid, pw):
				c.Violate("wrong-password-accepted", "LoginUser(%q, %q), of which storage %s, succeeded with a wrong user or password (%s); history:\n%s", uid, pw, h.what, kind, &tr)
				return
			case err != nil && (tok != "" || expiry != 0):
				c.Violate("result-with-error", "a refused LoginUser returned the token %q and expiry %d", tok, expiry)
			case err == nil:
				if ident, err := inst().GetIdentity(ctx, tok); err != nil || ident.ID != uid {
					c.Violate("wrong-identity", "the token of a login as %q identifies %q, %v; history:\n%s", uid, ident.ID, err, &tr)
				}
			}
			if h.hit {
				c.Count("faults", 1)
			}
		case n == 12: // a user that may or may not come into being
			h, fctx, cancel := faultIn(r, tap, 2)
			nuid, npw, err := inst().NewUser(fctx, id.ScopeAll)
			noFaults(tap)
			cancel()
			tr.add("NewUser, storage %s: %q, %v", h.what, nuid, err)
			c.Case("NewUser with fault", h.hit, err == nil)
			switch {
			case err != nil && (nuid != "" || npw != ""):
				c.Violate("result-with-error", "NewUser failed with %v but returned %q, %q", err, nuid, npw)
			case err == nil:
				u.add("user ID", nuid)
				u.add("password", npw)
				y := &user23{uid: nuid, pw: npw, exists: true}
				users = append(users, y)
				byID[nuid] = y
				known = append(known, npw)
				login(nuid, npw, "user current")
			}
		default:
			tr.add("LoginUser %s %q (%s)", uid, pw, kind)
			login(uid, pw, kind)
		}
	}
	for _, x := range users {
		login(x.uid, x.pw, "at the end, current")
		for _, t := range x.toks {
			ident, err := inst().GetIdentity(ctx, t)
			c.Case("token", x.exists, err == nil)
			if x.exists && (err != nil || ident.ID != x.uid) {
				c.Violate("wrong-identity", "a login token of %q identifies %q, %v; history:\n%s", x.uid, ident.ID, err, &tr)
			}
			if !x.exists && err == nil {
				c.Violate("deleted-user-identified", "a login token of the deleted user %q identifies %+v; history:\n%s", x.uid, ident, &tr)
			}
		}
	}
	// IDs that are almost those of users, with the right passwords.
	for _, x := range users {
		if !x.exists || x.lost {
			continue
		}
		for _, uid := range nearIDs(x.uid) {
			if byID[uid] != nil {
				continue
			}
			login(uid, x.pw, "almost the user ID")
			if npw, err := inst().ChangeUserPassword(ctx, uid, x.pw); err == nil {
				c.Violate("wrong-password-accepted", "ChangeUserPassword(%q, %q) succeeded (%q), but the user is %q", uid, x.pw, npw, x.uid)
				return
			} else if !errors.Is(err, id.ErrNotAuthenticated) || npw != "" {
				c.Violate("wrong-error", "ChangeUserPassword(%q) of an unknown user returned %q, %v", uid, npw, err)
			}
		}
		login(x.uid, x.pw, "user current")
		break
	}
}

// c23Spellings tries other spellings of a user ID and of its password.
func c23Spellings(c *kit.C, k kit.Keys, r *rand.Rand, i int) {
	st := providers[i%len(providers)].make()
	s, s2 := kit.NewStandalone(k, st), kit.NewStandalone(k, st)
	uid, pw := must2(s.NewUser(ctx, id.ScopeAll))
	check := func(s *id.Standalone, u, p string) {
		c.Count("refused", 1)
		c.Case("spelling", u, p)
		if t, _, err := s.LoginUser(ctx, u, p); err == nil || t != "" || !errors.Is(err, id.ErrNotAuthenticated) {
			c.Violate("wrong-password-accepted", "LoginUser(%q, %q) returned %q, %v, but the user is %q with password %q", u, p, t, err, uid, pw)
		}
		if r.IntN(4) > 0 {
			return
		}
		if npw, err := s.ChangeUserPassword(ctx, u, p); err == nil || npw != "" || !errors.Is(err, id.ErrNotAuthenticated) {
			c.Violate("wrong-password-accepted", "ChangeUserPassword(%q, %q) returned %q, %v, but the user is %q with password %q", u, p, npw, err, uid, pw)
		}
	}
	for n := 0; n < 2; n++ {
		for _, v := range kit.Variants(uid)[1:] {
			check(s, v, pw)
		}
		for j, v := range kit.Variants(pw)[1:] {
			if j%8 == i%8 && !sameHMACKey(v, pw) {
				check(s2, uid, v)
			}
		}
		tok, _ := must2(s.LoginUser(ctx, uid, pw))
		if who, err := s2.GetIdentity(ctx, tok); err != nil || who.ID != uid {
			c.Violate("wrong-identity", "the token of %q identifies %q, %v", uid, who.ID, err)
		}
		pw = must(s2.ChangeUserPassword(ctx, uid, pw))
	}
}

// c23Stored looks at what a new password leaves in storage: a salted hash, with a new salt.
func c23Stored(c *kit.C, k kit.Keys, u *unique, tap *kit.Tap, uid, pw string) {
	raw, err := base64.RawURLEncoding.DecodeString(pw)
	if err != nil {
		raw = []byte(pw)
	}
	for _, e := range tap.Events() {
		if e.Op != "Put" && e.Op != "Update" || e.Type != id.DataTypeSealedUser {
			continue
		}
		var rec ref.UserRecord
		if err := json.Unmarshal(e.Data, &rec); err != nil {
			continue // the format is the matter of another property
		}
		dek, err := ref.Unwrap(k.ID.UEK, rec.WrappedKey)
		if err != nil {
			continue
		}
		aad, _ := json.Marshal(uid)
		plain, err := ref.GCMOpen(dek, rec.Ciphertext, aad)
		if err != nil {
			continue
		}
		c.Count("opened_user_records", 1)
		for what, x := range map[string][]byte{"password": []byte(pw), "random bytes of the password": raw, "password in base64": []byte(base64.StdEncoding.EncodeToString([]byte(pw))), "unsalted hash": []byte(base64.StdEncoding.EncodeToString(ref.SHA3_256([]byte(pw))))[:40]} {
			if bytes.Contains(plain, x) {
				c.Violate("password-kept", "the encrypted user record contains the %s: %s", what, plain)
			}
		}
		var usr struct{ SaltAndHash []byte }
		if err := json.Unmarshal(plain, &usr); err != nil || len(usr.SaltAndHash) < 40 {
			c.Violate("password-kept", "the user record has no salt and hash: %s", plain)
			continue
		}
		u.add("salt", string(usr.SaltAndHash[:8]))
		u.add("hash", string(usr.SaltAndHash[8:]))
	}
}

// c23Hashes compares passwords and hashes directly.
func c23Hashes(c *kit.C, u *unique, r *rand.Rand, i int) {
	h := crypto.NewPasswordHasher()
	pw, sh, err := h.GeneratePassword()
	must0(err)
	u.add("password", pw)
	u.add("salt and hash", string(sh))
	compare := func(pw2 string, sh2 []byte, want bool, what string) {
		arg := append([]byte{}, sh2...)
		got := h.Compare(pw2, arg)
		c.Case("compare", what, pw2, sh2)
		if got != want {
			c.Violate("compare", "Compare(%q, %x) = %v for the password %q with salt and hash %x (%s)", pw2, sh2, got, pw, sh, what)
		}
	}
	compare(pw, sh, true, "same")
	for n := 0; n < 40; n++ {
		kind, p := almost(r, pw)
		if !sameHMACKey(p, pw) {
			compare(p, sh, false, kind)
		}
		m := append([]byte{}, sh...)
		m[r.IntN(len(m))] ^= 1 << r.IntN(8)
		compare(pw, m, false, "one bit of the hash")
	}
	// All lengths.
	for n := 0; n < len(sh); n++ {
		if n%8 == i%8 || n == 8 || n == 0 || n == len(sh)-1 {
			compare(pw, sh[:n], false, "short hash")
		}
	}
	compare(pw, append(append([]byte{}, sh...), 0), false, "long hash")
	compare(pw, append(append([]byte{}, sh...), sh[8:]...), false, "long hash")
	compare(pw, make([]byte, 40), false, "zero hash")
	compare("", make([]byte, 40), false, "zero hash")
	compare(pw, nil, false, "no hash")
	compare("", nil, false, "no hash")
	compare("", sh[:8], false, "no hash")
	compare(pw, sh, true, "same again")
}
