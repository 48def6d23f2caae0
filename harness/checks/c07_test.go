package checks

import (
	"bytes"
	"context"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"math/rand/v2"
	"strings"
	"testing"

	"github.com/gofrs/uuid"

	"github.com/cybercryptio/d1-lib/v2/data"
	"github.com/cybercryptio/d1-lib/v2/id"
	"github.com/cybercryptio/d1-lib/v2/io"

	"verif/harness/kit"
)

// C07: storage never sees plaintext, groups, keywords, passwords or keys.
func TestC07(t *testing.T) {
	kit.Run(t, "C07", "exploration", "An evaluation is one call to the IO Provider, or error message, scanned for all secrets of its run in many encodings, or one pair of calls of two runs compared. Non-trivial: distinct (call, type, size) of scanned calls and distinct pairs.", func(c *kit.C) {
		n := c.N(48, 600)
		c.Parallel("scan", n, func(i int) { prep(c, func() { c07Scan(c, i) }) })
		m := c.N(40, 1000)
		c.Parallel("pair", m, func(i int) { prep(c, func() { c07Pair(c, i) }) })
		c.Parallel("errors", c.N(24, 300), func(i int) { prep(c, func() { c07Errors(c, i) }) })
		c07Self(c)
		c.Require("scanned_bytes", 500000)
		c.Require("paired_calls", 2000)
		c.Require("errors_scanned", 500)
		c.Require("failures_scanned", 3000)
	})
}

// scanner finds parts of secrets in byte strings.
type scanner struct {
	win map[int]map[string]string // window length -> window -> name of the secret
}

func newScanner() *scanner { return &scanner{map[int]map[string]string{}} }

func (s *scanner) windows(name string, b []byte, n int) {
	m := s.win[n]
	if m == nil {
		m = map[string]string{}
		s.win[n] = m
	}
	for i := 0; i+n <= len(b); i++ {
		m[string(b[i:i+n])] = name
	}
}

// add makes the secret known, in several encodings.
func (s *scanner) add(name string, b []byte) {
	const w = 9
	rev := bytes.Clone(b)
	for i, j := 0, len(rev)-1; i < j; i, j = i+1, j-1 {
		rev[i], rev[j] = rev[j], rev[i]
	}
	for _, x := range [][]byte{b, rev, bytes.ToLower(b), bytes.ToUpper(b)} {
		s.windows(name, x, w)
		h := hex.EncodeToString(x)
		s.windows(name+" in hex", []byte(h), 2*w)
		s.windows(name+" in hex", []byte(strings.ToUpper(h)), 2*w)
		for off := 0; off < 3; off++ {
			y := append(make([]byte, off), x...)
			e := base64.StdEncoding.EncodeToString(y[:len(y)/3*3])
			if len(e) < 5 {
				continue
			}
			e = e[(off*8+5)/6:]
			s.windows(name+" in base64", []byte(e), 12)
			s.windows(name+" in base64", []byte(strings.NewReplacer("+", "-", "/", "_").Replace(e)), 12)
		}
	}
	var wide []byte
	for _, x := range b {
		wide = append(wide, x, 0)
	}
	s.windows(name+" in UTF-16", wide, 2*w)
}

// scan looks for secrets in b and in whatever is encoded in it.
func (s *scanner) scan(b []byte, depth int) (string, bool) {
	for n, m := range s.win {
		for i := 0; i+n <= len(b); i++ {
			if name, ok := m[string(b[i:i+n])]; ok {
				return fmt.Sprintf("%s (%q)", name, b[i:i+n]), true
			}
		}
	}
	if depth == 0 {
		return "", false
	}
	for _, x := range inner(b) {
		if what, ok := s.scan(x, depth-1); ok {
			return "encoded " + what, true
		}
	}
	return "", false
}

// inner returns what is encoded in b: strings of a JSON value, base64, hex.
func inner(b []byte) [][]byte {
	var out [][]byte
	var v any
	if json.Unmarshal(b, &v) == nil {
		var walk func(v any)
		walk = func(v any) {
			switch x := v.(type) {
			case string:
				out = append(out, []byte(x))
			case []any:
				for _, y := range x {
					walk(y)
				}
			case map[string]any:
				for k, y := range x {
					out = append(out, []byte(k))
					walk(y)
				}
			}
		}
		walk(v)
		return out
	}
	if len(b) < 8 {
		return nil
	}
	for _, e := range []*base64.Encoding{base64.StdEncoding, base64.RawStdEncoding, base64.URLEncoding, base64.RawURLEncoding} {
		if x, err := e.DecodeString(string(b)); err == nil {
			out = append(out, x)
		}
	}
	if x, err := hex.DecodeString(string(b)); err == nil {
		out = append(out, x)
	}
	return out
}

// c07Self makes sure that the scanner finds what it should.
func c07Self(c *kit.C) {
	r := c.Rand("self")
	secret := kit.Alnum(r, 24)
	s := newScanner()
	s.add("secret", []byte(secret))
	b64 := func(b string) string { return base64.StdEncoding.EncodeToString([]byte(b)) }
	for i, x := range []string{secret, "xx" + secret + "y", secret[6:16], hex.EncodeToString([]byte("a" + secret)), b64(secret), b64("a" + secret), b64("ab" + secret),
		`{"A":"` + b64(`{"B":"`+b64(secret)+`"}`) + `"}`, strings.ToLower(secret), `{"A":"` + secret[3:13] + `"}`, b64(b64(secret))} {
		if _, ok := s.scan([]byte(x), 4); !ok {
			c.Inconclusive("the scanner does not find the secret in probe %d (%s)", i, x)
		}
	}
	if what, ok := s.scan(kit.Bytes(r, 100000), 4); ok {
		c.Inconclusive("the scanner finds %s in random bytes", what)
	}
}

// c07World is a deployment whose calls to the provider are recorded.
type c07World struct {
	st   *kit.Store
	tap  *kit.Tap
	ids  *kit.IDs
	k    kit.Keys
	prog *rand.Rand // what is done
	sec  func(kind string, n int) string

	scan *scanner
	errs []string
}

// run performs a random program. The program depends on prog only, the secrets on sec only.
func (w *c07World) run(c *kit.C, steps int) {
	r := w.prog
	d := kit.NewD1(w.k, w.tap, w.ids)
	ix := kit.NewIndex(w.k, w.tap, w.ids)
	sa := kit.NewStandalone(w.k, w.tap)
	owner := w.sec("owner", 24)
	tok := w.ids.User(owner, id.ScopeAll)
	badTok := w.ids.User(w.sec("stranger", 24), id.ScopeAll)
	note := func(err error) {
		if err != nil {
			w.errs = append(w.errs, err.Error())
		}
	}
	type user struct{ uid, pwd, tok string }
	var users []*user
	var gids []string
	var oids []uuid.UUID
	groupsOf := map[uuid.UUID][]string{}
	var kws []string
	idx := map[string][]string{}
	for i := 0; i < 3; i++ {
		kws = append(kws, w.sec("keyword", 20))
	}
	login := func(u *user) {
		t, _, err := sa.LoginUser(ctx, u.uid, u.pwd)
		must0(err)
		u.tok = t
		if w.scan != nil {
			w.scan.add("password", []byte(u.pwd))
			// The token's first part is its expiry time, which is public.
			x := must(data.TokenFromString(t))
			w.scan.add("identity token", x.Ciphertext)
			w.scan.add("identity token", x.WrappedKey)
		}
	}
	for s := 0; s < steps; s++ {
		switch op := r.IntN(20); {
		case op < 3 || len(oids) == 0:
			n := []int{0, 8, 12, 16, 24, 30, 31, 32, 33, 48, 100, 1000}[r.IntN(12)]
			if r.IntN(8) == 0 && w.scan == nil {
				n = kit.Pick(r, []int{3000, 5000, 20000, 70000})
			}
			var gs []string
			for i := r.IntN(4); i > 0; i-- {
				gs = append(gs, w.sec("group", 16+r.IntN(20)))
			}
			ad := []byte(kit.Alnum(r, r.IntN(60)))
			oid, err := d.Encrypt(ctx, tok, obj([]byte(w.sec("plaintext", n)), ad), gs...)
			must0(err)
			oids = append(oids, oid)
			groupsOf[oid] = gs
		case op < 5:
			oid := kit.Pick(r, oids)
			must0(d.Update(ctx, tok, oid, obj([]byte(w.sec("plaintext", r.IntN(80))), []byte(kit.Alnum(r, r.IntN(30))))))
		case op < 6:
			must(d.Decrypt(ctx, tok, kit.Pick(r, oids)))
		case op < 7:
			oid := kit.Pick(r, oids)
			g := w.sec("group", 20)
			must0(d.AddGroupsToAccess(ctx, tok, oid, g))
			groupsOf[oid] = append(groupsOf[oid], g)
		case op < 8:
			oid := kit.Pick(r, oids)
			if g := groupsOf[oid]; len(g) > 0 {
				must0(d.RemoveGroupsFromAccess(ctx, tok, oid, g[0]))
				groupsOf[oid] = g[1:]
			}
		case op < 9:
			must(d.GetAccessGroups(ctx, tok, kit.Pick(r, oids)))
		case op < 10 && len(oids) > 2:
			i := r.IntN(len(oids))
			must0(d.Delete(ctx, tok, oids[i]))
			oids = append(oids[:i:i], oids[i+1:]...)
		case op < 13:
			kw := kit.Pick(r, kws)
			v := w.sec("identifier", 18)
			must0(ix.Add(ctx, tok, kw, v))
			idx[kw] = append(idx[kw], v)
		case op < 14:
			kw := kit.Pick(r, kws)
			must(ix.Search(ctx, tok, kw))
		case op < 15:
			kw := kit.Pick(r, kws)
			if l := idx[kw]; len(l) > 0 {
				i := r.IntN(len(l))
				must0(ix.Delete(ctx, tok, kw, l[i]))
				idx[kw] = append(l[:i:i], l[i+1:]...)
			}
		case op < 16:
			if len(users) < 4 {
				u := &user{}
				u.uid, u.pwd = must2(sa.NewUser(ctx, id.ScopeAll))
				login(u)
				users = append(users, u)
			}
		case op < 17 && len(users) > 0:
			u := kit.Pick(r, users)
			gids = append(gids, must(sa.NewGroup(ctx, u.tok, id.ScopeDecrypt)))
		case op < 18 && len(users) > 0 && w.scan != nil:
			u := kit.Pick(r, users)
			u.pwd = must(sa.ChangeUserPassword(ctx, u.uid, u.pwd))
			login(u)
		case op < 19 && len(users) > 1:
			must(sa.GetIdentity(ctx, kit.Pick(r, users).tok))
			t := must(d.CreateToken(ctx, []byte(w.sec("token contents", 30))))
			must(d.GetTokenContents(ctx, &t))
		default:
			// Calls that fail.
			oid := kit.Pick(r, oids)
			for _, o := range objectOps {
				_, err := o.run(d, badTok, oid)
				note(err)
				_, err = o.run(d, "secret token "+w.sec("bad token", 16), oid)
				note(err)
				_, err = o.run(d, tok, uuid.Nil)
				note(err)
			}
			_, _, err := sa.LoginUser(ctx, w.sec("unknown user", 16), w.sec("password", 43))
			note(err)
			for _, u := range users {
				_, _, err = sa.LoginUser(ctx, u.uid, "x")
				note(err)
				_, err = sa.GetIdentity(ctx, u.tok[:40])
				note(err)
			}
			raw, _ := w.st.Raw(oid.Bytes(), io.DataTypeSealedAccess)
			w.st.Set(oid.Bytes(), io.DataTypeSealedAccess, []byte(`{"Ciphertext":"AAAA"}`))
			_, err = d.Decrypt(ctx, tok, oid)
			note(err)
			w.st.Set(oid.Bytes(), io.DataTypeSealedAccess, raw[:len(raw)/2])
			_, err = d.Decrypt(ctx, tok, oid)
			note(err)
			w.st.Set(oid.Bytes(), io.DataTypeSealedAccess, raw)
		}
	}
	_ = gids
}

func c07Scan(c *kit.C, i int) {
	r := c.Rand("scan", i)
	w := &c07World{st: kit.NewStore(), ids: kit.NewIDs(), k: kit.NewKeys(r), prog: r, scan: newScanner()}
	w.tap = kit.NewTap(w.st)
	equal := i%2 == 0 // equal secrets again and again
	again := map[string]string{}
	sr := c.Rand("secrets", i)
	w.sec = func(kind string, n int) string {
		key := fmt.Sprint(kind, n)
		if s, ok := again[key]; ok && equal && kind != "keyword" && sr.IntN(2) == 0 {
			return s
		}
		s := kit.Alnum(sr, n)
		again[key] = s
		w.scan.add(kind, []byte(s))
		return s
	}
	for name, k := range map[string][]byte{"KEK": w.k.D1.KEK, "AEK": w.k.D1.AEK, "TEK": w.k.D1.TEK, "IEK": w.k.D1.IEK, "UEK": w.k.ID.UEK, "GEK": w.k.ID.GEK, "identity TEK": w.k.ID.TEK} {
		w.scan.add(name, k)
	}
	w.run(c, 80)

	// No part of any sealed field occurs twice, even if what is sealed does.
	const win = 8
	seen := map[string]int{}
	for n, e := range w.tap.Events() {
		if e.Op == "Get" {
			continue
		}
		c.Case(e.Op, e.Type, len(e.Data))
		c.Count("scanned_bytes", int64(len(e.ID)+len(e.Data)))
		for _, x := range [][]byte{e.ID, e.Data} {
			if what, ok := w.scan.scan(x, 4); ok {
				c.Violate("leak", "the call %v hands %s to storage: %q", e, what, x)
			}
		}
		var m map[string]any
		if json.Unmarshal(e.Data, &m) != nil {
			continue
		}
		for name, v := range m {
			s, ok := v.(string)
			if !ok || name == "AssociatedData" {
				continue
			}
			b, err := base64.StdEncoding.DecodeString(s)
			if err != nil {
				continue
			}
			for j := 0; j+win <= len(b); j++ {
				k := string(b[j : j+win])
				if prev, ok := seen[k]; ok && (prev != n) {
					c.Violate("repeats", "the call %v hands bytes to storage that call %d did already: %x in %s", e, prev, k, name)
					break
				}
				seen[k] = n
			}
		}
	}
	for _, s := range w.errs {
		c.Eval(1)
		c.Count("errors_scanned", 1)
		if what, ok := w.scan.scan([]byte(s), 2); ok {
			c.Violate("error-leak", "the error %q contains %s", s, what)
		}
	}
	c.Sample("a run of %d calls to the provider with %d windows of secrets, no match", len(w.tap.Events()), len(w.scan.win[9]))
}

// c07Pair runs one program with two different sets of secrets and compares what storage sees.
func c07Pair(c *kit.C, i int) {
	var shapes [2][]string
	for side := 0; side < 2; side++ {
		w := &c07World{st: kit.NewStore(), ids: kit.NewIDs(), k: kit.NewKeys(c.Rand("keys", i, side)), prog: c.Rand("program", i)}
		w.tap = kit.NewTap(w.st)
		sr := c.Rand("secrets", i, side)
		same := map[string]string{}
		w.sec = func(kind string, n int) string {
			// On one side many secrets have much in common, on the other none.
			if side == 0 && kind != "plaintext" && n > 8 && sr.IntN(2) == 0 {
				same["#"] += "x"
				return strings.Repeat("a", n-6) + fmt.Sprintf("%06d", len(same["#"]))
			}
			if kind == "plaintext" && side == 0 && sr.IntN(3) > 0 {
				if s, ok := same[fmt.Sprint(n)]; ok {
					return s
				}
				s := strings.Repeat("a", n)
				same[fmt.Sprint(n)] = s
				return s
			}
			return kit.Alnum(sr, n)
		}
		w.run(c, 60)
		names := map[string]int{}
		for _, e := range w.tap.Events() {
			key := fmt.Sprintf("%d/%x", e.Type, e.ID)
			if e.Type == id.DataTypeSealedGroup {
				key = "group" // the order in which a user's groups are read is not fixed
			}
			n, ok := names[key]
			if !ok {
				n = len(names)
				names[key] = n
			}
			shapes[side] = append(shapes[side], fmt.Sprintf("%s name %d (%d bytes) type %d, %d bytes, %v", e.Op, n, len(e.ID), e.Type, len(e.Data), e.Err))
		}
	}
	a, b := shapes[0], shapes[1]
	for j := 0; j < len(a) || j < len(b); j++ {
		if j >= len(a) || j >= len(b) || a[j] != b[j] {
			x, y := "nothing", "nothing"
			if j < len(a) {
				x = a[j]
			}
			if j < len(b) {
				y = b[j]
			}
			c.Violate("pair", "two runs that differ in secrets only differ for storage at call %d: %s / %s", j, x, y)
			return
		}
		c.Count("paired_calls", 1)
		c.Case("pair", a[j])
	}
}

// c07Errors looks at the errors of operations that fail in all ways.
func c07Errors(c *kit.C, i int) {
	r := c.Rand("errors", i)
	scan := newScanner()
	names := map[string]string{}
	k := kit.NewKeys(r)
	for name, k := range map[string][]byte{"KEK": k.D1.KEK, "AEK": k.D1.AEK, "TEK": k.D1.TEK, "IEK": k.D1.IEK, "UEK": k.ID.UEK, "GEK": k.ID.GEK, "identity TEK": k.ID.TEK} {
		scan.add(name, k)
	}
	var tap *kit.Tap
	w := newWorld(r, k, i%2 == 0, func(p io.Provider) io.Provider { tap = kit.NewTap(p); return tap }, nil, func(s string) string {
		if names[s] == "" {
			names[s] = kit.Alnum(r, 12+r.IntN(20))
			scan.add("the word of "+s, []byte(names[s]))
		}
		return names[s]
	})
	scan.add("password", []byte(w.pw))
	for _, t := range []string{w.tok, w.tok2} {
		x := must(data.TokenFromString(t))
		scan.add("identity token", x.Ciphertext)
		scan.add("identity token", x.WrappedKey)
	}
	ops := w.ops()
	// Refusals
	for _, pw := range []string{w.pw + "x", w.pw[:len(w.pw)-1], "x" + w.pw} {
		ops = append(ops, worldOp{"id", "LoginUser with a wrong password", func(ctx context.Context) (string, error) {
			_, _, err := w.s.LoginUser(ctx, w.uid, pw)
			return "", err
		}}, worldOp{"id", "ChangeUserPassword with a wrong password", func(ctx context.Context) (string, error) {
			_, err := w.s.ChangeUserPassword(ctx, w.uid, pw)
			return "", err
		}})
	}
	for _, tok := range []string{w.tok[:len(w.tok)-5], w.tok + "x", w.tok[1:], w.tok + w.tok2, strings.Replace(w.tok, ".", "", 1)} {
		for _, op := range objectOps {
			ops = append(ops, worldOp{"d1", op.name + " with a wrong token", func(ctx context.Context) (string, error) {
				_, err := op.run(w.d, tok, w.oid)
				return "", err
			}})
		}
		ops = append(ops, worldOp{"index", "Search with a wrong token", func(ctx context.Context) (string, error) {
			_, err := w.ix.Search(ctx, tok, w.kws[0])
			return "", err
		}}, worldOp{"id", "GetIdentity with a wrong token", func(ctx context.Context) (string, error) {
			_, err := w.s.GetIdentity(ctx, tok)
			return "", err
		}}, worldOp{"id", "AddUserToGroups with a wrong token", func(ctx context.Context) (string, error) {
			return "", w.s.AddUserToGroups(ctx, tok, w.uid2, w.gids...)
		}})
	}
	ops = append(ops, worldOp{"id", "AddUserToGroups by who is not in them", func(ctx context.Context) (string, error) {
		return "", w.s.AddUserToGroups(ctx, w.tok2, w.uid, w.gids...)
	}}, worldOp{"id", "AddUserToGroups of a token", func(ctx context.Context) (string, error) {
		return "", w.s.AddUserToGroups(ctx, w.tok, w.tok2, w.gids...)
	}})
	look := func(op worldOp, how string, err error) {
		if err == nil {
			return
		}
		c.Case("error", op.part, op.name, how, err.Error())
		c.Count("failures_scanned", 1)
		for depth := 0; err != nil; depth++ {
			for _, s := range []string{err.Error(), fmt.Sprintf("%+v", err), fmt.Sprintf("%#v", err)} {
				if what, ok := scan.scan([]byte(s), 2); ok {
					c.Violate("error-leak", "%s %s, %s, fails with the error %q, which contains %s", op.part, op.name, how, s, what)
				}
			}
			err = errors.Unwrap(err)
		}
	}
	records := keysOf(w.snap)
	failed := append([]error{io.ErrNotFound, io.ErrAlreadyExists}, failures...)
	for _, op := range ops {
		w.reset()
		_, err := op.run(ctx)
		look(op, "as it is", err)
		for n := 0; n < 12; n++ {
			w.reset()
			mode, failure, hit := kit.Pick(r, faultModes), kit.Pick(r, failed), false
			fctx, cancel := faultAt(ctx, tap, n, mode, failure, &hit)
			_, err := op.run(fctx)
			noFaults(tap)
			cancel()
			look(op, fmt.Sprintf("of which storage call %d %s with %q", n, mode.name, failure), err)
			if !hit {
				break
			}
		}
		// A read finds something else.
		for n := 0; n < 6; n++ {
			w.reset()
			at := r.IntN(6)
			how := ""
			tap.Alter = func(e kit.Event) []byte {
				if e.N != at || len(e.Data) == 0 {
					return e.Data
				}
				switch r.IntN(4) {
				case 0:
					how = "is cut"
					return e.Data[:r.IntN(len(e.Data))]
				case 1:
					how = "is another record"
					return []byte(w.snap[kit.Pick(r, records)])
				case 2:
					how = "is altered"
					b := bytes.Clone(e.Data)
					b[r.IntN(len(b))] ^= 1
					return b
				}
				how = "is nothing"
				return nil
			}
			tap.Reset()
			_, err := op.run(ctx)
			tap.Alter = nil
			look(op, fmt.Sprintf("of which storage call %d %s", at, how), err)
		}
	}
}
