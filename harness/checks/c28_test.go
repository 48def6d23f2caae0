package checks

import (
	"bytes"
	"context"
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"testing"
	"time"

	d1 "github.com/cybercryptio/d1-lib/v2"
	"github.com/cybercryptio/d1-lib/v2/crypto"
	"github.com/cybercryptio/d1-lib/v2/id"
	"github.com/cybercryptio/d1-lib/v2/index"
	"github.com/cybercryptio/d1-lib/v2/io"
	"github.com/cybercryptio/d1-lib/v2/key"

	"verif/harness/kit"
	"verif/harness/ref"
)

// C28: errors tell what happened.
func TestC28(t *testing.T) {
	kit.Run(t, "C28", "fault_enumeration", "An evaluation is one failing call whose error is compared with those that its cause allows. Non-trivial: distinct (operation, storage call, way and kind of failure) and (operation, condition).", func(c *kit.C) {
		n := c.N(24, 120)
		c.Parallel("failures", n, func(i int) { prep(c, func() { c28Failures(c, i) }) })
		c.Parallel("documented", n, func(i int) { prep(c, func() { c28Documented(c, i) }) })
		c.Parallel("conditions", c.N(36, 400), func(i int) { prep(c, func() { c28Conditions(c, i) }) })
		c.Parallel("constructors", n, func(i int) { prep(c, func() { c28Constructors(c, i) }) })
		c.Require("failures", 3000)
		c.Require("documented", 300)
		c.Require("conditions", 300)
	})
}

// documented are the errors that the library defines.
var documented = map[string]error{
	"d1.ErrNotAuthenticated": d1.ErrNotAuthenticated, "d1.ErrNotAuthorized": d1.ErrNotAuthorized, "d1.ErrObjectNotFound": d1.ErrObjectNotFound, "d1.ErrAccessNotFound": d1.ErrAccessNotFound,
	"d1.ErrObjectAlreadyExists": d1.ErrObjectAlreadyExists, "d1.ErrAccessAlreadyExists": d1.ErrAccessAlreadyExists, "crypto.ErrInvalidKeyLength": crypto.ErrInvalidKeyLength,
	"id.ErrUserNotFound": id.ErrUserNotFound, "id.ErrGroupNotFound": id.ErrGroupNotFound, "id.ErrUserAlreadyExists": id.ErrUserAlreadyExists, "id.ErrGroupAlreadyExists": id.ErrGroupAlreadyExists,
	"id.ErrNotAuthorized": id.ErrNotAuthorized, "id.ErrNotAuthenticated": id.ErrNotAuthenticated, "index.ErrInvalidMasterKeyLength": index.ErrInvalidMasterKeyLength,
	"index.ErrNotAuthenticated": index.ErrNotAuthenticated, "index.ErrNotAuthorized": index.ErrNotAuthorized, "index.ErrNodeNotFound": index.ErrNodeNotFound, "index.ErrNodeAlreadyExists": index.ErrNodeAlreadyExists,
}

// kinds names the documented errors that err is.
func kinds(err error) []string {
	out := map[string]bool{}
	for n, e := range documented {
		if errors.Is(err, e) {
			out[n] = true
		}
	}
	return keysOf(out)
}

// codeError is an error with a type of its own.
type codeError struct {
	code int
	like error
}

func (e *codeError) Error() string        { return fmt.Sprintf("code %d", e.code) }
func (e *codeError) Is(target error) bool { return e.like != nil && target == e.like }

// authPart is the not-authenticated error of a part of the library.
var authPart = map[string]string{"d1": "d1.ErrNotAuthenticated", "index": "index.ErrNotAuthenticated", "id": "id.ErrNotAuthenticated"}

// c28Failures: failures that storage does not document come back as what they are.
func c28Failures(c *kit.C, i int) {
	r := c.Rand("failures", i)
	var tap *kit.Tap
	w := newWorld(r, kit.NewKeys(r), i%2 == 0, func(p io.Provider) io.Provider { tap = kit.NewTap(p); return tap }, nil)
	errs := append([]error{&codeError{code: 7}, fmt.Errorf("%w and more", &codeError{code: 8}), errors.New("object not found"), errors.New("node not found")}, failures...)
	errs = errs[:len(errs):len(errs)]
	errs = append(errs, errors.Join(kit.ErrInjected, context.DeadlineExceeded))
	for _, op := range w.ops() {
		for _, mode := range faultModes[:3] {
			for n := 0; n < 40; n++ {
				w.reset()
				failure := errs[r.IntN(len(errs))]
				hit := false
				var first kit.Event
				fctx, cancel := faultAt(ctx, tap, n, mode, failure, &hit)
				hook := tap.Hook
				seen := false
				tap.Hook = func(e kit.Event) kit.Fault {
					f := hook(e)
					if f != kit.None && !seen {
						seen, first = true, e
					}
					return f
				}
				got, err := op.run(fctx)
				noFaults(tap)
				cancel()
				if !hit {
					if err != nil {
						c.Violate("fails:"+op.name, "%s %s fails without any failure of storage: %v", op.part, op.name, err)
					}
					break
				}
				c.Case("failure", op.part, op.name, mode.name, n, failure.Error(), i%2)
				if err == nil {
					continue // whether success is right is for other checks
				}
				c.Count("failures", 1)
				c.SampleEvery(op.part+op.name, "%s %s, %v %s with %q: %v", op.part, op.name, first, mode.name, failure, err)
				where := fmt.Sprintf("%s %s, of which storage call %v %s with %q", op.part, op.name, first, mode.name, failure)
				if got != "" {
					c.Violate("result:"+op.name, "%s, fails with %v but returns %s", where, err, got)
				}
				user := first.Op == "Get" && (first.Type == id.DataTypeSealedUser || first.Type == id.DataTypeSealedGroup)
				k := kinds(err)
				switch {
				case user && len(k) == 1 && k[0] == authPart[op.part] && (op.part != "id" || string(first.ID) != w.uid2 || op.name == "NewGroup"):
				case user && op.part != "id":
					c.Violate("not-authn:"+op.name, "%s, fails with %v, not with its not-authenticated error, although the caller could not be authenticated", where, err)
				case !errors.Is(err, failure):
					c.Violate("hidden:"+op.name, "%s, fails with %q, which is not that failure", where, err)
				case len(k) > 0:
					c.Violate("mistaken:"+op.name, "%s, fails with %q, which also says %v", where, err, k)
				}
				var code, want *codeError
				if errors.As(failure, &want) && errors.Is(err, failure) && (!errors.As(err, &code) || code != want) {
					c.Violate("hidden:"+op.name, "%s, fails with %q, from which its type is lost", where, err)
				}
			}
		}
	}
}

// c28Documented: the documented errors of storage, in any wrapping, become the library's own.
func c28Documented(c *kit.C, i int) {
	r := c.Rand("documented", i)
	var tap *kit.Tap
	w := newWorld(r, kit.NewKeys(r), i%2 == 0, func(p io.Provider) io.Provider { tap = kit.NewTap(p); return tap }, nil)
	wrap := map[string]func(error) error{
		"as it is":      func(e error) error { return e },
		"wrapped":       func(e error) error { return fmt.Errorf("storage: %w", e) },
		"wrapped twice": func(e error) error { return fmt.Errorf("a: %w", fmt.Errorf("%w: b", e)) },
		"joined":        func(e error) error { return errors.Join(errors.New("another"), e) },
		"by Is":         func(e error) error { return &codeError{404, e} },
	}
	names := map[io.DataType]string{dtObject: "d1.ErrObject", dtAccess: "d1.ErrAccess", dtNode: "index.ErrNode", dtUser: "id.ErrUser", dtGroup: "id.ErrGroup"}
	for _, op := range w.ops() {
		for _, wn := range keysOf(wrap) {
			for n := 0; n < 40; n++ {
				w.reset()
				tap.Reset()
				var call kit.Event
				hit := false
				tap.Hook = func(e kit.Event) kit.Fault {
					if e.N != n {
						return kit.None
					}
					hit, call = true, e
					switch e.Op {
					case "Put":
						tap.Err = wrap[wn](io.ErrAlreadyExists)
					case "Get", "Update":
						tap.Err = wrap[wn](io.ErrNotFound)
					default:
						return kit.None
					}
					return kit.Before
				}
				got, err := op.run(ctx)
				noFaults(tap)
				if !hit {
					break
				}
				if call.Op == "Delete" {
					continue
				}
				c.Count("documented", 1)
				c.Case("documented", op.part, op.name, n, wn, i%2)
				name := names[call.Type]
				if name == "" {
					c.Violate("type", "%s %s made a storage call with a type that is not documented: %v", op.part, op.name, call)
					continue
				}
				want := name + "NotFound"
				if call.Op == "Put" {
					want = name + "AlreadyExists"
				}
				k := kinds(err)
				where := fmt.Sprintf("%s %s, of which storage call %v ended with the documented error %s", op.part, op.name, call, wn)
				user := call.Type == id.DataTypeSealedUser || call.Type == id.DataTypeSealedGroup
				ok := len(k) == 1 && k[0] == want
				switch {
				case op.part == "index" && call.Op == "Get" && call.Type == io.DataTypeSealedNode: // the end of the keyword's entries
					ok = err == nil || len(k) == 1 && k[0] == "index.ErrNodeAlreadyExists"
				case op.part == "d1" && op.name == "Delete" && call.Op == "Get" && call.Type == io.DataTypeSealedAccess:
					ok = err == nil
				case call.Op == "Get" && user && op.part != "id":
					ok = len(k) == 1 && k[0] == authPart[op.part]
				case call.Op == "Get" && user:
					ok = ok || len(k) == 1 && k[0] == authPart[op.part] && string(call.ID) != w.uid2
					if op.name == "NewGroup" && len(k) == 1 && k[0] == authPart["id"] {
						ok = true
					}
				}
				if op.name == "Delete again" && call.Op == "Get" && call.Type == io.DataTypeSealedAccess {
					ok = err == nil
				}
				if !ok {
					c.Violate("documented:"+op.name+":"+want, "%s, gives %v, which is %v, instead of %s", where, err, k, want)
				}
				if err != nil && got != "" {
					c.Violate("result:"+op.name, "%s, fails with %v but returns %s", where, err, got)
				}
			}
		}
	}
}

// c28Conditions: what is wrong is what the error says.
func c28Conditions(c *kit.C, i int) {
	r := c.Rand("conditions", i)
	k := kit.NewKeys(r)
	w := newWorld(r, k, i%2 == 0, nil, nil)
	expect := func(part, op, cond string, run func() error, want ...string) {
		w.reset()
		err := run()
		c.Count("conditions", 1)
		c.Case("condition", part, op, cond, i%2)
		c.SampleEvery(part+cond, "%s %s although %s: %v", part, op, cond, err)
		got := kinds(err)
		for _, x := range want {
			if x == "" && err == nil || x == "?" && err != nil && len(got) == 0 || len(got) == 1 && got[0] == x {
				return
			}
		}
		c.Violate("condition:"+op+":"+cond, "%s %s although %s gives %v, which is %q instead of %q", part, op, cond, err, got, want)
	}
	badTokens := map[string]string{"": "the token is empty", "x": "the token is junk", w.tok[:len(w.tok)-3]: "the token is cut", w.uid: "the token is a user ID"}
	for tok, cond := range badTokens {
		expect("d1", "Encrypt", cond, func() error { _, err := w.d.Encrypt(ctx, tok, obj(nil, nil)); return err }, "d1.ErrNotAuthenticated")
		for _, op := range objectOps {
			expect("d1", op.name, cond, func() error { _, err := op.run(w.d, tok, w.oid); return err }, "d1.ErrNotAuthenticated")
			expect("d1", op.name, cond+" and there is no object", func() error { _, err := op.run(w.d, tok, w.gone); return err }, "d1.ErrNotAuthenticated")
		}
		expect("index", "Add", cond, func() error { return w.ix.Add(ctx, tok, "a", "b") }, "index.ErrNotAuthenticated")
		expect("index", "Search", cond, func() error { _, err := w.ix.Search(ctx, tok, "apple"); return err }, "index.ErrNotAuthenticated")
		expect("index", "Delete", cond, func() error { return w.ix.Delete(ctx, tok, "apple", "1") }, "index.ErrNotAuthenticated")
		expect("id", "GetIdentity", cond, func() error { _, err := w.s.GetIdentity(ctx, tok); return err }, "id.ErrNotAuthenticated")
		expect("id", "NewGroup", cond, func() error { _, err := w.s.NewGroup(ctx, tok); return err }, "id.ErrNotAuthenticated")
		expect("id", "DeleteUser", cond, func() error { return w.s.DeleteUser(ctx, tok, w.uid2) }, "id.ErrNotAuthenticated")
		expect("id", "AddUserToGroups", cond, func() error { return w.s.AddUserToGroups(ctx, tok, w.uid2, w.gids[0]) }, "id.ErrNotAuthenticated")
		expect("id", "RemoveUserFromGroups", cond, func() error { return w.s.RemoveUserFromGroups(ctx, tok, w.uid2, w.gids[0]) }, "id.ErrNotAuthenticated")
	}
	for cond, del := range map[string]func(){
		"the caller is deleted":           func() { w.st.Remove([]byte(w.uid), id.DataTypeSealedUser) },
		"a group of the caller is gone":   func() { w.st.Remove([]byte(w.gids[0]), id.DataTypeSealedGroup) },
		"the caller's record is damaged":  func() { w.st.Set([]byte(w.uid), id.DataTypeSealedUser, []byte("{}")) },
		"the record of a group is nobody": func() { w.st.Set([]byte(w.gids[1]), id.DataTypeSealedGroup, nil) },
	} {
		if i%2 == 0 { // with Standalone
			for _, op := range objectOps {
				expect("d1", op.name, cond, func() error { del(); _, err := op.run(w.d, w.tok, w.oid); return err }, "d1.ErrNotAuthenticated")
			}
			expect("index", "Search", cond, func() error { del(); _, err := w.ix.Search(ctx, w.tok, "apple"); return err }, "index.ErrNotAuthenticated")
		}
		want := map[string][]string{"the caller is deleted": {"id.ErrUserNotFound", "id.ErrNotAuthenticated"}, "a group of the caller is gone": {"id.ErrGroupNotFound", "id.ErrNotAuthenticated"}}[cond]
		if want != nil {
			expect("id", "GetIdentity", cond, func() error { del(); _, err := w.s.GetIdentity(ctx, w.tok); return err }, want...)
			expect("id", "NewGroup", cond, func() error { del(); _, err := w.s.NewGroup(ctx, w.tok); return err }, want...)
			expect("id", "AddUserToGroups", cond, func() error { del(); return w.s.AddUserToGroups(ctx, w.tok, w.uid2, w.gids[2]) }, want...)
		}
	}
	for uid, cond := range map[string]string{newUUID(r).String(): "there is no such user", w.gids[0]: "that is a group", "": "the user ID is empty", w.uid2 + " ": "the user ID is similar"} {
		expect("id", "LoginUser", cond, func() error { _, _, err := w.s.LoginUser(ctx, uid, w.pw); return err }, "id.ErrNotAuthenticated")
		expect("id", "ChangeUserPassword", cond, func() error { _, err := w.s.ChangeUserPassword(ctx, uid, w.pw); return err }, "id.ErrNotAuthenticated")
		expect("id", "AddUserToGroups", cond, func() error { return w.s.AddUserToGroups(ctx, w.tok, uid, w.gids[0]) }, "id.ErrUserNotFound")
		expect("id", "RemoveUserFromGroups", cond, func() error { return w.s.RemoveUserFromGroups(ctx, w.tok, uid, w.gids[0]) }, "id.ErrUserNotFound")
	}
	expect("id", "LoginUser", "the password is wrong", func() error { _, _, err := w.s.LoginUser(ctx, w.uid, w.pw+"x"); return err }, "id.ErrNotAuthenticated")
	expect("id", "ChangeUserPassword", "the password is wrong", func() error { _, err := w.s.ChangeUserPassword(ctx, w.uid, ""); return err }, "id.ErrNotAuthenticated")
	for _, g := range []string{w.gids[2], "none", "", w.uid} {
		cond := "the caller does not belong to " + fmt.Sprintf("%.5q", g)
		if g == w.gids[2] {
			cond = "the caller does not belong to the group"
		}
		expect("id", "AddUserToGroups", cond, func() error { return w.s.AddUserToGroups(ctx, w.tok2, w.uid, w.gids[0], g) }, "id.ErrNotAuthorized")
		expect("id", "RemoveUserFromGroups", cond, func() error { return w.s.RemoveUserFromGroups(ctx, w.tok2, w.uid, g, w.gids[0]) }, "id.ErrNotAuthorized")
	}
	// Objects that are not there, or not completely.
	for _, op := range objectOps {
		want := "d1.ErrAccessNotFound"
		if op.name == "Delete" {
			want = ""
		}
		expect("d1", op.name, "the object is deleted", func() error { _, err := op.run(w.d, w.tok, w.gone); return err }, want)
		expect("d1", op.name, "there never was an object", func() error { _, err := op.run(w.d, w.tok, newUUID(r)); return err }, want)
		expect("d1", op.name, "its access record is gone", func() error {
			w.st.Remove(w.oid.Bytes(), io.DataTypeSealedAccess)
			_, err := op.run(w.d, w.tok, w.oid)
			return err
		}, want)
		want = ""
		if op.name == "Decrypt" || op.name == "Update" {
			want = "d1.ErrObjectNotFound"
		}
		expect("d1", op.name, "its object record is gone", func() error {
			w.st.Remove(w.oid.Bytes(), io.DataTypeSealedObject)
			_, err := op.run(w.d, w.tok, w.oid)
			return err
		}, want)
		expect("d1", op.name, "the caller is not in the access list", func() error {
			d := kit.NewD1(k, w.st, w.ids)
			tok := w.ids.User("stranger", id.ScopeAll)
			_, err := op.run(d, tok, w.oid)
			return err
		}, "d1.ErrNotAuthorized")
		expect("d1", op.name, "the caller lacks the scope", func() error {
			d := kit.NewD1(k, w.st, w.ids)
			tok := w.ids.User(w.uid, id.ScopeAll&^op.scope)
			_, err := op.run(d, tok, w.oid)
			return err
		}, "d1.ErrNotAuthorized")
		expect("d1", op.name, "the Identity Provider fails", func() error {
			d := kit.NewD1(k, w.st, w.ids)
			w.ids.SetFunc("failing", func() (id.Identity, error) {
				return id.Identity{ID: w.uid, Scopes: id.ScopeAll}, kit.Pick(r, failures)
			})
			_, err := op.run(d, "failing", w.oid)
			return err
		}, "d1.ErrNotAuthenticated")
	}
	// Records that are damaged: an error, but none of the documented ones.
	for cond, damage := range map[string]func([]byte) []byte{
		"is empty":              func([]byte) []byte { return nil },
		"is an empty structure": func([]byte) []byte { return []byte("{}") },
		"is null":               func([]byte) []byte { return []byte("null") },
		"is cut":                func(b []byte) []byte { return b[:len(b)/2] },
		"is altered": func(b []byte) []byte {
			// (Only what is sealed: not everything else has a meaning.)
			const field = `"Ciphertext":"`
			if at := bytes.Index(b, []byte(field)); at >= 0 {
				b[at+len(field)+r.IntN(20)] ^= 1
			} else {
				b[r.IntN(len(b))] ^= 1 << r.IntN(8)
			}
			return b
		},
		"has an altered field": func(b []byte) []byte {
			var m map[string]any
			if json.Unmarshal(b, &m) != nil {
				return b[1:]
			}
			var fields []string
			for _, f := range []string{"Ciphertext", "WrappedKey"} {
				if s, ok := m[f].(string); ok && s != "" {
					fields = append(fields, f)
				}
			}
			if fields == nil {
				return b[1:]
			}
			f := kit.Pick(r, fields)
			raw, err := base64.StdEncoding.DecodeString(m[f].(string))
			if err != nil || len(raw) == 0 {
				return b[1:]
			}
			raw[r.IntN(len(raw))] ^= 1 << r.IntN(8)
			m[f] = raw
			return must(json.Marshal(m))
		},
	} {
		spoil := func(rid []byte, dt io.DataType) {
			b, _ := w.st.Raw(rid, dt)
			w.st.Set(rid, dt, damage(b))
		}
		for _, op := range objectOps {
			expect("d1", op.name, "the access record "+cond, func() error {
				spoil(w.oid.Bytes(), io.DataTypeSealedAccess)
				_, err := op.run(w.d, w.tok, w.oid)
				return err
			}, "?")
			want := ""
			if op.name == "Decrypt" {
				want = "?"
			}
			expect("d1", op.name, "the object record "+cond, func() error {
				spoil(w.oid.Bytes(), io.DataTypeSealedObject)
				_, err := op.run(w.d, w.tok, w.oid)
				return err
			}, want)
		}
		k1, _ := ref.IndexKeys(k.D1.IEK, "apple")
		for op, run := range map[string]func() error{
			"Search": func() error { _, err := w.ix.Search(ctx, w.tok, "apple"); return err },
			"Add":    func() error { return w.ix.Add(ctx, w.tok, "apple", "x") },
			"Delete": func() error { return w.ix.Delete(ctx, w.tok, "apple", "3") },
		} {
			n := uint64(r.IntN(4))
			expect("index", op, "a node "+cond, func() error { spoil(ref.Label(k1, n), io.DataTypeSealedNode); return run() }, "?")
		}
		other := func() { spoil([]byte(w.uid2), id.DataTypeSealedUser) }
		expect("id", "AddUserToGroups", "the user's record "+cond, func() error { other(); return w.s.AddUserToGroups(ctx, w.tok, w.uid2, w.gids[2]) }, "?")
		expect("id", "RemoveUserFromGroups", "the user's record "+cond, func() error { other(); return w.s.RemoveUserFromGroups(ctx, w.tok, w.uid2, w.gids[0]) }, "?")
		expect("id", "GetIdentity", "the user's record "+cond, func() error { other(); _, err := w.s.GetIdentity(ctx, w.tok2); return err }, "?", "id.ErrNotAuthenticated")
		expect("id", "NewGroup", "the user's record "+cond, func() error { other(); _, err := w.s.NewGroup(ctx, w.tok2); return err }, "?", "id.ErrNotAuthenticated")
		expect("id", "LoginUser", "the user's record "+cond, func() error {
			spoil([]byte(w.uid), id.DataTypeSealedUser)
			_, _, err := w.s.LoginUser(ctx, w.uid, w.pw)
			return err
		}, "id.ErrNotAuthenticated")
		group := func() { spoil([]byte(w.gids[0]), id.DataTypeSealedGroup) }
		expect("id", "GetIdentity", "the record of a group "+cond, func() error { group(); _, err := w.s.GetIdentity(ctx, w.tok); return err }, "?", "id.ErrNotAuthenticated")
		tok := must(w.d.CreateToken(ctx, []byte("contents")))
		tok.Ciphertext = damage(tok.Ciphertext)
		expect("d1", "GetTokenContents", "the token's ciphertext "+cond, func() error { _, err := w.d.GetTokenContents(ctx, &tok); return err }, "?")
		tok = must(w.d.CreateToken(ctx, []byte("contents")))
		tok.ExpiryTime = tok.ExpiryTime.Add(-100 * 24 * time.Hour)
		expect("d1", "GetTokenContents", "the token is too old", func() error { _, err := w.d.GetTokenContents(ctx, &tok); return err }, "?")
	}
	ix := kit.NewIndex(k, w.st, w.ids)
	weak := w.ids.User("weak", id.ScopeAll&^id.ScopeIndex)
	w.ids.SetFunc("failing", func() (id.Identity, error) {
		return id.Identity{ID: w.uid, Scopes: id.ScopeAll}, kit.Pick(r, failures)
	})
	for tok, cond := range map[string]string{weak: "the caller lacks the scope", "failing": "the Identity Provider fails"} {
		want := map[string]string{weak: "index.ErrNotAuthorized", "failing": "index.ErrNotAuthenticated"}[tok]
		expect("index", "Add", cond, func() error { return ix.Add(ctx, tok, "a", "b") }, want)
		expect("index", "Search", cond, func() error { _, err := ix.Search(ctx, tok, "apple"); return err }, want)
		expect("index", "Delete", cond, func() error { return ix.Delete(ctx, tok, "apple", "1") }, want)
	}
}

type failingKeys struct{ err error }

func (f failingKeys) GetKeys(context.Context) (key.Keys, error) { return key.Keys{}, f.err }

// c28Constructors: the errors of constructors.
func c28Constructors(c *kit.C, i int) {
	r := c.Rand("constructors", i)
	for _, failure := range append([]error{&codeError{code: 9}}, failures...) {
		// With the keys all the same: the error decides.
		for _, p := range []key.Provider{failingKeys{failure}, &kit.KeyProvider{K: kit.NewKeys(r).D1, Err: failure}} {
			_, err := d1.New(ctx, p, kit.NewStore(), kit.NewIDs())
			_, ierr := index.NewSecureIndex(ctx, p, kit.NewStore(), kit.NewIDs())
			c.Case("key provider", failure.Error(), fmt.Sprintf("%T", p))
			c.Count("conditions", 2)
			if !errors.Is(err, failure) || !errors.Is(ierr, failure) || len(kinds(err))+len(kinds(ierr)) > 0 {
				c.Violate("key-provider", "the Key Provider fails with %q, New with %v, NewSecureIndex with %v", failure, err, ierr)
			}
		}
	}
	for n := 0; n < 40; n++ {
		length := kit.Pick(r, []int{0, 1, 16, 24, 31, 33, 64, 1000})
		bad := kit.Bytes(r, length)
		for slot := 0; slot < 7; slot++ {
			k := kit.NewKeys(r)
			*[]*[]byte{&k.D1.KEK, &k.D1.AEK, &k.D1.TEK, &k.D1.IEK, &k.ID.UEK, &k.ID.GEK, &k.ID.TEK}[slot] = bad
			var err error
			want := "crypto.ErrInvalidKeyLength"
			switch {
			case slot < 3:
				_, err = d1.New(ctx, &kit.KeyProvider{K: k.D1}, kit.NewStore(), kit.NewIDs())
			case slot == 3:
				want = "index.ErrInvalidMasterKeyLength"
				_, err = index.NewSecureIndex(ctx, &kit.KeyProvider{K: k.D1}, kit.NewStore(), kit.NewIDs())
			default:
				_, err = id.NewStandalone(k.ID, kit.NewStore())
			}
			c.Case("key length", slot, length)
			c.Count("conditions", 1)
			if got := kinds(err); len(got) != 1 || got[0] != want {
				c.Violate("key-length", "a key of %d bytes in place %d gives %v instead of %s", length, slot, err, want)
			}
		}
	}
}
