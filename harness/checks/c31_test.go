package checks

import (
	"bytes"
	"context"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"math/rand/v2"
	"sort"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	"github.com/gofrs/uuid"

	d1 "github.com/cybercryptio/d1-lib/v2"
	"github.com/cybercryptio/d1-lib/v2/data"
	"github.com/cybercryptio/d1-lib/v2/id"
	"github.com/cybercryptio/d1-lib/v2/index"
	"github.com/cybercryptio/d1-lib/v2/io"

	"verif/harness/kit"
)

// C31: instances keep no state.
func TestC31(t *testing.T) {
	kit.Run(t, "C31", "exploration", "An evaluation is one operation performed by an instance with a history and, on a copy of storage, by a new one; their results and everything that can be read afterwards are compared. Non-trivial: distinct (operation, outcome, what happened before).", func(c *kit.C) {
		c.Parallel("histories", c.N(64, 1500), func(i int) {
			prep(c, func() { synctest.Test(t, func(*testing.T) { prep(c, func() { c31History(c, i) }) }) })
		})
		c.Require("compared", 5000)
		c.Require("succeeded", 2000)
		c.Require("failed", 800)
		c.Require("behind_the_back", 1500)
	})
}

// switch31 is an IO Provider whose storage can be exchanged.
type switch31 struct{ st *kit.Store }

func (s *switch31) Put(ctx context.Context, id []byte, dt io.DataType, b []byte) error {
	return s.st.Put(ctx, id, dt, b)
}
func (s *switch31) Get(ctx context.Context, id []byte, dt io.DataType) ([]byte, error) {
	return s.st.Get(ctx, id, dt)
}
func (s *switch31) Update(ctx context.Context, id []byte, dt io.DataType, b []byte) error {
	return s.st.Update(ctx, id, dt, b)
}
func (s *switch31) Delete(ctx context.Context, id []byte, dt io.DataType) error {
	return s.st.Delete(ctx, id, dt)
}

// inst31 is one instance of each part.
type inst31 struct {
	d  *d1.D1
	ix *index.SecureIndex
	s  *id.Standalone
}

func newInst31(k kit.Keys, st io.Provider, ids id.Provider) *inst31 {
	x := &inst31{s: kit.NewStandalone(k, st)}
	if ids == nil {
		ids = x.s
	}
	x.d, x.ix = kit.NewD1(k, st, ids), kit.NewIndex(k, st, ids)
	return x
}

// copied is an instance made by copying the structures.
func (x *inst31) copied() *inst31 {
	d, ix, s := *x.d, *x.ix, *x.s
	return &inst31{&d, &ix, &s}
}

// out31 is the outcome of an operation: what must be equal, and what is random.
type out31 struct {
	same string
	err  error
	oid  uuid.UUID
	uid  string
	pw   string
	tok  string
	gid  string
	seal *data.SealedToken
}

func (o out31) class() string {
	if o.err != nil {
		k := kinds(o.err)
		// If several of a caller's groups cannot be read, any of them may be met first.
		if len(k) == 0 || len(k) == 1 && k[0] == "id.ErrGroupNotFound" {
			return "fails"
		}
		return "fails: " + strings.Join(k, ", ")
	}
	return "succeeds: " + o.same
}

type w31 struct {
	c      *kit.C
	r      *rand.Rand
	k      kit.Keys
	ids    *kit.IDs // nil with Standalone
	sw     *switch31
	tap    *kit.Tap
	toks   []string
	uids   []string
	pws    map[string][]string // all passwords a user ever had
	gids   []string
	oids   []uuid.UUID
	seals  []data.SealedToken
	kws    []string
	olds   []*inst31
	snaps  []map[string]string
	record map[string][]string // earlier values of records
	focus  []int               // operations that are made more often
	t      trail
}

// focuses31 are the operations of a part, by their numbers in op.
var focuses31 = [][]int{nil, {2, 3, 4, 5, 6, 9, 10, 12, 14, 14, 16}, {17, 17, 17, 20, 22}, {24}, {25, 26, 27, 28, 28}, {28, 29, 3}}

func (w *w31) provider() id.Provider {
	if w.ids == nil {
		return nil
	}
	return w.ids
}

type op31 struct {
	name string
	run  func(x *inst31) out31
}

// op chooses an operation.
func (w *w31) op() op31 {
	r := w.r
	tok := kit.Pick(r, w.toks)
	oid := kit.Pick(r, w.oids)
	kw, idt := kit.Pick(r, w.kws), fmt.Sprint("id", r.IntN(3))
	uid, uid2 := kit.Pick(r, w.uids), kit.Pick(r, w.uids)
	var groups []string
	for range r.IntN(3) {
		groups = append(groups, kit.Pick(r, append([]string{"g1", "g2"}, w.gids...)))
	}
	var gids []string
	for range r.IntN(3) {
		gids = append(gids, kit.Pick(r, w.gids))
	}
	pt, ad := kit.Bytes(r, r.IntN(40)), kit.Bytes(r, r.IntN(10))
	name := func(f string, a ...any) string { return fmt.Sprintf(f, a...) }
	who := name("caller %d", at31(w.toks, tok))
	on := name("object %d", at31(w.oids, oid))
	n := r.IntN(30)
	if len(w.focus) > 0 && r.IntN(4) > 0 {
		n = kit.Pick(r, w.focus)
	}
	switch n {
	case 0, 1:
		return op31{name("Encrypt by %s", who), func(x *inst31) out31 {
			o, err := x.d.Encrypt(ctx, tok, obj(pt, ad), groups...)
			return out31{err: err, oid: o}
		}}
	case 2, 3, 4, 5:
		return op31{name("Decrypt of %s by %s", on, who), func(x *inst31) out31 {
			o, err := x.d.Decrypt(ctx, tok, oid)
			return out31{same: gotObj(o), err: err}
		}}
	case 6, 7, 8:
		return op31{name("Update of %s by %s", on, who), func(x *inst31) out31 { return out31{err: x.d.Update(ctx, tok, oid, obj(pt, ad))} }}
	case 9:
		return op31{name("Delete of %s by %s", on, who), func(x *inst31) out31 { return out31{err: x.d.Delete(ctx, tok, oid)} }}
	case 10, 11:
		return op31{name("GetAccessGroups of %s by %s", on, who), func(x *inst31) out31 {
			g, err := x.d.GetAccessGroups(ctx, tok, oid)
			return out31{same: gotSet(g), err: err}
		}}
	case 12, 13:
		return op31{name("AddGroupsToAccess(%q) of %s by %s", groups, on, who), func(x *inst31) out31 { return out31{err: x.d.AddGroupsToAccess(ctx, tok, oid, groups...)} }}
	case 14, 15:
		return op31{name("RemoveGroupsFromAccess(%q) of %s by %s", groups, on, who), func(x *inst31) out31 {
			return out31{err: x.d.RemoveGroupsFromAccess(ctx, tok, oid, groups...)}
		}}
	case 16:
		return op31{name("AuthorizeIdentity for %s by %s", on, who), func(x *inst31) out31 { return out31{err: x.d.AuthorizeIdentity(ctx, tok, oid)} }}
	case 17, 18, 19:
		return op31{name("Add(%q, %q) by %s", kw, idt, who), func(x *inst31) out31 { return out31{err: x.ix.Add(ctx, tok, kw, idt)} }}
	case 20, 21:
		return op31{name("Search(%q) by %s", kw, who), func(x *inst31) out31 {
			l, err := x.ix.Search(ctx, tok, kw)
			return out31{same: fmt.Sprintf("%q", l), err: err}
		}}
	case 22:
		return op31{name("Delete(%q, %q) by %s", kw, idt, who), func(x *inst31) out31 { return out31{err: x.ix.Delete(ctx, tok, kw, idt)} }}
	case 23:
		return op31{name("NewUser"), func(x *inst31) out31 {
			u, p, err := x.s.NewUser(ctx, id.ScopeAll)
			return out31{err: err, uid: u, pw: p}
		}}
	case 24:
		pws := w.pws[uid2]
		if r.IntN(4) > 0 {
			pws = w.pws[uid]
		}
		pw := kit.Pick(r, pws)
		if r.IntN(2) == 0 {
			return op31{name("ChangeUserPassword of %d", at31(w.uids, uid)), func(x *inst31) out31 {
				p, err := x.s.ChangeUserPassword(ctx, uid, pw)
				return out31{err: err, uid: uid, pw: p}
			}}
		}
		return op31{name("LoginUser of %d", at31(w.uids, uid)), func(x *inst31) out31 {
			t, _, err := x.s.LoginUser(ctx, uid, pw)
			return out31{err: err, tok: t}
		}}
	case 25:
		return op31{name("AddUserToGroups of %d by %s", at31(w.uids, uid), who), func(x *inst31) out31 { return out31{err: x.s.AddUserToGroups(ctx, tok, uid, gids...)} }}
	case 26:
		return op31{name("RemoveUserFromGroups of %d by %s", at31(w.uids, uid), who), func(x *inst31) out31 { return out31{err: x.s.RemoveUserFromGroups(ctx, tok, uid, gids...)} }}
	case 27:
		scopes := kit.Pick(r, scopes30)
		return op31{name("NewGroup by %s", who), func(x *inst31) out31 {
			g, err := x.s.NewGroup(ctx, tok, scopes)
			return out31{err: err, gid: g}
		}}
	case 28:
		if r.IntN(3) == 0 {
			return op31{name("DeleteUser of %d by %s", at31(w.uids, uid), who), func(x *inst31) out31 { return out31{err: x.s.DeleteUser(ctx, tok, uid)} }}
		}
		return op31{name("GetIdentity by %s", who), func(x *inst31) out31 {
			i, err := x.s.GetIdentity(ctx, tok)
			return out31{same: ident31(i), err: err}
		}}
	default:
		if r.IntN(2) == 0 && len(w.seals) > 0 {
			t := kit.Pick(r, w.seals)
			if r.IntN(3) == 0 {
				t.Ciphertext = bytes.Clone(t.Ciphertext)
				t.Ciphertext[r.IntN(len(t.Ciphertext))] ^= 1
			}
			return op31{"GetTokenContents", func(x *inst31) out31 {
				b, err := x.d.GetTokenContents(ctx, &t)
				return out31{same: fmt.Sprintf("%q", b), err: err}
			}}
		}
		return op31{"CreateToken", func(x *inst31) out31 {
			t, err := x.d.CreateToken(ctx, pt)
			return out31{err: err, seal: &t}
		}}
	}
}

func ident31(i id.Identity) string {
	var g []string
	for n, x := range i.Groups {
		g = append(g, fmt.Sprintf("%s=%s:%v", n, x.ID, x.Scopes))
	}
	sort.Strings(g)
	return fmt.Sprintf("%s %v %v", i.ID, i.Scopes, g)
}

func at31[T comparable](l []T, x T) int {
	for i, y := range l {
		if x == y {
			return i
		}
	}
	return -1
}

// view reads everything through new instances.
func (w *w31) view(st *kit.Store, out out31, login bool) string {
	x := newInst31(w.k, st, w.provider())
	var b strings.Builder
	line := func(what string, o out31) { fmt.Fprintf(&b, "%s %s\n", what, o.class()) }
	oids := w.oids
	if out.oid != uuid.Nil {
		oids = append(oids[:len(oids):len(oids)], out.oid)
	}
	for n, o := range oids {
		for j, tok := range w.toks {
			ob, err := x.d.Decrypt(ctx, tok, o)
			line(fmt.Sprint("object ", n, " caller ", j), out31{same: gotObj(ob), err: err})
		}
		// Who is on the list does not depend on the caller.
		for _, tok := range w.toks {
			if g, err := x.d.GetAccessGroups(ctx, tok, o); err == nil {
				line(fmt.Sprint("groups ", n), out31{same: gotSet(g)})
				break
			}
		}
	}
	for _, kw := range w.kws {
		for _, tok := range w.toks {
			l, err := x.ix.Search(ctx, tok, kw)
			if err == nil {
				line("search "+kw, out31{same: fmt.Sprintf("%q", l)})
				break
			}
		}
	}
	for j, tok := range w.toks {
		i, err := x.s.GetIdentity(ctx, tok)
		if g, ok := i.Groups[out.gid]; ok && out.gid != "" {
			if g.ID == out.gid {
				g.ID = "the new group"
			}
			delete(i.Groups, out.gid)
			i.Groups["the new group"] = g
		}
		line(fmt.Sprint("identity ", j), out31{same: ident31(i), err: err})
	}
	if out.pw != "" && login {
		t, _, err := x.s.LoginUser(ctx, out.uid, out.pw)
		line("login", out31{err: err})
		if err == nil {
			i, err := x.s.GetIdentity(ctx, t)
			line("identity", out31{same: strings.ReplaceAll(ident31(i), out.uid, "the user"), err: err})
		}
	}
	if out.tok != "" {
		i, err := x.s.GetIdentity(ctx, out.tok)
		line("token", out31{same: ident31(i), err: err})
	}
	if out.seal != nil && out.err == nil {
		c, err := x.d.GetTokenContents(ctx, out.seal)
		line("contents", out31{same: string(c), err: err})
	}
	count := map[string]int{}
	for k := range st.Snapshot() {
		count[k[:strings.Index(k, "/")]]++
	}
	fmt.Fprintln(&b, count)
	return b.String()
}

// learn remembers what an operation on the present storage has made.
func (w *w31) learn(o out31) {
	if o.err != nil {
		return
	}
	replace := func(n int) int { return w.r.IntN(n) }
	if o.oid != uuid.Nil {
		if len(w.oids) < 5 {
			w.oids = append(w.oids, o.oid)
		} else {
			w.oids[replace(5)] = o.oid
		}
	}
	if o.gid != "" {
		if len(w.gids) < 5 {
			w.gids = append(w.gids, o.gid)
		} else {
			w.gids[replace(5)] = o.gid
		}
	}
	if o.uid != "" {
		if at31(w.uids, o.uid) < 0 && len(w.uids) < 5 {
			w.uids = append(w.uids, o.uid)
		}
		w.pws[o.uid] = append(w.pws[o.uid], o.pw)
	}
	if o.tok != "" {
		if len(w.toks) < 5 {
			w.toks = append(w.toks, o.tok)
		} else {
			w.toks[replace(5)] = o.tok
		}
	}
	if o.seal != nil && len(w.seals) < 20 {
		w.seals = append(w.seals, *o.seal)
	}
}

func c31History(c *kit.C, i int) {
	r := c.Rand("history", i)
	k := kit.NewKeys(r)
	w := &w31{c: c, r: r, k: k, focus: focuses31[i/2%len(focuses31)], sw: &switch31{kit.NewStore()}, pws: map[string][]string{}, kws: []string{"kw", "kw2"}, record: map[string][]string{}}
	w.tap = kit.NewTap(w.sw)
	w.tap.Record = false
	setup := kit.NewStandalone(k, w.sw.st)
	for range 3 {
		uid, pw := must2(setup.NewUser(ctx, id.ScopeAll))
		tok, _ := must2(setup.LoginUser(ctx, uid, pw))
		w.uids, w.toks = append(w.uids, uid), append(w.toks, tok)
		w.pws[uid] = []string{pw}
		w.gids = append(w.gids, must(setup.NewGroup(ctx, tok, id.ScopeAll)))
	}
	must0(setup.AddUserToGroups(ctx, w.toks[0], w.uids[1], w.gids[0]))
	identities := func() {
		for j, tok := range w.toks[:3] {
			ident := id.Identity{ID: w.uids[j], Scopes: kit.Pick(r, scopes30), Groups: map[string]id.AccessGroup{}}
			for _, g := range w.gids {
				if r.IntN(2) == 0 {
					ident.Groups[g] = id.AccessGroup{ID: g, Scopes: kit.Pick(r, scopes30)}
				}
			}
			w.ids.Set(tok, ident)
		}
	}
	if i%2 == 0 {
		w.ids = kit.NewIDs()
		for j, tok := range w.toks {
			w.ids.Set(tok, id.Identity{ID: w.uids[j], Scopes: id.ScopeAll, Groups: map[string]id.AccessGroup{w.gids[0]: {ID: w.gids[0], Scopes: id.ScopeAll}}})
		}
	}
	// tokens of the harness's Identity Provider cannot be replaced
	for range 2 {
		w.olds = append(w.olds, newInst31(k, w.tap, w.provider()))
	}
	w.olds = append(w.olds, w.olds[0].copied())
	for j := range 3 {
		w.oids = append(w.oids, must(w.olds[0].d.Encrypt(ctx, w.toks[j%2], obj([]byte{byte(j)}, nil), w.gids[j])))
	}
	must0(w.olds[0].ix.Add(ctx, w.toks[0], "kw", "id0"))
	must0(w.olds[0].ix.Add(ctx, w.toks[0], "kw", "id1"))
	w.snaps = append(w.snaps, w.sw.st.Snapshot())

	n := c.N(110, 150)
	var again *op31
	for step := 0; step < n && !c.Full(); step++ {
		// Something happens that the old instance does not know of.
		what := "nothing"
		damaged, dk, keep := false, "", ""
		switch x := r.IntN(30); {
		case x < 6:
			what = "another instance"
			y := newInst31(k, w.sw.st, w.provider())
			for range 1 + r.IntN(3) {
				op := w.op()
				o := op.run(y)
				w.learn(o)
				w.t.add("another instance: %s %s", op.name, o.class())
			}
		case x < 8:
			what = "storage restored"
			w.sw.st.Restore(kit.Pick(r, w.snaps))
		case x < 9:
			what = "storage copied"
			w.sw.st = w.sw.st.Clone()
		case x < 11:
			what = "record replaced"
			l := keysOf(w.record)
			if len(l) > 0 {
				key := kit.Pick(r, l)
				dt, rid := name31(key)
				w.sw.st.Set(rid, dt, []byte(kit.Pick(r, w.record[key])))
				w.t.add("%s is put back to an earlier value", key)
			}
		case x < 12:
			what = "record removed"
			l := keysOf(w.sw.st.Snapshot())
			if len(l) > 0 && step%3 == 0 {
				key := kit.Pick(r, l)
				dt, rid := name31(key)
				w.sw.st.Remove(rid, dt)
				w.t.add("%s is removed", key)
			}
		case x < 21:
			what = "record damaged or moved"
			l := keysOf(w.record)
			if len(l) > 1 {
				a, b := kit.Pick(r, l), kit.Pick(r, l)
				dt, rid := name31(a)
				to, _ := name31(b)
				v := kit.Pick(r, w.record[a])
				if r.IntN(2) == 0 {
					// to another of the same type
					for range 20 {
						if dt == to {
							break
						}
						b = kit.Pick(r, l)
						to, _ = name31(b)
					}
					if dt != to {
						break
					}
					_, rid = name31(b)
					w.t.add("%s is put in the place of %s", a, b)
				} else {
					v = damage31(r, v)
					w.t.add("%s is damaged", a)
				}
				if _, ok := w.sw.st.Raw(rid, dt); ok {
					damaged, dk = true, rec30(dt, rid)
					old, _ := w.sw.st.Raw(rid, dt)
					keep = string(old)
					w.sw.st.Set(rid, dt, []byte(v))
				}
			}
		case x < 23: // the clock of the bubble
			what = "time passed"
			d := kit.Pick(r, []time.Duration{time.Second, time.Hour, data.TokenValidity - time.Second, data.TokenValidity, 2 * data.TokenValidity})
			if step%4 == 0 {
				time.Sleep(d)
				w.t.add("%v pass", d)
				for j, uid := range w.uids { // old tokens stay in use, too
					if t, _, err := newInst31(k, w.sw.st, nil).s.LoginUser(ctx, uid, w.pws[uid][len(w.pws[uid])-1]); err == nil {
						if len(w.toks) < 6 {
							w.toks = append(w.toks, t)
						} else if w.ids == nil {
							w.toks[j%3] = t
						}
					}
				}
			}
		case x < 25:
			if w.ids != nil {
				what = "identities changed"
				identities()
			}
		case x < 28: // storage fails an operation of the old one
			what = "storage failed"
			at, f := r.IntN(5), kit.Pick(r, []kit.Fault{kit.Before, kit.After})
			w.tap.Reset()
			w.tap.Hook = func(e kit.Event) kit.Fault {
				if e.N >= at {
					return f
				}
				return kit.None
			}
			op := w.op()
			o := op.run(kit.Pick(r, w.olds))
			w.tap.Hook = nil
			w.learn(o)
			w.t.add("with storage failing from call %d on (%v): %s %s", at, f, op.name, o.class())
		case x < 29:
			what = "instance copied"
			w.olds[r.IntN(len(w.olds))] = kit.Pick(r, w.olds).copied()
		}
		if what != "nothing" {
			c.Count("behind_the_back", 1)
			w.t.add("(%s)", what)
		}
		for key, v := range w.sw.st.Snapshot() {
			if l := w.record[key]; len(l) == 0 || len(l) < 6 && l[len(l)-1] != v {
				w.record[key] = append(l, v)
			}
		}
		if step%10 == 0 {
			w.snaps = append(w.snaps, w.sw.st.Snapshot())
		}
		op := w.op()
		if again != nil && r.IntN(3) == 0 {
			op = *again
		}
		again = &op
		old := kit.Pick(r, w.olds)
		other := w.sw.st.Clone()
		a := op.run(old)
		b := op.run(newInst31(k, other, w.provider()))
		w.t.add("%s %s", op.name, a.class())
		c.Count("compared", 1)
		kind := strings.Fields(strings.SplitN(op.name, "(", 2)[0])[0]
		c.Case(kind, a.class(), what, i%2)
		if a.err == nil {
			c.Count("succeeded", 1)
		} else {
			c.Count("failed", 1)
		}
		c.SampleEvery(kind+what, "after %s: %s: %s, a new instance as well", what, op.name, a.class())
		if a.class() != b.class() {
			c.Violate("result:"+kind, "%s by an instance with a history %s (%v), by a new one on the same storage %s (%v)\n%s", op.name, a.class(), a.err, b.class(), b.err, &w.t)
			return
		}
		login := r.IntN(4) == 0
		if va, vb := w.view(w.sw.st, a, login), w.view(other, b, login); va != vb {
			c.Violate("effect:"+kind, "after %s by an instance with a history one can read\n%s\nby a new one on the same storage\n%s\n%s", op.name, va, vb, &w.t)
			return
		}
		w.learn(a)
		// Most damage is repaired, or soon nothing would work.
		if damaged && r.IntN(4) > 0 {
			dt, rid := name31(dk)
			w.sw.st.Set(rid, dt, []byte(keep))
		}
	}
}

// damage31 changes a record: any byte, or a byte of one of its fields.
func damage31(r *rand.Rand, v string) string {
	b := []byte(v)
	if len(b) == 0 {
		return "x"
	}
	var m map[string]any
	if r.IntN(4) > 0 && json.Unmarshal(b, &m) == nil && len(m) > 0 {
		k := kit.Pick(r, keysOf(m))
		if s, ok := m[k].(string); ok {
			if raw, err := base64.StdEncoding.DecodeString(s); err == nil && len(raw) > 0 {
				raw[r.IntN(len(raw))] ^= 1 << r.IntN(8)
				m[k] = base64.StdEncoding.EncodeToString(raw)
			}
		}
		return string(must(json.Marshal(m)))
	}
	b[r.IntN(len(b))] ^= 1 << r.IntN(8)
	return string(b)
}

// name31 takes the key of a snapshot apart.
func name31(key string) (dt io.DataType, rid []byte) {
	if _, err := fmt.Sscanf(key, "%d/%x", &dt, &rid); err != nil {
		rid = []byte{}
	}
	return
}
