package checks

import (
	"fmt"
	"math/rand/v2"
	"strings"
	"testing"

	"github.com/gofrs/uuid"

	d1 "github.com/cybercryptio/d1-lib/v2"
	"github.com/cybercryptio/d1-lib/v2/id"
	"github.com/cybercryptio/d1-lib/v2/index"
	"github.com/cybercryptio/d1-lib/v2/io"

	"verif/harness/kit"
	"verif/harness/ref"
)

// C30: storage holds exactly what exists, and operations touch only their target.
func TestC30(t *testing.T) {
	kit.Run(t, "C30", "exploration", "An evaluation is one operation, after which storage's contents and the calls it received are compared with a model of what exists. Non-trivial: distinct (operation, outcome, number of objects, entries, users and groups).", func(c *kit.C) {
		c.Parallel("histories", c.N(48, 1200), func(i int) { prep(c, func() { c30History(c, i) }) })
		c.Parallel("long", c.N(16, 200), func(i int) { prep(c, func() { c30Long(c, i) }) })
		c.Require("operations", 8000)
		c.Require("acknowledged", 5000)
		c.Require("refused", 1000)
		c.Require("sizes", 1500)
		c.Require("storage_calls", 50000)
	})
}

type obj30 struct {
	pt, ad int
	groups map[string]struct{}
}

type user30 struct {
	uid, pw, tok string
	scopes       id.Scope
	groups       map[string]struct{}
	gone         bool
}

// model30 is what exists.
type model30 struct {
	c       *kit.C
	r       *rand.Rand
	k       kit.Keys
	st      *kit.Store
	tap     *kit.Tap
	d       *d1.D1
	ix      *index.SecureIndex
	s       *id.Standalone
	users   []*user30
	groups  map[string]id.Scope
	objects map[string]*obj30 // by ID
	dead    []uuid.UUID
	kws     map[string][]string
	added   map[string]int // ever added
	labels  map[string]int // record names of nodes: number of the keyword
	kwNo    map[string]int
	t       trail
}

func new30(c *kit.C, r *rand.Rand) *model30 {
	m := &model30{c: c, r: r, k: kit.NewKeys(r), st: kit.NewStore(), groups: map[string]id.Scope{}, objects: map[string]*obj30{}, kws: map[string][]string{}, added: map[string]int{}, labels: map[string]int{}, kwNo: map[string]int{}}
	m.tap = kit.NewTap(m.st)
	m.s = kit.NewStandalone(m.k, m.tap)
	m.d, m.ix = kit.NewD1(m.k, m.tap, m.s), kit.NewIndex(m.k, m.tap, m.s)
	return m
}

// label makes the names of a keyword's records known up to the n-th.
func (m *model30) label(kw string, n int) {
	no, ok := m.kwNo[kw]
	if !ok {
		no = len(m.kwNo) + 1
		m.kwNo[kw] = no
	}
	k1, _ := ref.IndexKeys(m.k.D1.IEK, kw)
	for i := 0; i <= n; i++ {
		m.labels[string(ref.Label(k1, uint64(i)))] = no
	}
}

func rec30(dt io.DataType, rid []byte) string { return fmt.Sprintf("%d/%x", dt, rid) }

// run performs an operation. caller may be nil. targets are the records it may read and write; those of
// new things are told by the operation itself, when it returns. kw, if any, is its keyword.
func (m *model30) run(name string, caller *user30, targets []string, kw string, op func() (more []string, err error), ack func()) error {
	c := m.c
	before := m.st.Snapshot()
	n := len(m.kws[kw])
	if kw != "" {
		m.label(kw, m.added[kw]+2)
	}
	mine := map[string]bool{}
	reads := map[string]bool{}
	groups := 0
	if caller != nil {
		reads[rec30(id.DataTypeSealedUser, []byte(caller.uid))] = true
		for g := range caller.groups {
			reads[rec30(id.DataTypeSealedGroup, []byte(g))] = true
		}
		groups = len(caller.groups)
	}
	m.tap.Reset()
	more, err := op()
	for _, t := range append(append([]string{}, targets...), more...) {
		mine[t] = true
	}
	m.t.add("%s: %v", name, err)
	c.Count("operations", 1)
	c.Case(name, err == nil, len(m.objects), n, len(m.users), len(m.groups))
	if err == nil {
		c.Count("acknowledged", 1)
		ack()
	} else {
		c.Count("refused", 1)
	}
	count := map[string]int{}
	events := m.tap.Events()
	for _, e := range events {
		c.Count("storage_calls", 1)
		k := rec30(e.Type, e.ID)
		count[e.Op]++
		if kw != "" && e.Type == io.DataTypeSealedNode && m.labels[string(e.ID)] == m.kwNo[kw] {
			continue
		}
		if !mine[k] && !(e.Op == "Get" && reads[k]) {
			c.Violate("foreign:"+name, "%s (%v) makes the storage call %v, which concerns neither its target nor the caller\n%s", name, err, e, &m.t)
		}
	}
	after := m.st.Snapshot()
	if err != nil && !kit.SameContents(before, after) {
		c.Violate("refused:"+name, "%s failed with %v, but changed storage: %s\n%s", name, err, kit.DiffContents(before, after), &m.t)
	}
	if err == nil {
		if kw != "" {
			ever := m.added[kw] + 2
			if count["Get"] > 5*n+10+groups+1 || count["Put"] > 1 || count["Update"] > n+1 || count["Delete"] > n+ever {
				c.Violate("calls:"+name, "%s made %d reads, %d puts, %d updates and %d deletions for a keyword with %d entries (%d ever)\n%s", name, count["Get"], count["Put"], count["Update"], count["Delete"], n, ever, &m.t)
			}
		} else {
			if limit := 8 + 2*groups; len(events) > limit {
				c.Violate("calls:"+name, "%s made %d storage calls, although the caller has only %d groups: %v\n%s", name, len(events), groups, events, &m.t)
			}
		}
	}
	m.contents(name, after)
	return err
}

// contents compares what storage holds with what exists.
func (m *model30) contents(name string, snap map[string]string) {
	c := m.c
	want := map[string]bool{}
	for o := range m.objects {
		u := uuid.FromStringOrNil(o)
		want[rec30(io.DataTypeSealedObject, u.Bytes())] = true
		want[rec30(io.DataTypeSealedAccess, u.Bytes())] = true
	}
	for _, u := range m.users {
		if !u.gone {
			want[rec30(id.DataTypeSealedUser, []byte(u.uid))] = true
		}
	}
	for g := range m.groups {
		want[rec30(id.DataTypeSealedGroup, []byte(g))] = true
	}
	nodes := 0
	for k := range snap {
		if strings.HasPrefix(k, fmt.Sprintf("%d/", io.DataTypeSealedNode)) {
			nodes++
			continue
		}
		if !want[k] {
			c.Violate("left:"+name, "after %s storage holds the record %s, of nothing that exists\n%s", name, k, &m.t)
		}
		delete(want, k)
	}
	for _, k := range keysOf(want) {
		c.Violate("lost:"+name, "after %s storage lacks the record %s\n%s", name, k, &m.t)
	}
	entries := 0
	for _, l := range m.kws {
		entries += len(l)
	}
	if nodes != entries {
		c.Violate("nodes:"+name, "after %s storage holds %d nodes for %d entries\n%s", name, nodes, entries, &m.t)
	}
}

func (m *model30) newUser(scopes id.Scope) *user30 {
	u := &user30{scopes: scopes, groups: map[string]struct{}{}}
	must0(m.run("NewUser", nil, nil, "", func() ([]string, error) {
		uid, pw, err := m.s.NewUser(ctx, scopes)
		u.uid, u.pw = uid, pw
		return []string{rec30(id.DataTypeSealedUser, []byte(uid))}, err
	}, func() { m.users = append(m.users, u) }))
	m.login(u)
	return u
}

func (m *model30) login(u *user30) {
	m.run("LoginUser", u, nil, "", func() ([]string, error) {
		tok, _, err := m.s.LoginUser(ctx, u.uid, u.pw)
		if err == nil {
			u.tok = tok
		}
		return nil, err
	}, func() {})
}

func (m *model30) newGroup(u *user30, scopes id.Scope) {
	var gid string
	m.run("NewGroup", u, []string{rec30(id.DataTypeSealedUser, []byte(u.uid))}, "", func() (more []string, err error) {
		gid, err = m.s.NewGroup(ctx, u.tok, scopes)
		return []string{rec30(id.DataTypeSealedGroup, []byte(gid))}, err
	}, func() {
		m.groups[gid] = scopes
		u.groups[gid] = struct{}{}
	})
}

func (m *model30) encrypt(u *user30, pt, ad int, groups ...string) {
	var oid uuid.UUID
	m.run("Encrypt", u, nil, "", func() (more []string, err error) {
		oid, err = m.d.Encrypt(ctx, u.tok, obj(kit.Bytes(m.r, pt), kit.Bytes(m.r, ad)), groups...)
		return oid30(oid), err
	}, func() { m.objects[oid.String()] = &obj30{pt, ad, set(append([]string{u.uid}, groups...)...)} })
}

func oid30(oid uuid.UUID) []string {
	return []string{rec30(io.DataTypeSealedObject, oid.Bytes()), rec30(io.DataTypeSealedAccess, oid.Bytes())}
}

// object performs an operation on an object.
func (m *model30) object(u *user30, oid uuid.UUID, n int) {
	r := m.r
	o := m.objects[oid.String()]
	do := func(name string, op func() error, ack func()) {
		m.run(name, u, oid30(oid), "", func() ([]string, error) { return nil, op() }, func() {
			if o == nil && name != "Delete of nothing" {
				m.c.Violate("nothing:"+name, "%s of an object that does not exist succeeded\n%s", name, &m.t)
				return
			}
			ack()
		})
	}
	names := func() (out []string) {
		for range r.IntN(4) {
			if r.IntN(2) == 0 && len(m.groups) > 0 {
				out = append(out, kit.Pick(r, keysOf(m.groups)))
			} else {
				out = append(out, fmt.Sprintf("group%d", r.IntN(8)))
			}
		}
		return
	}
	switch n {
	case 0, 1, 2:
		pt, ad := r.IntN(200), r.IntN(50)
		if r.IntN(20) == 0 {
			pt = 1 << (7 + r.IntN(10))
		}
		do("Update", func() error { return m.d.Update(ctx, u.tok, oid, obj(kit.Bytes(r, pt), kit.Bytes(r, ad))) }, func() { o.pt, o.ad = pt, ad })
	case 3:
		do("Decrypt", func() error { _, err := m.d.Decrypt(ctx, u.tok, oid); return err }, func() {})
	case 4, 5:
		g := names()
		do("AddGroupsToAccess", func() error { return m.d.AddGroupsToAccess(ctx, u.tok, oid, g...) }, func() {
			for _, x := range g {
				o.groups[x] = struct{}{}
			}
		})
	case 6, 7:
		g := names()
		do("RemoveGroupsFromAccess", func() error { return m.d.RemoveGroupsFromAccess(ctx, u.tok, oid, g...) }, func() {
			for _, x := range g {
				delete(o.groups, x)
			}
		})
	case 8:
		do("GetAccessGroups", func() error { _, err := m.d.GetAccessGroups(ctx, u.tok, oid); return err }, func() {})
	case 9:
		do("AuthorizeIdentity", func() error { return m.d.AuthorizeIdentity(ctx, u.tok, oid) }, func() {})
	case 10:
		name := "Delete"
		if o == nil {
			name = "Delete of nothing"
		}
		do(name, func() error { return m.d.Delete(ctx, u.tok, oid) }, func() {
			if o != nil {
				m.dead = append(m.dead, oid)
			}
			delete(m.objects, oid.String())
		})
	}
}

func (m *model30) index(u *user30, kw, idt string, n int) {
	switch n {
	case 0:
		m.run("Add", u, nil, kw, func() ([]string, error) { return nil, m.ix.Add(ctx, u.tok, kw, idt) }, func() {
			m.kws[kw] = append(m.kws[kw], idt)
			m.added[kw]++
		})
	case 1:
		m.run("Search", u, nil, kw, func() ([]string, error) { _, err := m.ix.Search(ctx, u.tok, kw); return nil, err }, func() {})
	case 2:
		m.run("index Delete", u, nil, kw, func() ([]string, error) { return nil, m.ix.Delete(ctx, u.tok, kw, idt) }, func() { words(m.kws).del(kw, idt) })
	}
}

func (m *model30) member(u, other *user30, add bool, gids ...string) {
	t := []string{rec30(id.DataTypeSealedUser, []byte(other.uid))}
	if add {
		m.run("AddUserToGroups", u, t, "", func() ([]string, error) { return nil, m.s.AddUserToGroups(ctx, u.tok, other.uid, gids...) }, func() {
			for _, g := range gids {
				other.groups[g] = struct{}{}
			}
		})
	} else {
		m.run("RemoveUserFromGroups", u, t, "", func() ([]string, error) { return nil, m.s.RemoveUserFromGroups(ctx, u.tok, other.uid, gids...) }, func() {
			for _, g := range gids {
				delete(other.groups, g)
			}
		})
	}
}

// sizes compares the sizes of records with those of new records with the same contents.
func (m *model30) sizes() {
	c, r := m.c, m.r
	st := kit.NewStore()
	s, ids := kit.NewStandalone(m.k, st), kit.NewIDs()
	d := kit.NewD1(m.k, st, ids)
	for name, o := range m.objects {
		g := keysOf(o.groups)
		if len(g) == 0 {
			continue
		}
		tok := ids.User(g[0], id.ScopeAll)
		fresh := must(d.Encrypt(ctx, tok, obj(kit.Bytes(r, o.pt), kit.Bytes(r, o.ad)), g[1:]...))
		for _, dt := range []io.DataType{io.DataTypeSealedObject, io.DataTypeSealedAccess} {
			a, ok := m.st.Raw(uuid.FromStringOrNil(name).Bytes(), dt)
			b, _ := st.Raw(fresh.Bytes(), dt)
			c.Count("sizes", 1)
			if ok && len(a) != len(b) {
				c.Violate("size:object", "a record of type %d of an object with a plaintext of %d and associated data of %d bytes and %d groups has %d bytes, a new one %d\n%s", dt, o.pt, o.ad, len(g), len(a), len(b), &m.t)
			}
		}
	}
	boss, pw := must2(s.NewUser(ctx, id.ScopeAll))
	tok, _ := must2(s.LoginUser(ctx, boss, pw))
	var gids []string
	for gid, scopes := range m.groups {
		g := must(s.NewGroup(ctx, tok, scopes))
		gids = append(gids, g)
		a, ok := m.st.Raw([]byte(gid), id.DataTypeSealedGroup)
		b, _ := st.Raw([]byte(g), id.DataTypeSealedGroup)
		c.Count("sizes", 1)
		if ok && len(a) != len(b) {
			c.Violate("size:group", "the record of a group with the scopes %v has %d bytes, a new one %d\n%s", scopes, len(a), len(b), &m.t)
		}
	}
	for _, u := range m.users {
		if u.gone {
			continue
		}
		uid, _ := must2(s.NewUser(ctx, u.scopes))
		if len(u.groups) > 0 {
			must0(s.AddUserToGroups(ctx, tok, uid, gids[:len(u.groups)]...))
		}
		a, ok := m.st.Raw([]byte(u.uid), id.DataTypeSealedUser)
		b, _ := st.Raw([]byte(uid), id.DataTypeSealedUser)
		c.Count("sizes", 1)
		if ok && len(a) != len(b) {
			c.Violate("size:user", "the record of a user with the scopes %v and %d groups has %d bytes, a new one %d\n%s", u.scopes, len(u.groups), len(a), len(b), &m.t)
		}
	}
	st.Restore(nil)
}

var scopes30 = []id.Scope{id.ScopeAll, id.ScopeAll, id.ScopeAll, id.ScopeNone, id.ScopeDecrypt, id.ScopeAll &^ id.ScopeDelete, id.ScopeEncrypt | id.ScopeIndex}

// c30History is a history of everything.
func c30History(c *kit.C, i int) {
	r := c.Rand("history", i)
	m := new30(c, r)
	m.newUser(id.ScopeAll)
	m.newUser(id.ScopeAll)
	m.newUser(kit.Pick(r, scopes30))
	m.newGroup(m.users[0], id.ScopeAll)
	kws := []string{"kw", "kw2", "x" + kit.String(r), " "}
	for step := 0; step < 160 && !c.Full(); step++ {
		u := kit.Pick(r, m.users)
		other := kit.Pick(r, m.users)
		switch x := r.IntN(100); {
		case x < 8:
			var g []string
			for range r.IntN(3) {
				g = append(g, fmt.Sprintf("group%d", r.IntN(8)))
			}
			for gid := range u.groups {
				if r.IntN(2) == 0 {
					g = append(g, gid)
				}
			}
			m.encrypt(u, r.IntN(100), r.IntN(30), g...)
		case x < 50:
			oid := newUUID(r)
			if len(m.dead) > 0 && r.IntN(8) == 0 {
				oid = kit.Pick(r, m.dead)
			} else if len(m.objects) > 0 && r.IntN(20) > 0 {
				oid = uuid.FromStringOrNil(kit.Pick(r, keysOf(m.objects)))
			}
			m.object(u, oid, r.IntN(11))
		case x < 75:
			m.index(u, kit.Pick(r, kws), fmt.Sprint("id", r.IntN(4)), kit.Pick(r, []int{0, 0, 0, 1, 2}))
		case x < 79:
			if len(m.users) < 8 {
				m.newUser(kit.Pick(r, scopes30))
			}
		case x < 83:
			if len(m.groups) < 12 {
				m.newGroup(u, kit.Pick(r, scopes30))
			}
		case x < 93:
			gids := keysOf(u.groups)
			r.Shuffle(len(gids), func(a, b int) { gids[a], gids[b] = gids[b], gids[a] })
			gids = gids[:r.IntN(len(gids)+1)]
			if r.IntN(6) == 0 {
				gids = append(gids, kit.Pick(r, keysOf(m.groups)))
			}
			m.member(u, other, r.IntN(3) > 0, gids...)
		case x < 95:
			m.login(u)
		case x < 97:
			m.run("ChangeUserPassword", nil, []string{rec30(id.DataTypeSealedUser, []byte(u.uid))}, "", func() ([]string, error) {
				pw, err := m.s.ChangeUserPassword(ctx, u.uid, u.pw)
				if err == nil {
					u.pw = pw
				}
				return nil, err
			}, func() {})
		case x < 98:
			if len(m.users) > 3 && other != m.users[0] {
				m.run("DeleteUser", u, []string{rec30(id.DataTypeSealedUser, []byte(other.uid))}, "", func() ([]string, error) { return nil, m.s.DeleteUser(ctx, u.tok, other.uid) }, func() { other.gone = true })
			}
		case x < 99:
			junk := &user30{uid: u.uid, tok: u.tok + "x", groups: u.groups}
			if len(m.objects) > 0 {
				m.object(junk, uuid.FromStringOrNil(kit.Pick(r, keysOf(m.objects))), r.IntN(11))
			}
			m.index(junk, kit.Pick(r, kws), "id0", r.IntN(3))
		default:
			m.run("GetIdentity", u, nil, "", func() ([]string, error) { _, err := m.s.GetIdentity(ctx, u.tok); return nil, err }, func() {})
			m.run("tokens", nil, nil, "", func() ([]string, error) {
				t, err := m.d.CreateToken(ctx, []byte("contents"))
				if err == nil {
					_, err = m.d.GetTokenContents(ctx, &t)
				}
				return nil, err
			}, func() {})
		}
		if step%40 == 39 {
			m.sizes()
		}
	}
	c.SampleEvery("history", "%d objects, %d users, %d groups, keywords %v after: %s", len(m.objects), len(m.users), len(m.groups), func() (n []int) {
		for _, l := range m.kws {
			n = append(n, len(l))
		}
		return
	}(), m.t.lines[len(m.t.lines)-1])
}

// c30Long works on one target for long, so that anything that piles up is seen.
func c30Long(c *kit.C, i int) {
	r := c.Rand("long", i)
	m := new30(c, r)
	a := m.newUser(id.ScopeAll)
	b := m.newUser(id.ScopeAll)
	for range 3 {
		m.newGroup(a, id.ScopeAll)
	}
	m.encrypt(a, 10, 10, keysOf(a.groups)...)
	oid := uuid.FromStringOrNil(keysOf(m.objects)[0])
	n := c.N(300, 1500)
	for step := 0; step < n && !c.Full(); step++ {
		switch i % 4 {
		case 0: // an object
			m.object(a, oid, r.IntN(10))
		case 1: // many objects, made and deleted
			m.encrypt(a, r.IntN(30), r.IntN(10))
			for len(m.objects) > 6 {
				m.object(a, uuid.FromStringOrNil(kit.Pick(r, keysOf(m.objects))), 10)
			}
			if step%3 == 0 {
				m.object(b, kit.Pick(r, append(m.dead, oid)), r.IntN(11))
			}
		case 2: // a keyword
			if len(m.kws["kw"]) > 12 {
				m.index(a, "kw", fmt.Sprint(r.IntN(6)), 2)
			} else {
				m.index(a, "kw", fmt.Sprint(r.IntN(6)), kit.Pick(r, []int{0, 0, 0, 1, 2}))
			}
		case 3: // a user
			g := keysOf(a.groups)
			r.Shuffle(len(g), func(a, b int) { g[a], g[b] = g[b], g[a] })
			m.member(a, b, r.IntN(2) == 0, g[:r.IntN(len(g)+1)]...)
			if step%50 == 0 {
				m.run("ChangeUserPassword", nil, []string{rec30(id.DataTypeSealedUser, []byte(b.uid))}, "", func() ([]string, error) {
					pw, err := m.s.ChangeUserPassword(ctx, b.uid, b.pw)
					if err == nil {
						b.pw = pw
					}
					return nil, err
				}, func() {})
			}
		}
		if step%60 == 59 {
			m.sizes()
		}
	}
	if i%4 == 2 { // whatever was in it, everything can be removed again
		for x := range 6 {
			m.index(a, "kw", fmt.Sprint(x), 2)
		}
		if len(m.kws["kw"]) != 0 {
			c.Violate("index-left", "the keyword keeps %q after all identifiers were deleted", m.kws["kw"])
		}
	}
}
