package checks

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"math/rand/v2"
	"strings"
	"testing"

	"github.com/gofrs/uuid"

	d1 "github.com/cybercryptio/d1-lib/v2"
	"github.com/cybercryptio/d1-lib/v2/id"
	"github.com/cybercryptio/d1-lib/v2/io"

	"verif/harness/kit"
)

// C16: a storage failure during an object operation is reported and leaves the object intact.
func TestC16(t *testing.T) {
	kit.Run(t, "C16", "fault_enumeration", "An evaluation is one object observed by all callers after an operation with an injected storage failure, compared with the states allowed. Non-trivial: distinct (history, operation, caller, failing storage call, kind of failure).", func(c *kit.C) {
		c16Exhaustive(c)
		c.Parallel("random", c.N(800, 15000), func(i int) { prep(c, func() { c16Random(c, i) }) })
		c.Require("faults", 1000)
		c.Require("failed_operations", 500)
	})
}

// content16 is the content of an object: nil if there is none.
type content16 struct{ p, ad string }

func (s *content16) String() string {
	if s == nil {
		return "no content"
	}
	return fmt.Sprintf("(%q, %q)", s.p, s.ad)
}

// obj16 is an object and what is known of it.
type obj16 struct {
	oid     uuid.UUID
	content *content16
	torn    bool // known finding: the content cannot be decrypted at all
	list    map[string]struct{}
}

// c16 is a storage with its callers.
type c16 struct {
	c    *kit.C
	st   *kit.Store
	tap  *kit.Tap
	ds   []*d1.D1
	toks map[string]string // by the ID that gives access
	objs []*obj16
	path string
	n    int
}

var c16IDs = []string{"root", "owner", "g1", "added", "removable", "outsider"}

func newC16(c *kit.C, k kit.Keys) *c16 {
	ids := kit.NewIDs()
	st := kit.NewStore()
	x := &c16{c: c, st: st, tap: kit.NewTap(st), toks: map[string]string{}}
	x.tap.Record = false
	x.ds = []*d1.D1{kit.NewD1(k, x.tap, ids), kit.NewD1(k, x.tap, ids)}
	for _, i := range c16IDs {
		if i == "g1" || i == "added" {
			x.toks[i] = ids.User("member of "+i, id.ScopeAll, id.AccessGroup{ID: i, Scopes: id.ScopeAll}, id.AccessGroup{ID: "else", Scopes: id.ScopeAll})
		} else {
			x.toks[i] = ids.User(i, id.ScopeAll)
		}
	}
	return x
}

func (x *c16) d() *d1.D1 {
	x.n++
	return x.ds[x.n%2]
}

func (x *c16) create(content content16) *obj16 {
	oid := must(x.d().Encrypt(ctx, x.toks["owner"], obj([]byte(content.p), []byte(content.ad)), "root", "g1", "removable"))
	o := &obj16{oid: oid, content: &content, list: set("owner", "root", "g1", "removable")}
	x.objs = append(x.objs, o)
	return o
}

// observe looks at the object through all callers. It returns the list and content that the root
// caller sees; ok is false if callers see different things or what never was.
func (x *c16) observe(oid uuid.UUID) (list map[string]struct{}, content *content16, broken error, ok bool) {
	c := x.c
	listErr := error(nil)
	list, listErr = x.d().GetAccessGroups(ctx, x.toks["root"], oid)
	if listErr != nil {
		list = nil
	}
	o, err := x.d().Decrypt(ctx, x.toks["root"], oid)
	switch {
	case err == nil:
		content = &content16{string(o.Plaintext), string(o.AssociatedData)}
	case !errors.Is(err, d1.ErrObjectNotFound) && !errors.Is(err, d1.ErrAccessNotFound):
		broken = err
	}
	if listErr != nil && !errors.Is(listErr, d1.ErrAccessNotFound) {
		c.Violate("list-broken", "after%s: GetAccessGroups fails: %v", x.path, listErr)
		return nil, nil, nil, false
	}
	if list == nil && content != nil {
		c.Violate("inconsistent", "after%s: the content can be had although there is no access list: %v", x.path, content)
		return nil, nil, nil, false
	}
	for _, i := range c16IDs {
		_, in := list[i]
		g, err := x.d().GetAccessGroups(ctx, x.toks[i], oid)
		if in != (err == nil) || in && !sameSet(g, list) {
			c.Violate("inconsistent", "after%s: GetAccessGroups by %s gave %q, %v; root sees the list %q", x.path, i, keysOf(g), err, keysOf(list))
			return nil, nil, nil, false
		}
		if err := x.d().AuthorizeIdentity(ctx, x.toks[i], oid); in != (err == nil) {
			c.Violate("inconsistent", "after%s: AuthorizeIdentity by %s gave %v; the list is %q", x.path, i, err, keysOf(list))
			return nil, nil, nil, false
		}
		o, err := x.d().Decrypt(ctx, x.toks[i], oid)
		if (in && content != nil) != (err == nil) {
			c.Violate("inconsistent", "after%s: Decrypt by %s gave %v; the list is %q and root sees %v", x.path, i, err, keysOf(list), content)
			return nil, nil, nil, false
		}
		if err == nil && (string(o.Plaintext) != content.p || string(o.AssociatedData) != content.ad) {
			c.Violate("inconsistent", "after%s: Decrypt by %s gave %q, %q; root sees %v", x.path, i, o.Plaintext, o.AssociatedData, content)
			return nil, nil, nil, false
		}
		if err != nil && gotObj(o) != "" {
			c.Violate("failed-with-content", "after%s: Decrypt by %s failed with %v but gave %s", x.path, i, err, gotObj(o))
		}
	}
	return list, content, broken, true
}

func sameContent(a, b *content16) bool {
	return a == b || a != nil && b != nil && *a == *b
}

// op16 is an operation with its intended effect.
type op16 struct {
	name   string
	run    func(ctx context.Context, d *d1.D1, tok string, oid uuid.UUID) (got string, err error)
	effect func(o *obj16) (*content16, map[string]struct{})
	// result is what it must return if it succeeds.
	result func(o *obj16) string
}

func ops16(r *rand.Rand) []op16 {
	upd := content16{fmt.Sprint("new ", r.Uint64()), fmt.Sprint("new ad ", r.Uint64())}
	if r.IntN(3) == 0 {
		upd.p = strings.Repeat("x", r.IntN(100))
		upd.ad = ""
	}
	same := func(o *obj16) (*content16, map[string]struct{}) { return o.content, o.list }
	return []op16{
		{name: "Update", run: func(ctx context.Context, d *d1.D1, tok string, oid uuid.UUID) (string, error) {
			return "", d.Update(ctx, tok, oid, obj([]byte(upd.p), []byte(upd.ad)))
		}, effect: func(o *obj16) (*content16, map[string]struct{}) {
			if o.content == nil && !o.torn {
				return nil, o.list
			}
			return &upd, o.list
		}},
		{name: "Delete", run: func(ctx context.Context, d *d1.D1, tok string, oid uuid.UUID) (string, error) {
			return "", d.Delete(ctx, tok, oid)
		}, effect: func(o *obj16) (*content16, map[string]struct{}) { return nil, nil }},
		{name: "AddGroupsToAccess", run: func(ctx context.Context, d *d1.D1, tok string, oid uuid.UUID) (string, error) {
			return "", d.AddGroupsToAccess(ctx, tok, oid, "added", "also")
		}, effect: func(o *obj16) (*content16, map[string]struct{}) {
			l := copySet(o.list)
			l["added"], l["also"] = struct{}{}, struct{}{}
			return o.content, l
		}},
		{name: "RemoveGroupsFromAccess", run: func(ctx context.Context, d *d1.D1, tok string, oid uuid.UUID) (string, error) {
			return "", d.RemoveGroupsFromAccess(ctx, tok, oid, "removable", "also", "never")
		}, effect: func(o *obj16) (*content16, map[string]struct{}) {
			l := copySet(o.list)
			delete(l, "removable")
			delete(l, "also")
			return o.content, l
		}},
		{name: "Decrypt", run: func(ctx context.Context, d *d1.D1, tok string, oid uuid.UUID) (string, error) {
			o, err := d.Decrypt(ctx, tok, oid)
			if err == nil {
				return fmt.Sprintf("object %q %q", o.Plaintext, o.AssociatedData), nil
			}
			return gotObj(o), err
		}, effect: same, result: func(o *obj16) string {
			if o.content == nil {
				return ""
			}
			return fmt.Sprintf("object %q %q", o.content.p, o.content.ad)
		}},
		{name: "GetAccessGroups", run: func(ctx context.Context, d *d1.D1, tok string, oid uuid.UUID) (string, error) {
			g, err := d.GetAccessGroups(ctx, tok, oid)
			return gotSet(g), err
		}, effect: same, result: func(o *obj16) string { return gotSet(o.list) }},
		{name: "AuthorizeIdentity", run: func(ctx context.Context, d *d1.D1, tok string, oid uuid.UUID) (string, error) {
			return "", d.AuthorizeIdentity(ctx, tok, oid)
		}, effect: same},
	}
}

// others returns the records that do not belong to the object.
func (x *c16) others(snap map[string]string, oid uuid.UUID) map[string]string {
	out := map[string]string{}
	for k, v := range snap {
		if !strings.HasSuffix(k, fmt.Sprintf("/%x", oid.Bytes())) {
			out[k] = v
		}
	}
	return out
}

func record16(snap map[string]string, dt io.DataType, oid uuid.UUID) (string, bool) {
	v, ok := snap[fmt.Sprintf("%d/%x", dt, oid.Bytes())]
	return v, ok
}

// do runs an operation on an object with a failure at storage call n (none if negative).
func (x *c16) do(o *obj16, op op16, by string, n int, mode faultMode, failure error) (hit, ok bool) {
	c := x.c
	before := x.st.Snapshot()
	cctx := ctx
	name := fmt.Sprintf(" %s by %s", op.name, by)
	if n >= 0 {
		name += fmt.Sprintf(" (storage call %d: %s, %q)", n, mode.name, failure)
		var cancel func()
		cctx, cancel = faultAt(ctx, x.tap, n, mode, failure, &hit)
		defer cancel()
	}
	got, err := op.run(cctx, x.d(), x.toks[by], o.oid)
	noFaults(x.tap)
	x.path += fmt.Sprintf("%s=%v;", name, err)
	if hit {
		c.Count("faults", 1)
	}
	if err != nil {
		c.Count("failed_operations", 1)
	}
	after := x.st.Snapshot()
	if d := kit.DiffContents(x.others(before, o.oid), x.others(after, o.oid)); d != "" {
		c.Violate("other-records", "after%s: records of other objects changed: %s", x.path, d)
		return hit, false
	}
	newContent, newList := op.effect(o)
	if err != nil && got != "" {
		c.Violate("failed-with-result:"+op.name, "after%s: it failed but returned %s", x.path, got)
	}
	if err == nil && op.result != nil && got != op.result(o) {
		c.Violate("wrong-result:"+op.name, "after%s: it succeeded with %s instead of %s", x.path, got, op.result(o))
	}
	list, content, broken, ok := x.observe(o.oid)
	c.Case(x.path)
	if !ok {
		return hit, false
	}
	sameL := func(a, b map[string]struct{}) bool { return (a == nil) == (b == nil) && sameSet(a, b) }
	if err == nil {
		if !sameL(list, newList) || list != nil && !sameContent(content, newContent) || broken != nil && !(o.torn && newContent == nil) {
			c.Violate("success-without-effect:"+op.name, "after%s: it reported success, but there are the list %q and %v (%v) instead of %q and %v",
				x.path, keysOf(list), content, broken, keysOf(newList), newContent)
			return hit, false
		}
		torn := o.torn && content == nil && broken != nil
		o.content, o.list, o.torn = newContent, newList, torn
		if newList == nil {
			o.content = nil
		}
		return hit, true
	}
	if !sameL(list, o.list) && !sameL(list, newList) {
		c.Violate("list-changed:"+op.name, "after%s: the access list is %q, neither %q nor %q", x.path, keysOf(list), keysOf(o.list), keysOf(newList))
		return hit, false
	}
	if list == nil { // deleted for everyone
		o.list, o.content, o.torn = nil, nil, false
		return hit, true
	}
	o.list = list
	if broken != nil {
		if o.torn {
			return hit, true // as before
		}
		if o.content == nil && newContent == nil {
			c.Violate("content-broken:"+op.name, "after%s: Decrypt fails with %v", x.path, broken)
			return hit, false
		}
		oo, _ := record16(before, io.DataTypeSealedObject, o.oid)
		no, there := record16(after, io.DataTypeSealedObject, o.oid)
		oa, _ := record16(before, io.DataTypeSealedAccess, o.oid)
		na, _ := record16(after, io.DataTypeSealedAccess, o.oid)
		sig := "content-broken:" + op.name
		if op.name == "Update" && there && oo != no && oa == na {
			// Known finding: the operation stopped after the object had been written and before the access list.
			sig = "update-stopped-between-object-and-access-write"
		}
		c.Violate(sig, "after%s: nobody can decrypt the object any more: %v; it should be %v or %v", x.path, broken, o.content, newContent)
		o.torn, o.content = true, nil
		return hit, sig != "content-broken:"+op.name
	}
	if o.torn && content == nil {
		o.torn = false // the broken record was deleted
		return hit, true
	}
	if !sameContent(content, o.content) && !sameContent(content, newContent) {
		c.Violate("content-changed:"+op.name, "after%s: the content is %v, neither %v nor %v", x.path, content, o.content, newContent)
		return hit, false
	}
	if content != nil {
		o.torn = false
	}
	o.content = content
	return hit, true
}

// encrypt runs Encrypt with a failure.
func (x *c16) encrypt(content content16, n int, mode faultMode, failure error) (hit, ok bool) {
	c := x.c
	before := x.st.Snapshot()
	cctx, cancel := faultAt(ctx, x.tap, n, mode, failure, &hit)
	defer cancel()
	oid, err := x.d().Encrypt(cctx, x.toks["owner"], obj([]byte(content.p), []byte(content.ad)), "root", "removable")
	noFaults(x.tap)
	x.path += fmt.Sprintf(" Encrypt (storage call %d: %s, %q)=%v;", n, mode.name, failure, err)
	if hit {
		c.Count("faults", 1)
	}
	after := x.st.Snapshot()
	c.Case(x.path)
	list := set("root", "removable", "owner")
	if err == nil {
		l, got, broken, ok := x.observe(oid)
		if !ok {
			return hit, false
		}
		if !sameSet(l, list) || !sameContent(got, &content) {
			c.Violate("success-without-effect:Encrypt", "after%s: it reported success, but there are the list %q and %v (%v)", x.path, keysOf(l), got, broken)
			return hit, false
		}
		x.objs = append(x.objs, &obj16{oid: oid, content: &content, list: list})
		return hit, true
	}
	c.Count("failed_operations", 1)
	if oid != uuid.Nil {
		c.Violate("failed-with-result:Encrypt", "after%s: it failed but returned the ID %v", x.path, oid)
	}
	// Whatever it left behind.
	left := map[uuid.UUID]bool{}
	for k, v := range after {
		if old, there := before[k]; there {
			if old != v {
				c.Violate("other-records", "after%s: record %s changed", x.path, k)
			}
			continue
		}
		var dt int
		var raw []byte
		if _, err := fmt.Sscanf(k, "%d/%x", &dt, &raw); err == nil && len(raw) == 16 {
			left[uuid.FromBytesOrNil(raw)] = true
		}
	}
	for k := range before {
		if _, there := after[k]; !there {
			c.Violate("other-records", "after%s: record %s vanished", x.path, k)
		}
	}
	for oid := range left {
		var openers []string
		for _, i := range c16IDs {
			o, err := x.d().Decrypt(ctx, x.toks[i], oid)
			if err == nil {
				openers = append(openers, i)
				if !bytes.Equal(o.Plaintext, []byte(content.p)) || !bytes.Equal(o.AssociatedData, []byte(content.ad)) {
					c.Violate("encrypt-partial", "after%s: %s decrypts %s", x.path, i, gotObj(o))
				}
			}
		}
		if len(openers) == 0 {
			continue
		}
		l, got, _, ok := x.observe(oid)
		if !ok {
			return hit, false
		}
		if !sameSet(l, list) || !sameContent(got, &content) {
			c.Violate("encrypt-partial", "after%s: it left an object with the list %q and %v, which %q can open", x.path, keysOf(l), got, openers)
			return hit, false
		}
	}
	return hit, true
}

// c16Exhaustive makes every storage call of every operation fail after several short histories.
func c16Exhaustive(c *kit.C) {
	r := c.Rand("exhaustive")
	k := kit.NewKeys(r)
	histories := [][]string{{}, {"Update"}, {"AddGroupsToAccess"}, {"RemoveGroupsFromAccess"}, {"Delete"}, {"AddGroupsToAccess", "Update", "RemoveGroupsFromAccess"}, {"Update/1"}, {"Delete/1"}, {"Update/1", "Update"}}
	type job struct {
		h  []string
		op int
		by string
	}
	var jobs []job
	n := len(ops16(r))
	for _, h := range histories {
		for op := -1; op < n; op++ {
			for _, by := range []string{"owner", "g1", "outsider"} {
				jobs = append(jobs, job{h, op, by})
			}
		}
	}
	c.Parallel("exhaustive", len(jobs), func(j int) {
		prep(c, func() {
			r := c.Rand("exhaustive", j)
			job := jobs[j]
			for _, mode := range faultModes {
				for _, failure := range failures[:c.N(3, len(failures))] {
					if failure != failures[0] {
						failure = kit.Pick(r, failures)
					}
					for call := 0; call < 50; call++ {
						x := newC16(c, k)
						x.create(content16{"other", "other ad"})
						o := x.create(content16{"first", "first ad"})
						ok := true
						for _, h := range job.h {
							name, at, fails := strings.Cut(h, "/")
							for _, op := range ops16(r) {
								if op.name != name {
									continue
								}
								if fails { // stop after the first write
									var writes, n int
									fmt.Sscan(at, &n)
									x.tap.Reset()
									x.tap.Hook = func(e kit.Event) kit.Fault {
										if e.IsWrite() {
											writes++
											if writes > n {
												return kit.Before
											}
										}
										return kit.None
									}
									_, ok = x.do(o, op, "root", -1, faultMode{}, nil)
								} else {
									_, ok = x.do(o, op, "root", -1, faultMode{}, nil)
								}
							}
							if !ok {
								return
							}
						}
						var hit bool
						if job.op < 0 {
							hit, ok = x.encrypt(content16{fmt.Sprint(r.Uint64()), fmt.Sprint(r.Uint64())}, call, mode, failure)
						} else {
							hit, ok = x.do(o, ops16(r)[job.op], job.by, call, mode, failure)
						}
						if !ok {
							return
						}
						if !hit {
							break
						}
						if !x.usable(o, r) {
							return
						}
					}
				}
			}
		})
	})
}

// usable tells whether the object can go on being used as its state says.
func (x *c16) usable(o *obj16, r *rand.Rand) bool {
	ops := ops16(r)
	if o.list == nil {
		return true
	}
	exists := o.content != nil || o.torn
	for _, i := range []int{2, 3, 0, 4} { // add, remove, update, decrypt
		op := ops[i]
		before := len(x.path)
		fails := false
		run := op.run
		op.run = func(cc context.Context, d *d1.D1, tok string, oid uuid.UUID) (string, error) {
			got, err := run(cc, d, tok, oid)
			fails = err != nil
			return got, err
		}
		if _, ok := x.do(o, op, "root", -1, faultMode{}, nil); !ok {
			return false
		}
		if fails && (exists || i == 2 || i == 3) && !(i == 4 && o.content == nil) {
			x.c.Violate("unusable:"+op.name, "after%s: the later%s fails without any failure of storage", x.path[:before], x.path[before:])
			return false
		}
	}
	return true
}

func c16Random(c *kit.C, i int) {
	r := c.Rand("random", i)
	x := newC16(c, kit.NewKeys(r))
	for n := 0; n < 2+r.IntN(3); n++ {
		x.create(content16{fmt.Sprint("p", r.Uint64()), fmt.Sprint("a", r.Uint64())})
	}
	for s := 0; s < 40; s++ {
		mode, failure, n := kit.Pick(r, faultModes), kit.Pick(r, failures), r.IntN(5)
		if r.IntN(12) == 0 {
			if _, ok := x.encrypt(content16{fmt.Sprint("p", r.Uint64()), fmt.Sprint("a", r.Uint64())}, n, mode, failure); !ok {
				return
			}
			continue
		}
		o := kit.Pick(r, x.objs)
		ops := ops16(r)
		op := kit.Pick(r, ops)
		if op.name == "Delete" && r.IntN(4) > 0 {
			op = ops[r.IntN(4)]
		}
		if r.IntN(3) == 0 {
			n = -1
		}
		if _, ok := x.do(o, op, kit.Pick(r, c16IDs), n, mode, failure); !ok {
			return
		}
		if r.IntN(10) == 0 { // and all others
			for _, p := range x.objs {
				l, content, broken, ok := x.observe(p.oid)
				if !ok {
					return
				}
				if (l == nil) != (p.list == nil) || !sameSet(l, p.list) || l != nil && !sameContent(content, p.content) || (broken != nil) != p.torn {
					c.Violate("later", "after%s: object %v has the list %q and %v (%v) instead of %q and %v", x.path, p.oid, keysOf(l), content, broken, keysOf(p.list), p.content)
					return
				}
			}
		}
	}
}
