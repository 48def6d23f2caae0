package checks

import (
	"fmt"
	"math/rand/v2"
	"strings"
	"testing"

	"github.com/gofrs/uuid"

	d1 "github.com/cybercryptio/d1-lib/v2"
	"github.com/cybercryptio/d1-lib/v2/id"

	"verif/harness/kit"
)

// C17: deletion is complete, final, idempotent and can always be retried.
func TestC17(t *testing.T) {
	kit.Run(t, "C17", "fault_enumeration", "An evaluation is one Delete (with or without injected failures) after which storage and the results of later calls by all kinds of callers are looked at. Non-trivial: distinct (history, caller, failing storage calls, kinds of failure).", func(c *kit.C) {
		c17Exhaustive(c)
		c.Parallel("random", c.N(1500, 20000), func(i int) { prep(c, func() { c17Random(c, i) }) })
		c.Require("acknowledged", 1000)
		c.Require("interrupted", 500)
		c.Require("refused", 500)
	})
}

type c17 struct {
	c     *kit.C
	st    *kit.Store
	tap   *kit.Tap
	ds    []*d1.D1
	good  []string // callers who may delete
	bad   map[string]string
	path  string
	owner string
	n     int
	live  map[uuid.UUID]string // existing objects and their plaintext
	gone  []uuid.UUID
}

func newC17(c *kit.C, k kit.Keys) *c17 {
	ids := kit.NewIDs()
	st := kit.NewStore()
	x := &c17{c: c, st: st, tap: kit.NewTap(st), bad: map[string]string{}, live: map[uuid.UUID]string{}}
	x.tap.Record = false
	x.ds = []*d1.D1{kit.NewD1(k, x.tap, ids), kit.NewD1(k, x.tap, ids)}
	x.owner = ids.User("owner", id.ScopeAll)
	ids.Set("deleter", id.Identity{ID: "d", Scopes: id.ScopeDelete, Groups: map[string]id.AccessGroup{"g": {ID: "g", Scopes: id.ScopeDelete}}})
	x.good = []string{x.owner, "deleter"}
	x.bad = map[string]string{
		"nobody": "unknown token", "": "empty token",
		ids.User("stranger", id.ScopeAll, id.AccessGroup{ID: "x", Scopes: id.ScopeAll}): "not in the access list",
	}
	ids.Set("weak owner", id.Identity{ID: "owner", Scopes: id.ScopeAll &^ id.ScopeDelete})
	x.bad["weak owner"] = "lacks the scope"
	ids.Set("weak group", id.Identity{ID: "w", Scopes: id.ScopeAll, Groups: map[string]id.AccessGroup{"g": {ID: "g", Scopes: id.ScopeAll &^ id.ScopeDelete}}})
	x.bad["weak group"] = "its group lacks the scope"
	return x
}

func (x *c17) d() *d1.D1 {
	x.n++
	return x.ds[x.n%2]
}

func (x *c17) create() uuid.UUID {
	p := fmt.Sprint("plaintext ", len(x.live)+len(x.gone))
	oid := must(x.d().Encrypt(ctx, x.owner, obj([]byte(p), []byte("ad")), "g"))
	x.live[oid] = p
	return oid
}

// recordsOf lists the records that carry the object's ID.
func recordsOf(snap map[string]string, oid uuid.UUID) []string {
	var out []string
	for k := range snap {
		if strings.Contains(k, fmt.Sprintf("%x", oid.Bytes())) {
			out = append(out, k)
		}
	}
	return out
}

func without(snap map[string]string, oid uuid.UUID) map[string]string {
	out := map[string]string{}
	for k, v := range snap {
		if !strings.Contains(k, fmt.Sprintf("%x", oid.Bytes())) {
			out[k] = v
		}
	}
	return out
}

// delete calls Delete, with a failure if n is not negative. may tells whether the caller may delete.
func (x *c17) delete(oid uuid.UUID, tok string, may bool, n int, mode faultMode) (acked, hit, ok bool) {
	c := x.c
	before := x.st.Snapshot()
	_, live := x.live[oid]
	name := fmt.Sprintf(" Delete by %q", tok)
	ctx := ctx
	if n >= 0 {
		failure := failureFor(n, x.path)
		name += fmt.Sprintf(" (storage call %d %s, %q)", n, mode.name, failure)
		var cancel func()
		ctx, cancel = faultAt(ctx, x.tap, n, mode, failure, &hit)
		defer cancel()
	}
	err := x.d().Delete(ctx, tok, oid)
	noFaults(x.tap)
	x.path += fmt.Sprintf("%s=%v;", name, err)
	after := x.st.Snapshot()
	c.Case(x.path)
	if d := kit.DiffContents(without(before, oid), without(after, oid)); d != "" {
		c.Violate("other-objects", "after%s: records of other objects changed: %s", x.path, d)
		return false, hit, false
	}
	if live && !may {
		c.Count("refused", 1)
		if err == nil || !kit.SameContents(before, after) {
			c.Violate("refused-removes", "after%s (%s): Delete gave %v; storage: %s", x.path, x.bad[tok], err, kit.DiffContents(before, after))
			return false, hit, false
		}
		return false, hit, true
	}
	if !live { // deleted or never there: succeeds without effect for whoever has the scope
		if !kit.SameContents(before, after) {
			c.Violate("delete-again-changes", "after%s: deleting what does not exist changed storage: %s", x.path, kit.DiffContents(before, after))
			return false, hit, false
		}
		if may && !hit && err != nil {
			c.Violate("not-idempotent", "after%s: deleting again failed with %v", x.path, err)
			return false, hit, false
		}
		return err == nil, hit, true
	}
	if err != nil {
		if !hit {
			c.Violate("cannot-delete", "after%s: Delete by an authorized caller failed without any failure of storage", x.path)
			return false, hit, false
		}
		c.Count("interrupted", 1)
		return false, hit, true
	}
	c.Count("acknowledged", 1)
	if rec := recordsOf(after, oid); len(rec) > 0 {
		c.Violate("remains", "after%s: Delete was acknowledged, but storage still holds %v", x.path, rec)
		return true, hit, false
	}
	delete(x.live, oid)
	x.gone = append(x.gone, oid)
	return true, hit, true
}

// final calls everything on a deleted object.
func (x *c17) final(oid uuid.UUID) bool {
	c := x.c
	before := x.st.Snapshot()
	toks := append([]string{}, x.good...)
	for t := range x.bad {
		toks = append(toks, t)
	}
	for _, tok := range toks {
		for _, op := range objectOps {
			got, err := op.run(x.d(), tok, oid)
			c.Eval(1)
			if op.name == "Delete" {
				if err != nil && (tok == x.owner || tok == "deleter") {
					c.Violate("not-idempotent", "after%s: deleting again by %q failed with %v", x.path, tok, err)
					return false
				}
				continue
			}
			if err == nil || got != "" {
				c.Violate("not-final:"+op.name, "after%s: %s by %q on the deleted object gave %q, %v", x.path, op.name, tok, got, err)
				return false
			}
		}
	}
	if after := x.st.Snapshot(); !kit.SameContents(before, after) {
		c.Violate("not-final", "after%s: calls on the deleted object changed storage: %s", x.path, kit.DiffContents(before, after))
		return false
	}
	return true
}

// intact checks all other objects.
func (x *c17) intact() bool {
	for oid, p := range x.live {
		o, err := x.d().Decrypt(ctx, x.owner, oid)
		if err != nil || string(o.Plaintext) != p {
			x.c.Violate("other-objects", "after%s: object %v, which was not deleted, gives %s, %v instead of %q", x.path, oid, gotObj(o), err, p)
			return false
		}
	}
	return true
}

// histories17 are what may have happened to an object before.
var histories17 = []string{"", "u", "a", "r", "uar", "uuu", "ara", "x", "ux"}

func (x *c17) history(oid uuid.UUID, h string) {
	for i, op := range h {
		switch op {
		case 'u':
			p := fmt.Sprint("updated ", i)
			must0(x.d().Update(ctx, x.owner, oid, obj([]byte(p), nil)))
			x.live[oid] = p
		case 'a':
			must0(x.d().AddGroupsToAccess(ctx, x.owner, oid, "more", "and more"))
		case 'r':
			must0(x.d().RemoveGroupsFromAccess(ctx, x.owner, oid, "more"))
		case 'x': // an Update that is interrupted between its writes
			x.tap.Reset()
			writes := 0
			x.tap.Hook = func(e kit.Event) kit.Fault {
				if e.IsWrite() {
					writes++
					if writes == 2 {
						return kit.Before
					}
				}
				return kit.None
			}
			x.d().Update(ctx, x.owner, oid, obj([]byte("lost"), nil))
			noFaults(x.tap)
		}
	}
	x.path += " history " + h + ";"
}

// c17Exhaustive interrupts Delete once or twice, at all storage calls in all ways, after several
// histories, with attempts of others in between.
func c17Exhaustive(c *kit.C) {
	k := kit.NewKeys(c.Rand("keys"))
	type job struct {
		h      string
		m1, m2 int
		by     int
	}
	var jobs []job
	for _, h := range histories17 {
		for m1 := range faultModes {
			for m2 := -1; m2 < len(faultModes); m2++ {
				for by := 0; by < 2; by++ {
					jobs = append(jobs, job{h, m1, m2, by})
				}
			}
		}
	}
	c.Parallel("exhaustive", len(jobs), func(j int) {
		prep(c, func() {
			job := jobs[j]
			for n1 := 0; n1 < 30; n1++ {
				reached := false
				for n2 := 0; n2 < 30; n2++ {
					x := newC17(c, k)
					a, oid := x.create(), x.create()
					x.history(oid, job.h)
					tok := x.good[job.by]
					acked, hit, ok := x.delete(oid, tok, true, n1, faultModes[job.m1])
					if !ok {
						return
					}
					if !hit {
						break
					}
					reached = true
					if !acked { // nobody else can remove anything, also not from the rest
						for bad := range x.bad {
							before := x.st.Snapshot()
							if len(recordsOf(before, oid)) == 0 {
								continue
							}
							if x.half(oid) {
								if _, _, ok := x.delete(oid, bad, false, -1, faultMode{}); !ok {
									return
								}
							}
						}
					}
					second := true
					if !acked && job.m2 >= 0 {
						acked, second, ok = x.delete(oid, tok, true, n2, faultModes[job.m2])
						if !ok {
							return
						}
					}
					if !acked {
						by := x.good[(job.by+n2)%2]
						if acked, _, ok = x.delete(oid, by, true, -1, faultMode{}); !ok {
							return
						}
					}
					if !x.final(oid) || !x.intact() {
						return
					}
					if _, _, ok := x.delete(a, x.owner, true, -1, faultMode{}); !ok || !x.final(a) {
						return
					}
					if x.st.Len() != 0 {
						c.Violate("remains", "after%s: all objects are deleted, but storage holds %d records", x.path, x.st.Len())
						return
					}
					if job.m2 < 0 || !second {
						break
					}
				}
				if !reached {
					break
				}
			}
		})
	})
}

// half tells whether the object's access list is still there, so that a caller can be refused; once
// it is gone there is nothing left to refuse.
func (x *c17) half(oid uuid.UUID) bool {
	_, err := x.d().GetAccessGroups(ctx, x.owner, oid)
	return err == nil
}

func c17Random(c *kit.C, i int) {
	r := c.Rand("random", i)
	x := newC17(c, kit.NewKeys(r))
	if i%3 > 0 {
		c17Provider(c, r, i)
	}
	var all []uuid.UUID
	for s := 0; s < 50; s++ {
		if len(x.live) < 2 || r.IntN(6) == 0 {
			all = append(all, x.create())
		}
		oid := kit.Pick(r, all)
		if r.IntN(12) == 0 {
			oid = newUUID(r)
		}
		if _, live := x.live[oid]; live && r.IntN(3) == 0 {
			x.history(oid, kit.Pick(r, []string{"u", "a", "r"}))
			continue
		}
		may := r.IntN(3) > 0
		tok := kit.Pick(r, x.good)
		if !may {
			tok = kit.Pick(r, keysOf(x.bad))
		}
		n := r.IntN(6) - 2
		acked, _, ok := x.delete(oid, tok, may, max(n, -1), kit.Pick(r, faultModes))
		if !ok {
			return
		}
		for !acked && may {
			if acked, _, ok = x.delete(oid, kit.Pick(r, x.good), true, max(r.IntN(5)-2, -1), kit.Pick(r, faultModes)); !ok {
				return
			}
		}
		if len(x.gone) > 0 && r.IntN(4) == 0 && !x.final(kit.Pick(r, x.gone)) {
			return
		}
		if !x.intact() {
			return
		}
	}
}

// c17Provider deletes objects of the library's own IO Providers.
func c17Provider(c *kit.C, r *rand.Rand, i int) {
	if i > 60 {
		return
	}
	p := providers[1+i%(len(providers)-1)]
	ids := kit.NewIDs()
	owner := ids.User("owner", id.ScopeAll)
	tap := kit.NewTap(p.make())
	d := kit.NewD1(kit.NewKeys(r), tap, ids)
	var oids []uuid.UUID
	for n := 0; n < 4; n++ {
		oids = append(oids, must(d.Encrypt(ctx, owner, obj([]byte("p"), nil))))
	}
	written := map[string]kit.Event{}
	for _, e := range tap.Events() {
		if e.Op == "Put" {
			written[fmt.Sprintf("%d/%x", e.Type, e.ID)] = e
		}
	}
	for n, oid := range oids {
		must0(d.Delete(ctx, owner, oid))
		c.Count("acknowledged", 1)
		c.Case("provider", p.name, i, n)
		for _, e := range written {
			_, err := tap.Under.Get(ctx, e.ID, e.Type)
			var deleted bool
			for _, o := range oids[:n+1] {
				deleted = deleted || string(o.Bytes()) == string(e.ID)
			}
			if deleted != (err != nil) {
				c.Violate("remains", "provider %s: after deleting %d of %d objects, record %v gives %v", p.name, n+1, len(oids), e, err)
				return
			}
		}
		if err := d.Delete(ctx, owner, oid); err != nil {
			c.Violate("not-idempotent", "provider %s: deleting again failed with %v", p.name, err)
		}
	}
}
