package checks

import (
	"bytes"
	"context"
	"fmt"
	"math/rand/v2"
	"strings"
	"testing"

	"github.com/cybercryptio/d1-lib/v2/crypto"
	"github.com/cybercryptio/d1-lib/v2/data"
	"github.com/cybercryptio/d1-lib/v2/id"
	"github.com/cybercryptio/d1-lib/v2/index"
	"github.com/cybercryptio/d1-lib/v2/io"

	"verif/harness/kit"
)

// C15: manipulated index records never make a search return foreign entries.

func TestC15(t *testing.T) {
	kit.Run(t, "C15", "exploration", "An evaluation is one Search, Add or Delete over manipulated nodes, judged against all that was ever added to the keyword. Non-trivial: distinct (operation, kind of manipulation, position, resulting record).", func(c *kit.C) {
		c.Parallel("world", c.N(48, 400), func(i int) { prep(c, func() { c15World(c, i) }) })
		c.Parallel("hostile storage", c.N(900, 15000), func(i int) { prep(c, func() { c15Hostile(c, i) }) })
		c.Parallel("sealed", c.N(120, 1500), func(i int) { prep(c, func() { c15Sealed(c, i) }) })
		c.Require("rejected", 10000)
		c.Require("transplants", 1000)
		c.Require("replays", 300)
	})
}

type c15Node struct {
	index int
	kw    string
	pos   int
	label []byte
	raw   []byte
}

// c15Index is one index with all that was ever added to it.
type c15Index struct {
	k     kit.Keys
	warm  *index.SecureIndex
	m     words
	ever  map[string]map[string]bool
	chain map[string][]c15Node // current nodes
	old   map[string][]c15Node // all records ever stored
}

type c15Env struct {
	c    *kit.C
	r    *rand.Rand
	st   *kit.Store
	tap  *kit.Tap
	ids  *kit.IDs
	tok  string
	ix   []*c15Index
	kws  []string
	base map[string]string
}

func newC15(c *kit.C, r *rand.Rand) *c15Env {
	e := &c15Env{c: c, r: r, st: kit.NewStore(), ids: kit.NewIDs(), kws: []string{"kw0", "kw1", "kw2"}}
	e.tap = kit.NewTap(e.st)
	e.tok = e.ids.User("u", id.ScopeIndex)
	for n := 0; n < 2; n++ {
		k := kit.NewKeys(r)
		e.ix = append(e.ix, &c15Index{k: k, warm: kit.NewIndex(k, e.tap, e.ids), m: words{}, ever: map[string]map[string]bool{}, chain: map[string][]c15Node{}, old: map[string][]c15Node{}})
	}
	idents := []string{"same", "x", "y", "z", ""}
	for n, x := range e.ix {
		for w, kw := range e.kws {
			x.ever[kw] = map[string]bool{}
			own := fmt.Sprintf("own of %d %s", n, kw)
			step := func(del bool, s string) {
				e.tap.Reset()
				if del {
					must0(x.warm.Delete(ctx, e.tok, kw, s))
					x.m.del(kw, s)
				} else {
					must0(x.warm.Add(ctx, e.tok, kw, s))
					x.m.add(kw, s)
					x.ever[kw][s] = true
				}
				for _, ev := range e.tap.Events() {
					if ev.Op == "Put" || ev.Op == "Update" {
						x.old[kw] = append(x.old[kw], c15Node{n, kw, -1, ev.ID, ev.Data})
					}
				}
			}
			for s := 0; s < 6; s++ {
				step(false, kit.Pick(r, idents))
				if r.IntN(3) == 0 {
					step(true, kit.Pick(r, idents))
				}
			}
			step(false, own)
			for len(x.m[kw]) < 2+w {
				step(false, kit.Pick(r, idents))
			}
			e.tap.Reset()
			if got := must(x.warm.Search(ctx, e.tok, kw)); !sameStrings(got, x.m[kw]) {
				panic(libraryError{fmt.Sprintf("Search returned %q instead of %q", got, x.m[kw])})
			}
			for _, ev := range e.tap.Events() {
				if ev.Op == "Get" && ev.Err == nil {
					x.chain[kw] = append(x.chain[kw], c15Node{n, kw, len(x.chain[kw]), ev.ID, ev.Data})
				}
			}
		}
	}
	e.base = e.st.Snapshot()
	return e
}

const c15Limit = 3000

// search runs Search with a limit on storage calls.
func (e *c15Env) search(kind string, x *index.SecureIndex, kw string) ([]string, error) {
	e.tap.Reset()
	e.tap.Limit = c15Limit
	got, err := x.Search(ctx, e.tok, kw)
	over := e.tap.Over()
	e.tap.Limit = 0
	if over {
		e.c.Violate("endless:"+kind, "Search made more than %d storage calls (%s)", c15Limit, kind)
	}
	if err != nil && len(got) > 0 {
		e.c.Violate("partial:"+kind, "Search failed with %v but returned %q (%s)", err, got, kind)
	}
	return got, err
}

// foreign judges one record placed where it does not belong, or altered. It may be accepted only if
// it makes no difference at all (mayEqual), as when an alteration does not change what is decoded.
func (e *c15Env) foreign(kind string, at c15Node, raw []byte, mayEqual, writes bool) {
	if bytes.Equal(raw, at.raw) {
		return
	}
	c, x := e.c, e.ix[at.index]
	want := x.m[at.kw]
	e.st.Set(at.label, io.DataTypeSealedNode, raw)
	defer e.st.Restore(e.base)
	describe := func() string {
		return fmt.Sprintf("%s at node %d of %d of keyword %q (%q): %.300q instead of %.300q", kind, at.pos, len(want), at.kw, want, raw, at.raw)
	}
	inst := x.warm
	if e.r.IntN(2) == 0 {
		inst = kit.NewIndex(x.k, e.tap, e.ids)
	}
	got, err := e.search(kind, inst, at.kw)
	c.Case("Search", kind, at.pos, raw)
	if err == nil {
		if !mayEqual || !sameStrings(got, want) {
			c.Violate("accepted:"+kind, "Search succeeded with %q: %s", got, describe())
		}
		c.Count("undamaged", 1)
		return
	}
	c.Count("rejected", 1)
	if !writes {
		return
	}
	before := e.st.Snapshot()
	err = inst.Add(ctx, e.tok, at.kw, "new")
	c.Case("Add", kind, at.pos, raw)
	if after := e.st.Snapshot(); err == nil || !kit.SameContents(before, after) {
		c.Violate("add:"+kind, "Add returned %v and changed %q: %s", err, kit.DiffContents(before, after), describe())
		e.st.Restore(before)
	}
	for s := range set(want...) {
		err := inst.Delete(ctx, e.tok, at.kw, s)
		c.Case("Delete", kind, at.pos, raw, s)
		if err == nil {
			c.Violate("delete:"+kind, "Delete(%q) succeeded: %s", s, describe())
		}
		if now, ok := e.st.Raw(at.label, io.DataTypeSealedNode); !ok || !bytes.Equal(now, raw) {
			c.Violate("delete:"+kind, "Delete(%q) (%v) replaced or removed the forged record: %s", s, err, describe())
		}
		// When the genuine record is back, the other entries are all there.
		e.st.Set(at.label, io.DataTypeSealedNode, at.raw)
		got, err := e.search(kind, inst, at.kw)
		if err != nil || !subsequence(got, want, s) {
			c.Violate("delete-damage:"+kind, "after Delete(%q), once the genuine record is back, Search returned %q, %v: %s", s, got, err, describe())
		}
		e.st.Restore(before)
	}
	// The other keywords and the other index are not concerned.
	if e.r.IntN(20) == 0 {
		for n, y := range e.ix {
			for _, kw := range e.kws {
				if n == at.index && kw == at.kw {
					continue
				}
				if got, err := y.warm.Search(ctx, e.tok, kw); err != nil || !sameStrings(got, y.m[kw]) {
					c.Violate("others:"+kind, "Search(%q) of index %d returned %q, %v instead of %q: %s", kw, n, got, err, y.m[kw], describe())
				}
			}
		}
	}
}

func c15World(c *kit.C, i int) {
	r := c.Rand("world", i)
	e := newC15(c, r)
	var nodes []c15Node
	for _, x := range e.ix {
		for _, kw := range e.kws {
			nodes = append(nodes, x.chain[kw]...)
		}
	}
	for _, at := range nodes {
		for _, from := range nodes {
			c.Count("transplants", 1)
			kind := "record of another position"
			switch {
			case from.index != at.index:
				kind = "record of another index"
			case from.kw != at.kw:
				kind = "record of another keyword"
			}
			if bytes.Equal(from.label, at.label) {
				continue
			}
			e.foreign(kind, at, from.raw, false, r.IntN(4) == 0)
			// Parts of two records.
			for _, f := range []string{"Ciphertext", "WrappedKey"} {
				e.foreign("field of another record", at, withField(at.raw, f, byteField(from.raw, f)), false, r.IntN(10) == 0)
			}
		}
		// Records stored earlier, under this name or another one of the keyword.
		for _, old := range e.ix[at.index].old[at.kw] {
			if !bytes.Equal(old.label, at.label) {
				e.foreign("earlier record of another position", at, old.raw, false, r.IntN(4) == 0)
			}
			for _, f := range []string{"Ciphertext", "WrappedKey"} {
				e.foreign("field of an earlier record", at, withField(at.raw, f, byteField(old.raw, f)), bytes.Equal(old.raw, at.raw), false)
			}
		}
		// Alterations.
		for _, f := range []string{"Ciphertext", "WrappedKey"} {
			for _, m := range mutations(r, byteField(at.raw, f), c.N(60, 400)) {
				e.foreign(f+": "+m.name, at, withField(at.raw, f, m.b), false, r.IntN(20) == 0)
			}
		}
		for _, m := range rawMutations(r, at.raw, c.N(60, 400)) {
			e.foreign("record: "+m.name, at, m.b, true, r.IntN(20) == 0)
		}
	}
	e.replays()
}

// replays puts back records where they were genuinely stored at an earlier time.
func (e *c15Env) replays() {
	c, r := e.c, e.r
	for n, x := range e.ix {
		for _, kw := range e.kws {
			for t := 0; t < 30; t++ {
				e.st.Restore(e.base)
				for j := 1 + r.IntN(3); j > 0; j-- {
					o := kit.Pick(r, x.old[kw])
					e.st.Set(o.label, io.DataTypeSealedNode, o.raw)
				}
				if r.IntN(4) == 0 {
					e.st.Remove(kit.Pick(r, x.old[kw]).label, io.DataTypeSealedNode)
				}
				for s := 0; s < 3; s++ {
					got, err := e.search("replay", x.warm, kw)
					c.Case("replay", n, kw, got, t)
					c.Count("replays", 1)
					if err == nil {
						for _, g := range got {
							if !x.ever[kw][g] && g != "new" {
								c.Violate("replay-foreign", "after earlier records were put back, Search(%q) returned %q, and %q was never added", kw, got, g)
							}
						}
					}
					e.tap.Reset()
					e.tap.Limit = c15Limit
					if s%2 == 0 {
						x.warm.Add(ctx, e.tok, kw, "new")
					} else {
						x.warm.Delete(ctx, e.tok, kw, kit.Pick(r, []string{"same", "x", "new"}))
					}
					if e.tap.Over() {
						c.Violate("endless:replay", "Add or Delete made more than %d storage calls after earlier records were put back", c15Limit)
					}
					e.tap.Limit = 0
				}
			}
		}
	}
	e.st.Restore(e.base)
}

// c15Hostile answers every Get as it likes.
func c15Hostile(c *kit.C, i int) {
	r := c.Rand("hostile", i)
	e := newC15(c, r)
	at := map[string][][]byte{} // all records ever stored under a name
	var all [][]byte
	for _, x := range e.ix {
		for _, l := range x.old {
			for _, n := range l {
				at[string(n.label)] = append(at[string(n.label)], n.raw)
				all = append(all, n.raw)
			}
		}
	}
	genuine, foreign := 1+r.IntN(40), r.IntN(3)
	hostile := &hostileStore{Store: e.st, get: func(name []byte) ([]byte, error) {
		switch x := r.IntN(genuine + foreign + 2); {
		case x < genuine && len(at[string(name)]) > 0:
			return kit.Pick(r, at[string(name)]), nil
		case x < genuine+foreign:
			return kit.Pick(r, all), nil
		case x == genuine+foreign:
			return kit.Pick(r, [][]byte{nil, {}, []byte("{}"), []byte("null"), kit.Bytes(r, 40), []byte(`{"Ciphertext":"AAAA","WrappedKey":"AAAA"}`)}), nil
		}
		return nil, io.ErrNotFound
	}}
	e.tap.Under = hostile
	for n, x := range e.ix {
		for _, kw := range e.kws {
			for t := 0; t < 10; t++ {
				got, err := e.search("hostile storage", x.warm, kw)
				c.Case("hostile", n, kw, t, got, i)
				if err == nil {
					c.Count("hostile_accepted", 1)
					for _, g := range got {
						if !x.ever[kw][g] {
							c.Violate("hostile-foreign", "Search(%q) over hostile storage returned %q, and %q was never added", kw, got, g)
						}
					}
				}
				for _, del := range []bool{false, true} {
					e.tap.Reset()
					e.tap.Limit = c15Limit
					if del {
						x.warm.Delete(ctx, e.tok, kw, "same")
					} else {
						x.warm.Add(ctx, e.tok, kw, "same")
					}
					// Delete of an entry that storage brings back again and again may go on as long as
					// storage does so, with overwhelming probability not for this long.
					if e.tap.Over() {
						c.Violate("endless:hostile", "Add or Delete over hostile storage made more than %d storage calls", c15Limit)
					}
					e.tap.Limit = 0
				}
			}
		}
	}
}

type hostileStore struct {
	*kit.Store
	get func(name []byte) ([]byte, error)
}

func (s *hostileStore) Get(_ context.Context, name []byte, _ io.DataType) ([]byte, error) {
	return s.get(name)
}

// c15Sealed unseals nodes directly.
func c15Sealed(c *kit.C, i int) {
	r := c.Rand("sealed", i)
	cr, other := must(crypto.NewAESCryptor(kit.Key(r))), must(crypto.NewAESCryptor(kit.Key(r)))
	node := data.Node{Identifier: kit.String(r), NextCounter: r.Uint64() >> r.IntN(64)}
	if i%4 == 3 {
		node.Identifier = strings.Repeat(kit.Pick(r, []string{"x", "\n", "é"}), 3000+r.IntN(30000)) + kit.String(r)
	}
	label := kit.Bytes(r, 32)
	s := must(node.Seal(label, &cr))
	if got, err := s.Unseal(label, &cr); err != nil || got != node {
		c.Violate("unseal", "the sealed node %+v unseals as %+v, %v", node, got, err)
	}
	try := func(kind string, s data.SealedNode, label []byte, cr *crypto.Cryptor) {
		c.Case("Unseal", kind, s.Ciphertext, s.WrappedKey, label)
		got, err := s.Unseal(label, cr)
		if err == nil {
			c.Violate("unseal:"+kind, "Unseal accepted a forged node (%s): %+v", kind, got)
		} else if got != (data.Node{}) {
			c.Violate("unseal-leak:"+kind, "Unseal failed with %v but returned %+v", err, got)
		}
		c.Count("rejected", 1)
	}
	for _, m := range mutations(r, label, 256) {
		try("label "+m.name, s, m.b, &cr)
	}
	try("key", s, label, &other)
	for _, m := range mutations(r, s.Ciphertext, 300) {
		try("ciphertext "+m.name, data.SealedNode{Ciphertext: m.b, WrappedKey: s.WrappedKey}, label, &cr)
	}
	for _, m := range mutations(r, s.WrappedKey, 300) {
		try("key "+m.name, data.SealedNode{Ciphertext: s.Ciphertext, WrappedKey: m.b}, label, &cr)
	}
}
