package checks

import (
	"fmt"
	"math/rand/v2"
	"strings"
	"testing"

	"github.com/cybercryptio/d1-lib/v2/id"
	"github.com/cybercryptio/d1-lib/v2/index"
	"github.com/cybercryptio/d1-lib/v2/io"

	"verif/harness/kit"
)

// C12: index search returns exactly the identifiers added and not deleted.

func TestC12(t *testing.T) {
	kit.Run(t, "C12", "exploration", "An evaluation is one Search compared with the model after a history of additions and deletions. Non-trivial: distinct (history, keyword).", func(c *kit.C) {
		c12Exhaustive(c, []string{"a"}, []string{"x", "y", "z"}, c.N(6, 8))
		c12Exhaustive(c, []string{"a"}, []string{"x", "y"}, c.N(8, 11))
		c12Exhaustive(c, []string{"a", "b"}, []string{"x", "y"}, c.N(5, 6))
		c.Parallel("random", c.N(240, 6000), func(i int) { prep(c, func() { c12Random(c, i) }) })
		c.Parallel("long", c.N(8, 40), func(i int) { prep(c, func() { c12Long(c, i) }) })
		c.Parallel("very long", c.N(1, 4), func(i int) { prep(c, func() { c12VeryLong(c, i) }) })
		c.Parallel("opaque", c.N(1, 3)*len(kit.VariantBases), func(i int) { prep(c, func() { c12Opaque(c, i) }) })
		c.Parallel("counter", c.N(3, 8), func(i int) { prep(c, func() { c12Counter(c, i) }) })
		c.Parallel("not UTF-8", c.N(200, 3000), func(i int) { prep(c, func() { c12Invalid(c, i) }) })
		c.Require("additions", 10000)
		c.Require("deletions", 10000)
	})
}

// words is the model: the identifiers of every keyword, in order.
type words map[string][]string

func (w words) add(kw, i string) { w[kw] = append(w[kw][:len(w[kw]):len(w[kw])], i) }

func (w words) del(kw, i string) (n int) {
	var out []string
	for _, x := range w[kw] {
		if x != i {
			out = append(out, x)
		} else {
			n++
		}
	}
	w[kw] = out
	return
}

// c12Exhaustive runs all histories of n operations. It goes down the tree of histories on copies of
// the storage.
func c12Exhaustive(c *kit.C, kws, idents []string, n int) {
	type op struct {
		del     bool
		kw, idt string
	}
	var ops []op
	for _, kw := range kws {
		for _, i := range idents {
			ops = append(ops, op{false, kw, i}, op{true, kw, i})
		}
	}
	c.Parallel("exhaustive", len(ops)*len(ops), func(i int) {
		prep(c, func() {
			ids := kit.NewIDs()
			tok := ids.User("u", id.ScopeIndex)
			st := kit.NewStore()
			k := kit.NewKeys(c.Rand("keys"))
			xs := []*index.SecureIndex{kit.NewIndex(k, st, ids), kit.NewIndex(k, st, ids)}
			var down func(depth int, m words, path string)
			step := func(o op, depth int, m words, path string) {
				snap := st.Snapshot()
				m2 := words{}
				for k, v := range m {
					m2[k] = v
				}
				ix := xs[depth%2]
				if o.del {
					path += fmt.Sprintf(" -%s%s", o.kw, o.idt)
					if err := ix.Delete(ctx, tok, o.kw, o.idt); err != nil {
						c.Violate("delete-error", "history%s: %v", path, err)
					}
					m2.del(o.kw, o.idt)
					c.Count("deletions", 1)
				} else {
					path += fmt.Sprintf(" +%s%s", o.kw, o.idt)
					if err := ix.Add(ctx, tok, o.kw, o.idt); err != nil {
						c.Violate("add-error", "history%s: %v", path, err)
					}
					m2.add(o.kw, o.idt)
					c.Count("additions", 1)
				}
				for _, kw := range kws {
					c12Search(c, xs[(depth+1)%2], tok, m2, kw, func() string { return path })
				}
				if depth < n {
					down(depth+1, m2, path)
				}
				st.Restore(snap)
			}
			down = func(depth int, m words, path string) {
				for _, o := range ops {
					step(o, depth, m, path)
				}
			}
			// The first two operations are those of this part.
			o1, o2 := ops[i/len(ops)], ops[i%len(ops)]
			m, path := words{}, ""
			for _, o := range []op{o1} {
				if o.del {
					must0(xs[0].Delete(ctx, tok, o.kw, o.idt))
					path += fmt.Sprintf(" -%s%s", o.kw, o.idt)
				} else {
					must0(xs[0].Add(ctx, tok, o.kw, o.idt))
					m.add(o.kw, o.idt)
					path += fmt.Sprintf(" +%s%s", o.kw, o.idt)
				}
			}
			step(o2, 2, m, path)
		})
	})
}

func c12Search(c *kit.C, ix *index.SecureIndex, tok string, m words, kw string, path func() string) bool {
	got, err := ix.Search(ctx, tok, kw)
	c.Case(path(), "?", kw)
	if err != nil || !sameStrings(got, m[kw]) {
		c.Violate("search", "after%s: Search(%q) returned %q, %v; expected %q", path(), kw, c12Short(got), err, c12Short(m[kw]))
		return false
	}
	return true
}

func c12Short(s []string) []string {
	if len(s) > 20 {
		s = append(s[:20:20], fmt.Sprintf("... (%d)", len(s)))
	}
	return s
}

// c12Opaque uses all the other spellings of a string as keywords and as identifiers.
func c12Opaque(c *kit.C, i int) {
	r := c.Rand("opaque", i)
	k, ids, st := kit.NewKeys(r), kit.NewIDs(), providers[i%len(providers)].make()
	tok := ids.User("u", id.ScopeIndex)
	x := kit.NewIndex(k, st, ids)
	vs := kit.Variants(kit.VariantBases[i%len(kit.VariantBases)])
	m := words{}
	for j, v := range vs {
		must0(x.Add(ctx, tok, v, fmt.Sprint(j)))
		m.add(v, fmt.Sprint(j))
	}
	path := func() string { return fmt.Sprintf(" additions to all the spellings of %q", vs[0]) }
	for _, v := range vs {
		if !c12Search(c, x, tok, m, v, path) {
			return
		}
	}
	path = func() string {
		return fmt.Sprintf(" additions to all the spellings of %q and a deletion from every other one", vs[0])
	}
	for j, v := range vs {
		if j%2 == 0 {
			must0(x.Delete(ctx, tok, v, fmt.Sprint(j)))
			m.del(v, fmt.Sprint(j))
		}
	}
	for _, v := range vs {
		if !c12Search(c, x, tok, m, v, path) {
			return
		}
	}
	c.Count("additions", int64(len(vs)))
	// As identifiers
	r.Shuffle(len(vs)-1, func(a, b int) { vs[a+1], vs[b+1] = vs[b+1], vs[a+1] })
	for n := 1; n < len(vs); n += 24 {
		kw := fmt.Sprint("identifiers ", n)
		part := append([]string{vs[0]}, vs[n:min(len(vs), n+24)]...)
		r.Shuffle(len(part), func(a, b int) { part[a], part[b] = part[b], part[a] })
		for _, v := range part {
			must0(x.Add(ctx, tok, kw, v))
			m.add(kw, v)
		}
		c.Count("additions", int64(len(part)))
		path = func() string { return fmt.Sprintf(" additions of the spellings %q", part) }
		if !c12Search(c, x, tok, m, kw, path) {
			return
		}
		for _, v := range []string{vs[0], part[0], part[len(part)-1]} {
			must0(x.Delete(ctx, tok, kw, v))
			m.del(kw, v)
			if !c12Search(c, x, tok, m, kw, func() string { return path() + fmt.Sprintf(" and the deletion of %q", v) }) {
				return
			}
		}
	}
}

// c12Random runs long histories over many keywords and identifiers, on several instances.
func c12Random(c *kit.C, i int) {
	r := c.Rand("random", i)
	pr := providers[i%len(providers)]
	st := pr.make()
	ids := kit.NewIDs()
	tok := ids.User("u", id.ScopeIndex)
	k := kit.NewKeys(r)
	inst := func() *index.SecureIndex { return kit.NewIndex(k, st, ids) }
	xs := []*index.SecureIndex{inst(), inst(), inst()}
	other := kit.NewIndex(kit.NewKeys(r), st, ids) // another index in the same storage
	kws := c12Confusable(r, 1+r.IntN(6))
	idents := c12Confusable(r, 1+r.IntN(6))
	if r.IntN(4) == 0 {
		idents = append(idents, kit.Alnum(r, 100000), kws[0])
	}
	m, mo := words{}, words{}
	var tr trail
	path := func() string { return fmt.Sprintf(" (%s)\n%s\n", pr.name, &tr) }
	n := 150
	if pr.name == "bolt" {
		n = 40
	}
	for s := 0; s < n && !c.Full(); s++ {
		if r.IntN(20) == 0 {
			xs[r.IntN(3)] = inst()
		}
		ix, mm, name := kit.Pick(r, xs), m, ""
		if r.IntN(6) == 0 {
			ix, mm, name = other, mo, "other index: "
		}
		kw, idt := kit.Pick(r, kws), kit.Pick(r, idents)
		switch x := r.IntN(10); {
		case x < 5:
			tr.add("%sAdd(%q, %q)", name, kw, idt)
			if err := ix.Add(ctx, tok, kw, idt); err != nil {
				c.Violate("add-error", "%s: %v", path(), err)
				return
			}
			mm.add(kw, idt)
			c.Count("additions", 1)
		case x < 8:
			tr.add("%sDelete(%q, %q)", name, kw, idt)
			if err := ix.Delete(ctx, tok, kw, idt); err != nil {
				c.Violate("delete-error", "%s: %v", path(), err)
				return
			}
			mm.del(kw, idt)
			c.Count("deletions", 1)
		}
		if !c12Search(c, ix, tok, mm, kw, path) {
			return
		}
		if s%10 == 0 || s == n-1 {
			for _, kw := range kws {
				if !c12Search(c, kit.Pick(r, xs), tok, m, kw, path) || !c12Search(c, other, tok, mo, kw, path) {
					return
				}
			}
		}
	}
	// A new instance later sees the same; storage holds exactly one node per entry.
	for _, kw := range kws {
		c12Search(c, inst(), tok, m, kw, path)
	}
	if s, ok := st.(*kit.Store); ok {
		want := 0
		for _, w := range []words{m, mo} {
			for _, l := range w {
				want += len(l)
			}
		}
		if s.Len() != want {
			c.Violate("leftovers", "after%s: %d records are stored for %d entries", path(), s.Len(), want)
		}
	}
}

// c12Confusable returns distinct strings that are easily confused.
func c12Confusable(r *rand.Rand, n int) []string {
	m := map[string]bool{}
	base := kit.String(r)
	near := []string{base, base + " ", base + "\x00", base + base, "", "0", "1"}
	if r.IntN(4) == 0 {
		long := strings.Repeat("k", kit.Pick(r, []int{63, 64, 120, 128, 136, 200, 256, 1000, 5000}))
		near = []string{base + long, base + long + "1", base + long + "2", "1" + long, "2" + long, long + base + long, long + "1" + long, long + "2" + long, long}
	}
	for _, s := range near {
		if len(m) < n && r.IntN(3) > 0 {
			m[s] = true
		}
	}
	for len(m) < n {
		m[kit.String(r)] = true
	}
	return keysOf(m)
}

// c12Long makes chains of hundreds of entries.
func c12Long(c *kit.C, i int) {
	r := c.Rand("long", i)
	ids := kit.NewIDs()
	tok := ids.User("u", id.ScopeIndex)
	var st io.Provider = kit.NewStore()
	if i%4 == 1 {
		st = kit.NewMem()
	}
	ix := kit.NewIndex(kit.NewKeys(r), st, ids)
	m := words{}
	history := ""
	n := 200 + r.IntN(200)
	kinds := []int{1, 2, 5, 1000}[i%4]
	for j := 0; j < n; j++ {
		s := fmt.Sprint("id", r.IntN(kinds))
		must0(ix.Add(ctx, tok, "kw", s))
		m.add("kw", s)
		c.Count("additions", 1)
		if j%9 == 0 || j > 120 && j < 135 || j > 250 && j < 260 {
			c12Search(c, ix, tok, m, "kw", func() string { return fmt.Sprintf(" %d additions of %d kinds (%d)", j+1, kinds, i) })
		}
	}
	for len(m["kw"]) > 0 && !c.Full() {
		s := kit.Pick(r, m["kw"])
		switch r.IntN(3) {
		case 0:
			s = m["kw"][0]
		case 1:
			s = m["kw"][len(m["kw"])-1]
		}
		must0(ix.Delete(ctx, tok, "kw", s))
		m.del("kw", s)
		c.Count("deletions", 1)
		history += " -" + s
		if r.IntN(4) == 0 {
			a := fmt.Sprint("id", r.IntN(kinds))
			must0(ix.Add(ctx, tok, "kw", a))
			m.add("kw", a)
			history += " +" + a
		}
		if r.IntN(3) == 0 {
			if !c12Search(c, ix, tok, m, "kw", func() string { return fmt.Sprintf(" %d additions of %d kinds (%d) and %s", n, kinds, i, history) }) {
				return
			}
		}
	}
	c12Search(c, ix, tok, m, "kw", func() string { return " all was deleted" })
}

// c12VeryLong makes a chain of more than a thousand entries.
func c12VeryLong(c *kit.C, i int) {
	r := c.Rand("very long", i)
	ids := kit.NewIDs()
	tok := ids.User("u", id.ScopeIndex)
	ix := kit.NewIndex(kit.NewKeys(r), kit.NewStore(), ids)
	m := words{}
	for j := 0; j < 1100*(i+1); j++ {
		s := fmt.Sprint("id", j-r.IntN(2)*r.IntN(j+1))
		must0(ix.Add(ctx, tok, "kw", s))
		m.add("kw", s)
		c.Count("additions", 1)
		if j%100 == 99 {
			c12Search(c, ix, tok, m, "kw", func() string { return fmt.Sprintf(" %d additions (%d)", j+1, i) })
		}
	}
	for n := 0; n < 12 && !c.Full(); n++ {
		s := kit.Pick(r, m["kw"])
		if n < 4 {
			s = m["kw"][len(m["kw"])-1-n*20]
		}
		must0(ix.Delete(ctx, tok, "kw", s))
		m.del("kw", s)
		c.Count("deletions", 1)
		c12Search(c, ix, tok, m, "kw", func() string { return fmt.Sprintf(" %d additions and %d deletions (%d)", 1100*(i+1), n+1, i) })
	}
}

// c12Counter makes the counter of a keyword grow by adding and deleting in turn.
func c12Counter(c *kit.C, i int) {
	r := c.Rand("counter", i)
	ids := kit.NewIDs()
	tok := ids.User("u", id.ScopeIndex)
	st := kit.NewStore()
	tap := kit.NewTap(st)
	ix := kit.NewIndex(kit.NewKeys(r), tap, ids)
	m := words{}
	seen := map[string]bool{}
	keep := i + 1 // entries at the end
	want := 17000
	if i == 0 {
		want = 66000 // labels
	}
	for j := 0; j < keep; j++ {
		must0(ix.Add(ctx, tok, "kw", fmt.Sprint(j)))
		m.add("kw", fmt.Sprint(j))
	}
	for j := keep; len(seen) < want && j < 4*want && !c.Full(); j++ {
		must0(ix.Add(ctx, tok, "kw", fmt.Sprint(j)))
		m.add("kw", fmt.Sprint(j))
		first := m["kw"][0]
		must0(ix.Delete(ctx, tok, "kw", first))
		m.del("kw", first)
		c.Count("additions", 1)
		c.Count("deletions", 1)
		for _, e := range tap.Events() {
			seen[string(e.ID)] = true
		}
		tap.Reset()
		if !c12Search(c, ix, tok, m, "kw", func() string { return fmt.Sprintf(" %d additions and %d deletions of the oldest entry", j+1, j+1-keep) }) {
			return
		}
		if st.Len() != keep {
			c.Violate("leftovers", "%d records are stored for %d entries after %d rounds", st.Len(), keep, j)
			return
		}
	}
	c.Count("labels_of_one_keyword", int64(len(seen)))
	if len(seen) > 16384 {
		c.Count("counters_over_16384", 1)
	}
	if len(seen) > 65536 {
		c.Count("counters_over_65536", 1)
	}
}

// c12Invalid uses keywords and identifiers that are not valid UTF-8. A known finding is that
// identifiers are stored with each invalid byte replaced by U+FFFD.
func c12Invalid(c *kit.C, i int) {
	r := c.Rand("invalid", i)
	ids := kit.NewIDs()
	tok := ids.User("u", id.ScopeIndex)
	ix := kit.NewIndex(kit.NewKeys(r), kit.NewStore(), ids)
	some := []string{"\xff", "\xfe", "a\xff", "a\xffb", "\xc3", "\xc3\xa9", "\xed\xa0\x80", "\ufffd", "a\ufffd", "\xf0\x9f", "a", "", "\xff\xff"}
	m, lossy := words{}, words{}
	history := ""
	for s := 0; s < 30; s++ {
		kw, idt := kit.Pick(r, some), kit.Pick(r, some)
		if r.IntN(3) > 0 {
			history += fmt.Sprintf(" +%q%q", kw, idt)
			must0(ix.Add(ctx, tok, kw, idt))
			m.add(kw, idt)
			lossy.add(kw, replaced(idt))
		} else {
			history += fmt.Sprintf(" -%q%q", kw, idt)
			must0(ix.Delete(ctx, tok, kw, idt))
			m.del(kw, idt)
			lossy.del(kw, idt)
		}
		for _, kw := range some {
			got, err := ix.Search(ctx, tok, kw)
			c.Case(history, kw)
			switch {
			case err == nil && sameStrings(got, m[kw]):
			case err == nil && sameStrings(got, lossy[kw]):
				c.Violate("non-utf8-identifier-replaced", "after%s: Search(%q) returned %q instead of %q", history, kw, got, m[kw])
			default:
				c.Violate("search", "after%s: Search(%q) returned %q, %v; expected %q", history, kw, got, err, m[kw])
				return
			}
		}
	}
}
