package checks

import (
	"bytes"
	"fmt"
	"math/rand/v2"
	"strings"
	"testing"

	"github.com/cybercryptio/d1-lib/v2/id"
	"github.com/cybercryptio/d1-lib/v2/io"

	"verif/harness/kit"
	"verif/harness/ref"
)

// C13: the index hides keywords, identifiers and their relations from storage.

func TestC13(t *testing.T) {
	kit.Run(t, "C13", "exploration", "An evaluation is one record name or record compared with all others, or one pair of histories whose traces at storage are compared. Non-trivial: distinct record names and pairs of histories.", func(c *kit.C) {
		c.Guard("labels", func() { prep(c, func() { c13Labels(c) }) })
		c.Parallel("renamed", c.N(1600, 20000), func(i int) { prep(c, func() { c13Renamed(c, i) }) })
		c.Parallel("coinciding", c.N(1600, 20000), func(i int) { prep(c, func() { c13Coinciding(c, i) }) })
		c.Parallel("records", c.N(240, 2000), func(i int) { prep(c, func() { c13Records(c, i) }) })
		c.Require("labels", 5000)
		c.Require("pairs", 400)
		c.Require("records", 1000)
	})
}

// c13Labels collects the names used for many keys, keywords and positions.
func c13Labels(c *kit.C) {
	r := c.Rand("labels")
	base := kit.NewKeys(r)
	var keys []kit.Keys
	for n := 0; n < c.N(12, 60); n++ {
		k := base
		k.D1.IEK = bytes.Clone(base.D1.IEK)
		switch {
		case n == 0:
		case n < 6: // one bit
			k.D1.IEK[r.IntN(32)] ^= 1 << r.IntN(8)
		case n == 6:
			k.D1.IEK = make([]byte, 32)
		default:
			k.D1.IEK = kit.Key(r)
		}
		keys = append(keys, k)
	}
	m := map[string]bool{}
	for _, s := range kit.Strings {
		m[s] = true
	}
	for _, s := range []string{"label", "id", "ab", "a", "b", "abc", "bc", "c", strings.Repeat("a", 136), strings.Repeat("a", 135), strings.Repeat("a", 137), strings.Repeat("a", 1000)} {
		m[s] = true
	}
	for _, s := range kit.Twins {
		m[s] = true
	}
	for _, i := range []int{0, 1, 3, 12} {
		for _, s := range kit.Variants(kit.VariantBases[i]) {
			m[s] = true
		}
	}
	for _, n := range []int{5000, 70000} {
		s := strings.Repeat("a", n)
		m[s], m[s+"1"], m[s+"2"], m["1"+s] = true, true, true, true
	}
	for n := 0; n < c.N(20, 400); n++ {
		m[kit.Alnum(r, 1+r.IntN(200))] = true
	}
	kws := keysOf(m)
	const positions = 12
	type place struct{ key, kw, pos int }
	seen := make([]map[string]place, len(keys))
	var ones [256]int
	total := 0
	c.Parallel("labels", len(keys), func(ki int) {
		prep(c, func() {
			seen[ki] = map[string]place{}
			var second []string
			for round := 0; round < 2; round++ { // the same names from another instance, with other identifiers
				tap := kit.NewTap(kit.NewStore())
				ids := kit.NewIDs()
				tok := ids.User("u", id.ScopeIndex)
				ix := kit.NewIndex(keys[ki], tap, ids)
				for wi, kw := range kws {
					pos := 0
					for n := 0; n < positions; n++ {
						must0(ix.Add(ctx, tok, kw, fmt.Sprint("identifier", n*round)))
						for _, e := range tap.Events() {
							if e.Op != "Put" {
								continue
							}
							if len(e.ID) != 32 || e.Type != io.DataTypeSealedNode {
								c.Violate("label-form", "keyword %q: a record of type %d with name %x", kw, e.Type, e.ID)
							}
							if round == 1 {
								second = append(second, string(e.ID))
								continue
							}
							p := place{ki, wi, pos}
							pos++
							if q, ok := seen[ki][string(e.ID)]; ok {
								c.Violate("label-shared", "keyword %q position %d and keyword %q position %d under one key share the record name %x", kws[p.kw], p.pos, kws[q.kw], q.pos, e.ID)
							}
							seen[ki][string(e.ID)] = p
							c.Case(e.ID)
							c.Count("labels", 1)
						}
						tap.Reset()
					}
				}
			}
			for _, s := range second {
				if _, ok := seen[ki][s]; !ok {
					c.Violate("label-instance", "another instance with the same key used the record name %x for the same keywords and positions", s)
					break
				}
			}
			if len(second) != len(seen[ki]) {
				c.Violate("label-instance", "another instance with the same key used %d record names instead of %d for the same keywords and positions", len(second), len(seen[ki]))
			}
		})
	})
	all := map[string]place{}
	half := map[string]bool{}
	for ki := range keys {
		for l, p := range seen[ki] {
			if q, ok := all[l]; ok {
				c.Violate("label-shared", "different index keys share the record name %x (keywords %q and %q)", l, kws[p.kw], kws[q.kw])
			}
			all[l] = p
			for _, h := range []string{"f" + l[:min(8, len(l))], "b" + l[max(0, len(l)-8):]} {
				if half[h] {
					c.Violate("label-related", "two record names share 8 bytes: %x", l)
				}
				half[h] = true
			}
			// Nothing that can be computed without the key.
			if strings.Contains(l, kws[p.kw]) && len(kws[p.kw]) > 4 {
				c.Violate("label-keyword", "the record name %x contains the keyword %q", l, kws[p.kw])
			}
			total++
			for i := range ones {
				if len(l) == 32 && l[i/8]>>(i%8)&1 == 1 {
					ones[i]++
				}
			}
		}
	}
	for i, n := range ones { // 8 standard deviations and more
		if total > 2000 && (n < total*40/100 || n > total*60/100) {
			c.Violate("label-bias", "bit %d is set in %d of %d record names", i, n, total)
		}
	}
}

type c13Op struct {
	op       byte
	kw, idnt int
}

func c13Ops(r *rand.Rand, n, kws, idents int, del bool) []c13Op {
	ops := make([]c13Op, n)
	for i := range ops {
		o := byte('+')
		switch x := r.IntN(10); {
		case x < 2:
			o = '?'
		case x < 5 && del:
			o = '-'
		}
		ops[i] = c13Op{o, r.IntN(kws), r.IntN(idents)}
	}
	return ops
}

// c13Trace runs a history and returns what storage observes.
func c13Trace(r *rand.Rand, ops []c13Op, kws []string, ident func(i int, o c13Op) string) []string {
	tap := kit.NewTap(kit.NewStore())
	ids := kit.NewIDs()
	tok := ids.User("u", id.ScopeIndex)
	ix := kit.NewIndex(kit.NewKeys(r), tap, ids)
	for i, o := range ops {
		switch o.op {
		case '+':
			must0(ix.Add(ctx, tok, kws[o.kw], ident(i, o)))
		case '-':
			must0(ix.Delete(ctx, tok, kws[o.kw], ident(i, o)))
		case '?':
			must(ix.Search(ctx, tok, kws[o.kw]))
		}
	}
	names := map[string]int{}
	var out []string
	for _, e := range tap.Events() {
		n, ok := names[string(e.ID)]
		if !ok {
			n = len(names)
			names[string(e.ID)] = n
		}
		out = append(out, fmt.Sprintf("%s record %d (name of %d bytes) type %d: %d bytes, %v", e.Op, n, len(e.ID), e.Type, len(e.Data), e.Err))
	}
	return out
}

func c13Same(c *kit.C, what string, ops []c13Op, a, b []string, describe string) {
	c.Case(what, ops, describe)
	c.Count("pairs", 1)
	c.Count("observed_calls", int64(len(a)+len(b)))
	for i := 0; i < max(len(a), len(b)); i++ {
		if i >= len(a) || i >= len(b) || a[i] != b[i] {
			x, y := "nothing", "nothing"
			if i < len(a) {
				x = a[i]
			}
			if i < len(b) {
				y = b[i]
			}
			c.Violate(what, "two histories %v that differ in %s are told apart at storage call %d: %s, against %s", ops, describe, i, x, y)
			return
		}
	}
}

// c13Distinct returns distinct alphanumeric strings of the given lengths.
func c13Distinct(r *rand.Rand, lengths []int) []string {
	m := map[string]bool{}
	var out []string
	for _, l := range lengths {
		for {
			s := kit.Alnum(r, l)
			if !m[s] {
				m[s] = true
				out = append(out, s)
				break
			}
		}
	}
	return out
}

// c13Renamed compares histories that are the same up to consistent renaming.
func c13Renamed(c *kit.C, i int) {
	r := c.Rand("renamed", i)
	nk, ni := 1+r.IntN(4), 1+r.IntN(4)
	n := 4 + r.IntN(40)
	if i%50 == 0 {
		n, nk = 300, 1
	}
	ops := c13Ops(r, n, nk, ni, true)
	lengths := make([]int, ni)
	for j := range lengths {
		lengths[j] = 3 + r.IntN(3)*r.IntN(60)
	}
	if r.IntN(3) == 0 {
		lengths[0] = 2000
	}
	kws := func() []string {
		m := map[string]bool{}
		for len(m) < nk {
			m[kit.String(r)] = true
		}
		out := keysOf(m)
		r.Shuffle(len(out), func(a, b int) { out[a], out[b] = out[b], out[a] })
		return out
	}
	ka, kb, ia, ib := kws(), kws(), c13Distinct(r, lengths), c13Distinct(r, lengths)
	a := c13Trace(r, ops, ka, func(_ int, o c13Op) string { return ia[o.idnt] })
	b := c13Trace(r, ops, kb, func(_ int, o c13Op) string { return ib[o.idnt] })
	c13Same(c, "trace-renamed", ops, a, b, fmt.Sprintf("keywords %q against %q, identifiers %.200q against %.200q", ka, kb, ia, ib))
}

// c13Coinciding compares histories of additions and searches in which different identifiers coincide.
func c13Coinciding(c *kit.C, i int) {
	r := c.Rand("coinciding", i)
	nk := 1 + r.IntN(4)
	n := 4 + r.IntN(40)
	if i%50 == 0 {
		n, nk = 200, 1
	}
	ops := c13Ops(r, n, nk, 1, false)
	length := 3 + r.IntN(20)
	kws := c12Confusable(r, nk)
	fixed := kit.Alnum(r, length)
	pool := []string{kit.Alnum(r, length), kit.Alnum(r, length), kit.Alnum(r, length)}
	fresh := c13Distinct(r, make2(len(ops), length))
	a := c13Trace(r, ops, kws, func(int, c13Op) string { return fixed })
	b := c13Trace(r, ops, kws, func(int, c13Op) string { return kit.Pick(r, pool) })
	d := c13Trace(r, ops, kws, func(i int, _ c13Op) string { return fresh[i] })
	c13Same(c, "trace-coinciding", ops, a, b, "which identifiers coincide: all, against some")
	c13Same(c, "trace-coinciding", ops, a, d, "which identifiers coincide: all, against none")
}

func make2(n, v int) []int {
	out := make([]int, n)
	for i := range out {
		out[i] = v
	}
	return out
}

// c13Records compares the contents of records of equal identifiers.
func c13Records(c *kit.C, i int) {
	r := c.Rand("records", i)
	tap := kit.NewTap(kit.NewStore())
	ids := kit.NewIDs()
	tok := ids.User("u", id.ScopeIndex)
	ix := kit.NewIndex(kit.NewKeys(r), tap, ids)
	ident := kit.Alnum(r, 8+r.IntN(60))
	for n := 0; n < 30; n++ {
		kw := fmt.Sprint("kw", r.IntN(3))
		must0(ix.Add(ctx, tok, kw, ident))
		if r.IntN(5) == 0 {
			must0(ix.Add(ctx, tok, kw, "other"))
			must0(ix.Add(ctx, tok, kw, ident))
			must0(ix.Delete(ctx, tok, kw, "other")) // seals the moved node again
		}
	}
	seen := map[string]int{}
	for n, e := range tap.Events() {
		if e.Op != "Put" && e.Op != "Update" {
			continue
		}
		c.Case(e.Data)
		c.Count("records", 1)
		var rec ref.NodeRecord
		if err := ref.Parse(e.Data, &rec); err != nil {
			c.Violate("format", "%v: %v", e, err)
			continue
		}
		for _, b := range [][]byte{rec.Ciphertext, rec.WrappedKey} {
			for j := 0; j+8 <= len(b); j++ {
				w := string(b[j : j+8])
				if m, ok := seen[w]; ok && m != n {
					c.Violate("records-related", "the records of storage calls %d and %d share the bytes %x", m, n, w)
					return
				}
				seen[w] = n
			}
		}
	}
}
