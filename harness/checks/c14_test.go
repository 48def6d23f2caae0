package checks

import (
	"fmt"
	"math/rand/v2"
	"testing"

	"github.com/cybercryptio/d1-lib/v2/id"
	"github.com/cybercryptio/d1-lib/v2/index"

	"verif/harness/kit"
)

// C14: storage failures never corrupt the index or revive deleted entries.

func TestC14(t *testing.T) {
	kit.Run(t, "C14", "fault_enumeration", "An evaluation is one search result compared with the states allowed after a history with injected storage failures. Non-trivial: distinct (history, failing storage calls, kind of failure, retries).", func(c *kit.C) {
		c14Exhaustive(c, c.N(5, 6))
		c.Parallel("random", c.N(1500, 40000), func(i int) { prep(c, func() { c14Random(c, i) }) })
		c.Require("faults", 2000)
		c.Require("failed_operations", 1000)
		c.Require("retries", 500)
	})
}

type c14 struct {
	c    *kit.C
	tap  *kit.Tap
	xs   []*index.SecureIndex
	tok  string
	m    words
	kws  []string
	path string
	n    int
}

func newC14(c *kit.C, k kit.Keys, kws []string) *c14 {
	ids := kit.NewIDs()
	x := &c14{c: c, tap: kit.NewTap(kit.NewStore()), tok: ids.User("u", id.ScopeIndex), m: words{}, kws: kws}
	x.tap.Record = false
	x.xs = []*index.SecureIndex{kit.NewIndex(k, x.tap, ids), kit.NewIndex(k, x.tap, ids)}
	return x
}

func (x *c14) ix() *index.SecureIndex {
	x.n++
	return x.xs[x.n%2]
}

// subsequence tells whether a is b with some occurrences of one identifier removed.
func subsequence(a, b []string, removable string) bool {
	i := 0
	for _, s := range b {
		if i < len(a) && a[i] == s {
			// Taking the first match is right: skipping is only allowed for removable ones, and an equal one may stand for it.
			i++
		} else if s != removable {
			return false
		}
	}
	return i == len(a)
}

// check searches all keywords.
func (x *c14) check() bool {
	for _, kw := range x.kws {
		got, err := x.ix().Search(ctx, x.tok, kw)
		x.c.Case(x.path, kw)
		if err != nil {
			x.c.Violate("search-fails", "after%s: Search(%q) fails: %v; expected %q", x.path, kw, err, x.m[kw])
			return false
		}
		if !sameStrings(got, x.m[kw]) {
			x.c.Violate("search-wrong", "after%s: Search(%q) returned %q, expected %q", x.path, kw, got, x.m[kw])
			return false
		}
	}
	return true
}

// do runs an operation; fault tells the failing call or is negative. It returns whether the
// operation was acknowledged, whether the failing call was reached, and whether all is as it should be.
func (x *c14) do(del bool, kw, idt string, fault int, mode faultMode) (acked, hit, ok bool) {
	c := x.c
	name := fmt.Sprintf(" +%s:%s", kw, idt)
	if del {
		name = fmt.Sprintf(" -%s:%s", kw, idt)
	}
	ctx := ctx
	if fault >= 0 {
		failure := failureFor(fault, x.path)
		var cancel func()
		ctx, cancel = faultAt(ctx, x.tap, fault, mode, failure, &hit)
		defer cancel()
		name += fmt.Sprintf("(storage call %d %s, %q)", fault, mode.name, failure)
	}
	var err error
	if del {
		err = x.ix().Delete(ctx, x.tok, kw, idt)
	} else {
		err = x.ix().Add(ctx, x.tok, kw, idt)
	}
	noFaults(x.tap)
	x.path += name
	if hit {
		c.Count("faults", 1)
	}
	if err == nil {
		if del {
			x.m.del(kw, idt)
		} else {
			x.m.add(kw, idt)
		}
		return true, hit, x.check()
	}
	x.path += "=failed"
	if !hit {
		c.Violate("error", "after%s: it failed without any failure of storage: %v", x.path, err)
		return false, hit, false
	}
	c.Count("failed_operations", 1)
	got, err := x.ix().Search(kit.Ctx, x.tok, kw)
	c.Case(x.path, "?", kw)
	old := x.m[kw]
	switch {
	case err != nil:
		c.Violate("search-fails", "after%s: Search(%q) fails: %v", x.path, kw, err)
		return false, hit, false
	case del && !subsequence(got, old, idt):
		c.Violate("corrupted", "after%s: Search(%q) returned %q, which is not %q with some of %q removed", x.path, kw, got, old, idt)
		return false, hit, false
	case !del && !sameStrings(got, old) && !sameStrings(got, append(append([]string{}, old...), idt)):
		c.Violate("corrupted", "after%s: Search(%q) returned %q, which is neither %q nor that and %q", x.path, kw, got, old, idt)
		return false, hit, false
	}
	x.m[kw] = got
	return false, hit, x.check()
}

// c14Exhaustive makes every storage call of every operation of every short history fail, in all ways.
func c14Exhaustive(c *kit.C, n int) {
	k := kit.NewKeys(c.Rand("keys"))
	type op struct {
		del bool
		idt string
	}
	ops := []op{{false, "x"}, {false, "y"}, {true, "x"}, {true, "y"}}
	total := 1
	for i := 0; i < n; i++ {
		total *= len(ops)
	}
	c.Parallel("exhaustive", total, func(h int) {
		prep(c, func() {
			var seq []op
			for i, v := 0, h; i < n; i++ {
				seq = append(seq, ops[v%len(ops)])
				v /= len(ops)
			}
			if seq[0].del && seq[0].idt == "y" || !seq[0].del && seq[0].idt == "y" {
				return // the same with names exchanged
			}
			for at := range seq {
				for _, mode := range faultModes {
					for _, retry := range []bool{false, true} {
						for call := 0; ; call++ {
							x := newC14(c, k, []string{"kw"})
							reached := true
							for i, o := range seq {
								fault := -1
								if i == at {
									fault = call
								}
								acked, hit, ok := x.do(o.del, "kw", o.idt, fault, mode)
								if !ok {
									return
								}
								if i == at && !hit {
									reached = false
									break
								}
								if !acked && retry {
									c.Count("retries", 1)
									x.path += " retry:"
									if _, _, ok := x.do(o.del, "kw", o.idt, -1, mode); !ok {
										return
									}
								}
							}
							if !reached {
								break
							}
							if call > 500 {
								c.Violate("endless", "after%s: more than 500 storage calls", x.path)
								return
							}
						}
					}
				}
			}
		})
	})
}

// c14Random runs histories with many failures, also of searches.
func c14Random(c *kit.C, i int) {
	r := c.Rand("random", i)
	kws := []string{"a", "b"}[:1+r.IntN(2)]
	idents := []string{"x", "y", "z", "w"}[:1+r.IntN(4)]
	x := newC14(c, kit.NewKeys(r), kws)
	// Some histories fail mostly in one kind of storage call, so that the same weakness is met repeatedly.
	only := []string{"", "Get", "Put", "Update", "Delete", "Delete"}[r.IntN(6)]
	rate := 2 + r.IntN(8)
	for s := 0; s < 40; s++ {
		kw, idt := kit.Pick(r, kws), kit.Pick(r, idents)
		if r.IntN(8) == 0 {
			c14Search(x, r, kw)
			continue
		}
		del := r.IntN(5) < 2
		if r.IntN(rate) == 0 {
			// A random call fails; for one kind only, the n-th of the kind.
			n := r.IntN(2 + 2*len(x.m[kw]))
			mode := kit.Pick(r, faultModes)
			if only != "" {
				if !x.doKind(del, kw, idt, only, r.IntN(3), mode) {
					return
				}
				continue
			}
			acked, _, ok := x.do(del, kw, idt, n, mode)
			if !ok {
				return
			}
			for !acked && r.IntN(2) == 0 { // try again, perhaps with another failure
				c.Count("retries", 1)
				x.path += " retry:"
				n := -1
				if r.IntN(2) == 0 {
					n = r.IntN(2 + 2*len(x.m[kw]))
				}
				if acked, _, ok = x.do(del, kw, idt, n, mode); !ok {
					return
				}
			}
		} else if _, _, ok := x.do(del, kw, idt, -1, faultMode{}); !ok {
			return
		}
	}
}

// doKind makes the n-th call of a kind fail: it finds its number in a dry run on a copy of storage.
func (x *c14) doKind(del bool, kw, idt, kind string, n int, mode faultMode) bool {
	st := x.tap.Under.(*kit.Store)
	snap := st.Snapshot()
	at := -1
	x.tap.Reset()
	x.tap.Hook = func(e kit.Event) kit.Fault {
		if e.Op == kind {
			if n == 0 {
				at = e.N
			}
			n--
		}
		return kit.None
	}
	if del {
		x.xs[0].Delete(ctx, x.tok, kw, idt)
	} else {
		x.xs[0].Add(ctx, x.tok, kw, idt)
	}
	noFaults(x.tap)
	st.Restore(snap)
	_, _, ok := x.do(del, kw, idt, at, mode)
	return ok
}

func c14Search(x *c14, r *rand.Rand, kw string) {
	n := r.IntN(2 + len(x.m[kw]))
	mode := kit.Pick(r, faultModes)
	hit := false
	ctx, cancel := faultAt(ctx, x.tap, n, mode, failureFor(n, x.path), &hit)
	defer cancel()
	got, err := x.ix().Search(ctx, x.tok, kw)
	noFaults(x.tap)
	if hit {
		x.c.Count("faults", 1)
	}
	x.path += fmt.Sprintf(" ?%s(storage call %d %s)", kw, n, mode.name)
	x.c.Case(x.path)
	switch {
	case err == nil && !sameStrings(got, x.m[kw]):
		x.c.Violate("search-partial", "after%s: the search succeeded with %q instead of %q", x.path, got, x.m[kw])
	case err != nil && !hit:
		x.c.Violate("error", "after%s: it failed without any failure of storage: %v", x.path, err)
	case err != nil && len(got) > 0:
		x.c.Violate("search-partial", "after%s: the search failed with %v but returned %q", x.path, err, got)
	}
}
