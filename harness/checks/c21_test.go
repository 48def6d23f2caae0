package checks

import (
	"context"
	"errors"
	"fmt"
	"math/rand/v2"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/gofrs/uuid"

	d1 "github.com/cybercryptio/d1-lib/v2"
	"github.com/cybercryptio/d1-lib/v2/id"
	"github.com/cybercryptio/d1-lib/v2/index"
	"github.com/cybercryptio/d1-lib/v2/io"

	"verif/harness/kit"
)

// C21: concurrent calls on the same target act as if one after the other.
//
// A scheduler at the IO Provider decides the order of all storage calls of two or three operations.
// For each order the results and what is there afterwards are compared with the results of all
// sequential orders.
func TestC21(t *testing.T) {
	kit.Run(t, "C21", "exploration", "An evaluation is one interleaving of the storage calls of concurrent operations on one target, whose results and final state are compared with all sequential orders. Non-trivial: distinct (initial state, operations, order of storage calls).", func(c *kit.C) {
		k := kit.NewKeys(c.Rand("keys"))
		c21Objects(c, k)
		c21Index(c, k)
		c21Users(c, k)
		c.Parallel("storm", c.N(12, 200), func(i int) { prep(c, func() { c21Storm(c, i) }) })
		c.Require("interleavings", 3000)
		c.Require("storm_calls", 5000)
	})
}

// op21 is an operation. step gives the state after it if it was acknowledged with the result, and
// whether the result is possible then.
type op21 struct {
	name    string
	run     func(ctx context.Context) (res string, err error)
	step    func(s, res string) (string, bool)
	keyword string
	// A call that returned an error may have taken effect as step says for an empty result.
	readOnly bool
}

type done21 struct {
	op  *op21
	res string
	err error
}

// case21 is a target with its operations.
type case21 struct {
	name string
	// ops makes the target anew on the provider; the operations use provider(i) for the i-th one.
	// observe returns the state afterwards, or what is wrong with it.
	setup func(st io.Provider, provider func(i int) io.Provider) (initial string, ops []op21, observe func() (state, problem string))
}

// explain looks for an order of the operations that explains all results and the final state.
func explain(initial, final string, ops []done21, checkReads bool) bool {
	var try func(s string, left []done21) bool
	try = func(s string, left []done21) bool {
		if len(left) == 0 {
			return s == final
		}
		for i, o := range left {
			rest := append(append([]done21{}, left[:i]...), left[i+1:]...)
			if o.err != nil {
				if try(s, rest) { // no effect
					return true
				}
				if !o.op.readOnly {
					if n, ok := o.op.step(s, ""); ok && try(n, rest) {
						return true
					}
				}
				continue
			}
			if o.op.readOnly && !checkReads {
				if try(s, rest) {
					return true
				}
				continue
			}
			if n, ok := o.op.step(s, o.res); ok && try(n, rest) {
				return true
			}
		}
		return false
	}
	return try(initial, ops)
}

// classify says what kind of anomaly it is. For changes that left no trace it gives the smallest sets of
// acknowledged operations without which everything can be explained.
func classify(initial, final string, ops []done21) (kind string, lost [][]int) {
	if explain(initial, final, ops, false) {
		return "read", nil
	}
	for size := 1; size <= len(ops) && len(lost) == 0; size++ {
		for m := 0; m < 1<<len(ops); m++ {
			var gone []int
			var rest []done21
			for i, o := range ops {
				switch {
				case m>>i&1 == 0:
					rest = append(rest, o)
				case o.err == nil && !o.op.readOnly:
					gone = append(gone, i)
				default:
					gone = nil
				}
			}
			if len(gone) == size && len(gone)+len(rest) == len(ops) && explain(initial, final, rest, false) {
				lost = append(lost, gone)
			}
		}
	}
	if len(lost) > 0 {
		return "lost", lost
	}
	return "unexplained", nil
}

// mechanism tells whether an anomaly comes about in one of the known ways.
//
// Objects and users: an operation writes (or deletes) a record that it read before another operation
// changed it, so that change is undone, or was made or judged on outdated contents.
//
// Index: a deletion runs at the same time as another operation on the same keyword.
func mechanism(group string, sched *kit.Sched, ops []done21, problem string, lost [][]int) string {
	stale := sched.Stale()
	switch {
	case group == "index":
	case problem == "undecryptable":
		for overwritten, by := range stale {
			for _, o := range append([]int{overwritten}, by...) {
				if strings.HasPrefix(ops[o].op.name, "Update") {
					return "stale-write"
				}
			}
		}
	case problem == "":
	sets:
		for _, set := range lost {
			for _, i := range set {
				if _, ok := stale[i]; !ok {
					continue sets
				}
			}
			return "stale-write"
		}
	}
	first, last := map[int]int{}, map[int]int{}
	for i, call := range sched.Log {
		if _, ok := first[call.Op]; !ok {
			first[call.Op] = i
		}
		last[call.Op] = i
	}
	for i, a := range ops {
		for j, b := range ops {
			if i != j && strings.HasPrefix(a.op.name, "Delete") && a.op.keyword != "" && a.op.keyword == b.op.keyword && first[i] <= last[j] && first[j] <= last[i] {
				return "overlapping-delete"
			}
		}
	}
	return ""
}

// exec runs one interleaving. decide picks among the waiting operations.
func (x *case21) exec(c *kit.C, pick []int, sameInstance bool, conflict *atomic.Bool, decide func(waiting []int, step int) int) (trace string, ok bool) {
	st := kit.NewStore()
	sched := kit.NewSched(st)
	provider := func(i int) io.Provider { return sched.View(i) }
	if sameInstance {
		provider = func(int) io.Provider { return sched }
	}
	var initial string
	var all []op21
	var observe func() (string, string)
	initial, all, observe = x.setup(st, provider)
	results := make([]done21, len(pick))
	var fs []func(context.Context)
	panicked := false
	for i, p := range pick {
		results[i].op = &all[p]
		results[i].err = errors.New("it did not return")
		fs = append(fs, func(ctx context.Context) {
			if c.Guard("concurrent", func() { results[i].res, results[i].err = all[p].run(ctx) }) {
				panicked = true
			}
		})
	}
	step := 0
	if !sched.Run(fs, func(waiting []int, _ int) int {
		step++
		return decide(waiting, step-1)
	}) {
		c.Violate("deadlock", "%s: %s does not end: storage calls %v", x.name, names21(all, pick), sched.Calls)
		return "", false
	}
	trace = string(sched.Trace)
	if panicked {
		return trace, false
	}
	c.Count("interleavings", 1)
	c.Case(x.name, names21(all, pick), sameInstance, trace)
	final, problem := observe()
	describe := func() string {
		var s strings.Builder
		fmt.Fprintf(&s, "%s, initially %s; concurrently", x.name, initial)
		for i, r := range results {
			fmt.Fprintf(&s, "; %c: %s = %q, %v", 'a'+i, r.op.name, r.res, r.err)
		}
		fmt.Fprintf(&s, "; storage calls in this order: %s; afterwards: %s %s", strings.Join(sched.Calls, " "), final, problem)
		return s.String()
	}
	kind, lost := "", [][]int(nil)
	switch {
	case strings.HasPrefix(problem, "never"):
		c.Violate(problem, "%s", describe()) // this is never excused
		return trace, true
	case problem != "":
		kind = problem
	case !explain(initial, final, results, true):
		kind, lost = classify(initial, final, results)
	}
	for _, r := range results {
		if strings.Contains(r.res, "never") {
			c.Violate("never-written", "%s", describe())
		}
	}
	if kind != "" {
		c.Count("unexplained", 1)
		sig := x.group() + ":" + names21(all, pick) + ":" + kind
		if m := mechanism(x.group(), sched, results, problem, lost); m != "" {
			sig = x.group() + ":" + m + ":" + kind
			conflict.Store(true)
		}
		c.Violate(sig, "no sequential order explains this: %s", describe())
	}
	return trace, true
}

// group is the kind of target, without the initial state.
func (x *case21) group() string {
	g, _, _ := strings.Cut(x.name, " ")
	return g
}

func names21(all []op21, pick []int) string {
	var n []string
	for _, p := range pick {
		n = append(n, all[p].name)
	}
	sort.Strings(n)
	return strings.Join(n, "|")
}

// explore runs the interleavings of the picked operations: all of them if there are at most limit,
// otherwise that many at random.
func (x *case21) explore(c *kit.C, pick []int, limit int, conflict *atomic.Bool, r *rand.Rand) {
	// Depth first: the choices of the last run are changed from the end.
	var path, width []int
	for n := 0; n < limit; n++ {
		depth := 0
		_, ok := x.exec(c, pick, n%2 == 0, conflict, func(waiting []int, step int) int {
			depth++
			if step < len(path) {
				return waiting[min(path[step], len(waiting)-1)]
			}
			path, width = append(path, 0), append(width, len(waiting))
			return waiting[0]
		})
		if !ok || c.Full() {
			return
		}
		path, width = path[:min(depth, len(path))], width[:min(depth, len(width))]
		i := len(path) - 1
		for ; i >= 0 && path[i]+1 >= width[i]; i-- {
		}
		if i < 0 {
			c.Count("combinations_explored_completely", 1)
			return
		}
		path, width = path[:i+1], width[:i+1]
		path[i]++
	}
	c.Count("combinations_sampled", 1)
	for n := 0; n < limit; n++ {
		last := 0
		swap := 1 + r.IntN(6)
		if _, ok := x.exec(c, pick, n%2 == 0, conflict, func(waiting []int, step int) int {
			if r.IntN(swap) == 0 {
				last = r.IntN(len(waiting))
			}
			return waiting[min(last, len(waiting)-1)]
		}); !ok || c.Full() {
			return
		}
	}
}

// combos runs all pairs, then triples of operations no two of which were found to conflict in a known way.
func combos(c *kit.C, cases []case21, pairLimit, tripleLimit, triples int) {
	type job struct {
		x        *case21
		pick     []int
		lim      int
		conflict atomic.Bool
	}
	run := func(what string, jobs []*job) {
		c.Parallel(what, len(jobs), func(i int) {
			j := jobs[i]
			prep(c, func() { j.x.explore(c, j.pick, j.lim, &j.conflict, c.Rand("explore", j.x.name, fmt.Sprint(j.pick))) })
		})
	}
	type pair struct {
		group string
		a, b  int
	}
	conflicting := map[pair]bool{}
	var jobs []*job
	for i := range cases {
		x := &cases[i]
		st := kit.NewStore()
		_, all, _ := x.setup(st, func(int) io.Provider { return st })
		for a := range all {
			for b := a; b < len(all); b++ {
				if !all[a].readOnly || !all[b].readOnly {
					jobs = append(jobs, &job{x: x, pick: []int{a, b}, lim: pairLimit})
				}
			}
		}
	}
	run("pairs", jobs)
	for _, j := range jobs {
		if j.conflict.Load() {
			conflicting[pair{j.x.group(), j.pick[0], j.pick[1]}] = true
		}
	}
	jobs = nil
	for i := range cases {
		x := &cases[i]
		st := kit.NewStore()
		_, all, _ := x.setup(st, func(int) io.Provider { return st })
		clean := func(a, b int) bool { return !conflicting[pair{x.group(), a, b}] }
		var trips []*job
		for a := range all {
			for b := a; b < len(all); b++ {
				for d := b; d < len(all); d++ {
					if clean(a, b) && clean(a, d) && clean(b, d) && !(all[b].readOnly && all[d].readOnly) {
						trips = append(trips, &job{x: x, pick: []int{a, b, d}, lim: tripleLimit})
					}
				}
			}
		}
		r := c.Rand("triples", x.name)
		r.Shuffle(len(trips), func(i, j int) { trips[i], trips[j] = trips[j], trips[i] })
		jobs = append(jobs, trips[:min(triples, len(trips))]...)
	}
	c.Count("triples", int64(len(jobs)))
	run("triples", jobs)
}

// Objects: the state is "absent" or the content and the access list.

func objState(content string, list map[string]struct{}) string {
	return content + " for " + strings.Join(keysOf(list), ",")
}

func splitState(s string) (content string, list map[string]struct{}, exists bool) {
	if s == "absent" {
		return "", map[string]struct{}{}, false
	}
	content, l, _ := strings.Cut(s, " for ")
	return content, set(strings.Split(l, ",")...), true
}

func c21Objects(c *kit.C, k kit.Keys) {
	var cases []case21
	for _, history := range []string{"new", "used", "deleted"} {
		cases = append(cases, case21{name: "object " + history, setup: func(st io.Provider, provider func(int) io.Provider) (string, []op21, func() (string, string)) {
			ids := kit.NewIDs()
			owner, root := ids.User("owner", id.ScopeAll), ids.User("root", id.ScopeAll)
			leaving := ids.User("leaving", id.ScopeAll)
			joining := ids.User("joiner", id.ScopeAll, id.AccessGroup{ID: "joining", Scopes: id.ScopeAll})
			outsider := ids.User("outsider", id.ScopeAll)
			raw := kit.NewD1(k, st, ids)
			oid := must(raw.Encrypt(ctx, owner, obj([]byte("first"), []byte("first ad")), "root", "leaving"))
			initial := objState("first", set("owner", "root", "leaving"))
			switch history {
			case "used":
				must0(raw.Update(ctx, owner, oid, obj([]byte("second"), []byte("second ad"))))
				must0(raw.AddGroupsToAccess(ctx, owner, oid, "third"))
				initial = objState("second", set("owner", "root", "leaving", "third"))
			case "deleted":
				must0(raw.Delete(ctx, owner, oid))
				initial = "absent"
			}
			var ds [3]*d1.D1
			for i := range ds {
				if i > 0 && provider(i) == provider(0) {
					ds[i] = ds[0]
				} else {
					ds[i] = kit.NewD1(k, provider(i), ids)
				}
			}
			written := map[string]string{"first": "first ad", "second": "second ad", "upd1": "upd1 ad", "upd2": "upd2 ad", "upd by leaving": "upd by leaving ad", "upd by joining": "upd by joining ad"}
			// Instances are handed out in the order of the operations of a run.
			inst := func(ctx context.Context) *d1.D1 { return ds[kit.OpOf(ctx)] }
			update := func(name, tok, content, who string) op21 {
				return op21{name: name, run: func(ctx context.Context) (string, error) {
					return "", inst(ctx).Update(ctx, tok, oid, obj([]byte(content), []byte(content+" ad")))
				}, step: func(s, _ string) (string, bool) {
					_, list, ok := splitState(s)
					if !ok {
						return "", false
					}
					if _, in := list[who]; !in {
						return "", false
					}
					return objState(content, list), true
				}}
			}
			change := func(name, tok, who string, add bool, gs ...string) op21 {
				return op21{name: name, run: func(ctx context.Context) (string, error) {
					if add {
						return "", inst(ctx).AddGroupsToAccess(ctx, tok, oid, gs...)
					}
					return "", inst(ctx).RemoveGroupsFromAccess(ctx, tok, oid, gs...)
				}, step: func(s, _ string) (string, bool) {
					content, list, ok := splitState(s)
					if !ok {
						return "", false
					}
					if _, in := list[who]; !in {
						return "", false
					}
					for _, g := range gs {
						if add {
							list[g] = struct{}{}
						} else {
							delete(list, g)
						}
					}
					return objState(content, list), true
				}}
			}
			show := func(p, ad []byte) string {
				if written[string(p)] != string(ad) || len(ad) == 0 {
					return fmt.Sprintf("never written together: %q, %q", p, ad)
				}
				return string(p)
			}
			decrypt := func(name, tok, who string) op21 {
				return op21{name: name, readOnly: true, run: func(ctx context.Context) (string, error) {
					o, err := inst(ctx).Decrypt(ctx, tok, oid)
					if err != nil {
						return "", err
					}
					return show(o.Plaintext, o.AssociatedData), nil
				}, step: func(s, res string) (string, bool) {
					content, list, ok := splitState(s)
					_, in := list[who]
					return s, ok && in && content == res
				}}
			}
			ops := []op21{
				update("Update", owner, "upd1", "owner"),
				update("Update", owner, "upd2", "owner"),
				update("UpdateByLeaving", leaving, "upd by leaving", "leaving"),
				update("UpdateByJoining", joining, "upd by joining", "joining"),
				change("Add", owner, "owner", true, "joining", "x"),
				change("Add", owner, "owner", true, "y"),
				change("AddByLeaving", leaving, "leaving", true, "z"),
				change("Remove", owner, "owner", false, "leaving"),
				change("Remove", owner, "owner", false, "third", "x"),
				{name: "Delete", run: func(ctx context.Context) (string, error) { return "", inst(ctx).Delete(ctx, owner, oid) },
					step: func(s, _ string) (string, bool) { return "absent", true }},
				{name: "DeleteByLeaving", run: func(ctx context.Context) (string, error) { return "", inst(ctx).Delete(ctx, leaving, oid) },
					step: func(s, _ string) (string, bool) {
						_, list, ok := splitState(s)
						_, in := list["leaving"]
						return "absent", !ok || in
					}},
				decrypt("Decrypt", owner, "owner"),
				decrypt("DecryptByLeaving", leaving, "leaving"),
				decrypt("DecryptByJoining", joining, "joining"),
				{name: "DecryptByOutsider", readOnly: true, run: func(ctx context.Context) (string, error) {
					o, err := inst(ctx).Decrypt(ctx, outsider, oid)
					if err == nil {
						return "never granted: " + string(o.Plaintext), nil
					}
					return "", err
				}, step: func(s, _ string) (string, bool) { return s, false }},
				{name: "GetAccessGroups", readOnly: true, run: func(ctx context.Context) (string, error) {
					g, err := inst(ctx).GetAccessGroups(ctx, root, oid)
					return strings.Join(keysOf(g), ","), err
				}, step: func(s, res string) (string, bool) {
					_, list, ok := splitState(s)
					return s, ok && strings.Join(keysOf(list), ",") == res
				}},
				{name: "AuthorizeLeaving", readOnly: true, run: func(ctx context.Context) (string, error) {
					return "", inst(ctx).AuthorizeIdentity(ctx, leaving, oid)
				}, step: func(s, _ string) (string, bool) {
					_, list, _ := splitState(s)
					_, in := list["leaving"]
					return s, in
				}},
			}
			observe := func() (string, string) {
				g, gerr := raw.GetAccessGroups(ctx, root, oid)
				o, err := raw.Decrypt(ctx, root, oid)
				toks := map[string]string{"owner": owner, "root": root, "leaving": leaving, "joining": joining, "outsider": outsider}
				for who, tok := range toks {
					_, in := g[who]
					if o, err := raw.Decrypt(ctx, tok, oid); err == nil && !in {
						return fmt.Sprint(keysOf(g)), fmt.Sprintf("never-granted: %s has access to %s", who, gotObj(o))
					}
				}
				switch {
				case gerr != nil && err == nil:
					return "", "never-consistent"
				case gerr != nil && !errors.Is(gerr, d1.ErrAccessNotFound):
					return gerr.Error(), "access-list-broken"
				case gerr != nil:
					for k := range st.(*kit.Store).Snapshot() {
						if strings.Contains(k, fmt.Sprintf("%x", oid.Bytes())) {
							return k, "remains"
						}
					}
					return "absent", ""
				case errors.Is(err, d1.ErrObjectNotFound):
					return fmt.Sprint(keysOf(g)), "half-deleted"
				case err != nil:
					return fmt.Sprintf("%v: %v", keysOf(g), err), "undecryptable"
				}
				content := show(o.Plaintext, o.AssociatedData)
				if strings.HasPrefix(content, "never") {
					return content, "never-written"
				}
				return objState(content, g), ""
			}
			return initial, ops, observe
		}})
	}
	combos(c, cases, 300, c.N(120, 2000), c.N(150, 2000))
}

// The index: the state is the list of identifiers of the keyword, and of a second one.

func c21Index(c *kit.C, k kit.Keys) {
	var cases []case21
	for _, history := range []string{"", "+x", "+x+y", "+x+y+x", "+x+y+z-x", "+x+x+y-y", "+y+x+z-x+x"} {
		cases = append(cases, case21{name: "index after " + history, setup: func(st io.Provider, provider func(int) io.Provider) (string, []op21, func() (string, string)) {
			ids := kit.NewIDs()
			tok := ids.User("u", id.ScopeIndex)
			raw := kit.NewIndex(k, st, ids)
			m := words{}
			must0(raw.Add(ctx, tok, "other", "o"))
			m.add("other", "o")
			for i := 0; i < len(history); i += 2 {
				idt := history[i+1 : i+2]
				if history[i] == '+' {
					must0(raw.Add(ctx, tok, "kw", idt))
					m.add("kw", idt)
				} else {
					must0(raw.Delete(ctx, tok, "kw", idt))
					m.del("kw", idt)
				}
			}
			str := func(m words) string { return strings.Join(m["kw"], ",") + ";" + strings.Join(m["other"], ",") }
			parse := func(s string) words {
				m := words{}
				a, b, _ := strings.Cut(s, ";")
				for kw, l := range map[string]string{"kw": a, "other": b} {
					if l != "" {
						m[kw] = strings.Split(l, ",")
					}
				}
				return m
			}
			var xs [3]*index.SecureIndex
			for i := range xs {
				if i > 0 && provider(i) == provider(0) {
					xs[i] = xs[0]
				} else {
					xs[i] = kit.NewIndex(k, provider(i), ids)
				}
			}
			inst := func(ctx context.Context) *index.SecureIndex { return xs[kit.OpOf(ctx)] }
			add := func(kw, idt string) op21 {
				name := "Add"
				if kw == "other" {
					name = "AddElsewhere"
				}
				return op21{name: name, keyword: kw, run: func(ctx context.Context) (string, error) { return "", inst(ctx).Add(ctx, tok, kw, idt) },
					step: func(s, _ string) (string, bool) {
						m := parse(s)
						m.add(kw, idt)
						return str(m), true
					}}
			}
			del := func(kw, idt string) op21 {
				name := "Delete"
				if kw == "other" {
					name = "DeleteElsewhere"
				}
				return op21{name: name, keyword: kw, run: func(ctx context.Context) (string, error) { return "", inst(ctx).Delete(ctx, tok, kw, idt) },
					step: func(s, _ string) (string, bool) {
						m := parse(s)
						m.del(kw, idt)
						return str(m), true
					}}
			}
			known := set("o", "x", "y", "z", "n", "n2", "p", "after")
			search := func(kw string) op21 {
				name := "Search"
				if kw == "other" {
					name = "SearchElsewhere"
				}
				return op21{name: name, keyword: kw, readOnly: true, run: func(ctx context.Context) (string, error) {
					got, err := inst(ctx).Search(ctx, tok, kw)
					for _, g := range got {
						if _, ok := known[g]; !ok || (kw == "kw") == (g == "o" || g == "p") {
							return fmt.Sprintf("never added: %q", g), nil
						}
					}
					return strings.Join(got, ","), err
				}, step: func(s, res string) (string, bool) { return s, strings.Join(parse(s)[kw], ",") == res }}
			}
			ops := []op21{add("kw", "n"), add("kw", "n2"), add("kw", "x"), del("kw", "x"), del("kw", "y"), search("kw"), add("other", "p"), del("other", "o"), search("other")}
			observe := func() (string, string) {
				got := words{}
				for _, kw := range []string{"kw", "other"} {
					l, err := raw.Search(ctx, tok, kw)
					if err != nil {
						return err.Error(), "unusable"
					}
					for _, g := range l {
						if _, ok := known[g]; !ok || (kw == "kw") == (g == "o" || g == "p") {
							return fmt.Sprint(l), "never-added"
						}
					}
					got[kw] = l
				}
				final := str(got)
				// More calls, one after the other, must act on that state.
				for _, s := range []op21{add("kw", "after"), del("kw", "after"), add("kw", "n"), add("kw", "x"), del("kw", "x")} {
					if _, err := s.run(ctxNoOp(raw, &xs)); err != nil {
						return final, "unusable"
					}
					want, _ := s.step(str(got), "")
					l, err := raw.Search(ctx, tok, "kw")
					if err != nil {
						return final, "unusable"
					}
					got["kw"] = l
					if str(got) != want {
						return final + "; later " + str(got) + " instead of " + want, "later-wrong"
					}
				}
				return final, ""
			}
			return str(m), ops, observe
		}})
	}
	combos(c, cases, c.N(300, 20000), c.N(100, 2000), c.N(40, 400))
}

// ctxNoOp makes the operations' functions work outside a schedule: they use the raw instance.
func ctxNoOp(raw *index.SecureIndex, xs *[3]*index.SecureIndex) context.Context {
	for i := range xs {
		xs[i] = raw
	}
	return ctx
}

// Users: the state is whether the user exists, the current password, the groups.

func c21Users(c *kit.C, k kit.Keys) {
	// The initial storage is made once, since that takes most of the time.
	base := kit.NewStore()
	first0 := kit.NewStandalone(k, base)
	manager, mp := must2(first0.NewUser(ctx, id.ScopeAll))
	mtok, _ := must2(first0.LoginUser(ctx, manager, mp))
	gname := map[string]string{}
	var gids []string
	for i := 1; i <= 3; i++ {
		g := must(first0.NewGroup(ctx, mtok, id.ScopeDecrypt))
		gname[g] = fmt.Sprint("g", i)
		gids = append(gids, g)
	}
	uid, first := must2(first0.NewUser(ctx, id.ScopeAll))
	utok, _ := must2(first0.LoginUser(ctx, uid, first))
	must0(first0.AddUserToGroups(ctx, mtok, uid, gids[1]))
	initial := base.Snapshot()
	cases := []case21{{name: "user", setup: func(st io.Provider, provider func(int) io.Provider) (string, []op21, func() (string, string)) {
		st.(*kit.Store).Restore(initial)
		raw := kit.NewStandalone(k, st)
		var ss [3]*id.Standalone
		for i := range ss {
			if i > 0 && provider(i) == provider(0) {
				ss[i] = ss[0]
			} else {
				ss[i] = kit.NewStandalone(k, provider(i))
			}
		}
		inst := func(ctx context.Context) *id.Standalone { return ss[kit.OpOf(ctx)] }
		str := func(pw string, groups map[string]struct{}) string { return objState(pw, groups) }
		var mu sync.Mutex
		var changed []string // passwords returned
		change := func(name string) op21 {
			return op21{name: name, run: func(ctx context.Context) (string, error) {
				p, err := inst(ctx).ChangeUserPassword(ctx, uid, first)
				if err == nil {
					mu.Lock()
					changed = append(changed, p)
					mu.Unlock()
				}
				return p, err
			}, step: func(s, res string) (string, bool) {
				pw, groups, ok := splitState(s)
				if res == "" {
					return "", false // a failed change has no password to log in with
				}
				return str(res, groups), ok && pw == first
			}}
		}
		member := func(name string, add bool, gs ...int) op21 {
			var list []string
			for _, g := range gs {
				list = append(list, gids[g])
			}
			return op21{name: name, run: func(ctx context.Context) (string, error) {
				if add {
					return "", inst(ctx).AddUserToGroups(ctx, mtok, uid, list...)
				}
				return "", inst(ctx).RemoveUserFromGroups(ctx, mtok, uid, list...)
			}, step: func(s, _ string) (string, bool) {
				pw, groups, ok := splitState(s)
				delete(groups, "")
				for _, g := range list {
					if add {
						groups[gname[g]] = struct{}{}
					} else {
						delete(groups, gname[g])
					}
				}
				return str(pw, groups), ok
			}}
		}
		named := func(m map[string]id.AccessGroup) map[string]struct{} {
			out := map[string]struct{}{}
			for g := range m {
				n := gname[g]
				if n == "" {
					n = "own:" + g
				}
				out[n] = struct{}{}
			}
			return out
		}
		ops := []op21{
			change("ChangePassword"), member("AddToGroups", true, 0), member("AddToGroups", true, 2), member("RemoveFromGroups", false, 1),
			member("RemoveFromGroups", false, 0, 1),
			{name: "NewGroup", run: func(ctx context.Context) (string, error) { return inst(ctx).NewGroup(ctx, utok, id.ScopeEncrypt) },
				step: func(s, res string) (string, bool) {
					pw, groups, ok := splitState(s)
					if res == "" {
						return "", false
					}
					delete(groups, "")
					groups["own:"+res] = struct{}{}
					return str(pw, groups), ok
				}},
			{name: "DeleteUser", run: func(ctx context.Context) (string, error) { return "", inst(ctx).DeleteUser(ctx, mtok, uid) },
				step: func(string, string) (string, bool) { return "absent", true }},
			{name: "Login", readOnly: true, run: func(ctx context.Context) (string, error) {
				_, _, err := inst(ctx).LoginUser(ctx, uid, first)
				return "", err
			}, step: func(s, _ string) (string, bool) {
				pw, _, ok := splitState(s)
				return s, ok && pw == first
			}},
			{name: "GetIdentity", readOnly: true, run: func(ctx context.Context) (string, error) {
				i, err := inst(ctx).GetIdentity(ctx, utok)
				if err == nil && (i.ID != uid || i.Scopes != id.ScopeAll) {
					return fmt.Sprintf("never assigned: %+v", i), nil
				}
				return strings.Join(keysOf(named(i.Groups)), ","), err
			}, step: func(s, res string) (string, bool) {
				_, groups, ok := splitState(s)
				delete(groups, "")
				return s, ok && strings.Join(keysOf(groups), ",") == res
			}},
		}
		observe := func() (string, string) {
			i, err := raw.GetIdentity(ctx, utok)
			var works []string
			candidates := append([]string{first}, changed...)
			for _, p := range candidates {
				if _, _, err := raw.LoginUser(ctx, uid, p); err == nil {
					works = append(works, p)
				}
			}
			if errors.Is(err, id.ErrUserNotFound) || errors.Is(err, id.ErrNotAuthenticated) {
				if len(works) > 0 {
					return fmt.Sprint(works), "never-consistent"
				}
				return "absent", ""
			}
			if err != nil {
				return err.Error(), "unusable"
			}
			if len(works) != 1 {
				return fmt.Sprintf("%d passwords work", len(works)), "passwords"
			}
			return str(works[0], named(i.Groups)), ""
		}
		return str(first, set("g2")), ops, observe
	}}}
	cases = append(cases, c21Crossing(k))
	combos(c, cases, c.N(60, 2000), c.N(15, 200), c.N(12, 100))
}

// c21Crossing has two users who change each other's memberships. The state is the memberships of each, or
// "absent". No operation can take from the other user what that user's operations need, except deletion.
func c21Crossing(k kit.Keys) case21 {
	base := kit.NewStore()
	s0 := kit.NewStandalone(k, base)
	type user struct{ name, uid, pw, tok string }
	var users []*user
	gname := map[string]string{}
	var gids []string
	for _, name := range []string{"ann", "bob"} {
		u := &user{name: name}
		u.uid, u.pw = must2(s0.NewUser(ctx, id.ScopeAll))
		u.tok, _ = must2(s0.LoginUser(ctx, u.uid, u.pw))
		users = append(users, u)
		for i := 1; i <= 2; i++ {
			g := must(s0.NewGroup(ctx, u.tok, id.ScopeDecrypt))
			gname[g] = fmt.Sprint(name, i)
			gids = append(gids, g)
		}
	}
	initial := base.Snapshot()
	ann, bob := users[0], users[1]
	parse := func(s string) map[string]map[string]struct{} {
		out := map[string]map[string]struct{}{}
		for i, l := range strings.Split(s, ";") {
			if l == "absent" {
				continue
			}
			out[users[i].name] = map[string]struct{}{}
			for _, g := range strings.Fields(l) {
				out[users[i].name][g] = struct{}{}
			}
		}
		return out
	}
	str := func(m map[string]map[string]struct{}) string {
		var out []string
		for _, u := range users {
			if l, ok := m[u.name]; ok {
				out = append(out, strings.Join(keysOf(l), " "))
			} else {
				out = append(out, "absent")
			}
		}
		return strings.Join(out, ";")
	}
	return case21{name: "user crossing", setup: func(st io.Provider, provider func(int) io.Provider) (string, []op21, func() (string, string)) {
		st.(*kit.Store).Restore(initial)
		raw := kit.NewStandalone(k, st)
		var ss [3]*id.Standalone
		for i := range ss {
			if i > 0 && provider(i) == provider(0) {
				ss[i] = ss[0]
			} else {
				ss[i] = kit.NewStandalone(k, provider(i))
			}
		}
		inst := func(ctx context.Context) *id.Standalone { return ss[kit.OpOf(ctx)] }
		member := func(by, of *user, add bool, gs ...int) op21 {
			var list []string
			for _, g := range gs {
				list = append(list, gids[g])
			}
			name := fmt.Sprintf("RemoveFromGroups(%s, by %s)", of.name, by.name)
			if add {
				name = fmt.Sprintf("AddToGroups(%s, by %s)", of.name, by.name)
			}
			return op21{name: name, run: func(ctx context.Context) (string, error) {
				if add {
					return "", inst(ctx).AddUserToGroups(ctx, by.tok, of.uid, list...)
				}
				return "", inst(ctx).RemoveUserFromGroups(ctx, by.tok, of.uid, list...)
			}, step: func(s, _ string) (string, bool) {
				m := parse(s)
				if m[by.name] == nil || m[of.name] == nil {
					return "", false
				}
				for _, g := range list {
					if _, in := m[by.name][gname[g]]; !in {
						return "", false
					}
					if add {
						m[of.name][gname[g]] = struct{}{}
					} else {
						delete(m[of.name], gname[g])
					}
				}
				return str(m), true
			}}
		}
		named := func(gs map[string]id.AccessGroup) map[string]struct{} {
			out := map[string]struct{}{}
			for g := range gs {
				n := gname[g]
				if n == "" {
					n = "own:" + g
				}
				out[n] = struct{}{}
			}
			return out
		}
		newGroup := func(u *user) op21 {
			return op21{name: "NewGroup(" + u.name + ")", run: func(ctx context.Context) (string, error) { return inst(ctx).NewGroup(ctx, u.tok, id.ScopeAll) },
				step: func(s, res string) (string, bool) {
					m := parse(s)
					if res == "" || m[u.name] == nil {
						return "", false
					}
					m[u.name]["own:"+res] = struct{}{}
					return str(m), true
				}}
		}
		identity := func(u *user) op21 {
			return op21{name: "GetIdentity(" + u.name + ")", readOnly: true, run: func(ctx context.Context) (string, error) {
				i, err := inst(ctx).GetIdentity(ctx, u.tok)
				if err == nil && i.ID != u.uid {
					return fmt.Sprintf("never assigned: %+v", i), nil
				}
				return strings.Join(keysOf(named(i.Groups)), " "), err
			}, step: func(s, res string) (string, bool) {
				l, ok := parse(s)[u.name]
				return s, ok && strings.Join(keysOf(l), " ") == res
			}}
		}
		ops := []op21{
			member(ann, bob, true, 0), member(bob, ann, true, 2), member(ann, bob, true, 0, 1), member(bob, ann, true, 3), member(ann, ann, true, 0), member(ann, bob, false, 1),
			newGroup(ann), newGroup(bob), identity(ann), identity(bob),
			{name: "DeleteUser(ann, by bob)", run: func(ctx context.Context) (string, error) { return "", inst(ctx).DeleteUser(ctx, bob.tok, ann.uid) },
				step: func(s, _ string) (string, bool) {
					m := parse(s)
					delete(m, ann.name)
					return str(m), m[bob.name] != nil
				}},
		}
		observe := func() (string, string) {
			m := map[string]map[string]struct{}{}
			for _, u := range users {
				i, err := raw.GetIdentity(ctx, u.tok)
				if err == nil {
					m[u.name] = named(i.Groups)
				} else if !errors.Is(err, id.ErrUserNotFound) && !errors.Is(err, id.ErrNotAuthenticated) {
					return err.Error(), "unusable"
				}
			}
			return str(m), ""
		}
		return "ann1 ann2;bob1 bob2", ops, observe
	}}
}

// c21Storm runs crossing operations in real parallel, where nothing orders what happens between two
// storage calls. All calls must end, nothing that was never written may be returned, and everything must
// stay usable.
func c21Storm(c *kit.C, i int) {
	r := c.Rand("storm", i)
	k := kit.NewKeys(r)
	p := providers20[i%len(providers20)]
	var st io.Provider = p.make()
	if i%2 == 0 {
		st = &swaying{Provider: st}
	}
	s := kit.NewStandalone(k, st)
	const n = 3
	var uid, tok [n]string
	var groups [n][]string
	var oids [n]uuid.UUID
	groupSet := map[string]id.Scope{}
	d := kit.NewD1(k, st, s)
	ix := kit.NewIndex(k, st, s)
	for u := range uid {
		var pw string
		uid[u], pw = must2(s.NewUser(ctx, id.ScopeAll))
		tok[u], _ = must2(s.LoginUser(ctx, uid[u], pw))
		for range 2 {
			g := must(s.NewGroup(ctx, tok[u], id.ScopeAll))
			groups[u] = append(groups[u], g)
			groupSet[g] = id.ScopeAll
		}
	}
	for u := range oids {
		oids[u] = must(d.Encrypt(ctx, tok[u], obj([]byte("content"), []byte("content ad")), uid[:]...))
	}
	kws := []string{"a", "b", "c"}
	steps := 150
	if p.name == "bolt" {
		steps = 30
	}
	var calls atomic.Int64
	current := make([]atomic.Value, 2*n)
	ended := make(chan struct{})
	go func() {
		defer close(ended)
		var wg sync.WaitGroup
		for w := 0; w < 2*n; w++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				r := c.Rand("storm", i, w)
				c.Guard("storm", func() {
					me := w % n
					for step := 0; step < steps; step++ {
						other := (me + 1 + r.IntN(n-1)) % n
						calls.Add(1)
						op := r.IntN(12)
						if i%3 == 0 { // mostly memberships
							op = r.IntN(3)
						}
						current[w].Store(fmt.Sprintf("operation %d by user %d on %d", op, me, other))
						switch op {
						case 0, 1:
							if err := s.AddUserToGroups(ctx, tok[me], uid[other], groups[me][:1+r.IntN(2)]...); err != nil {
								c.Violate("storm-fails", "%s: AddUserToGroups fails when run in parallel: %v", p.name, err)
							}
						case 2:
							if err := s.AddUserToGroups(ctx, tok[me], uid[me], groups[me]...); err != nil {
								c.Violate("storm-fails", "%s: AddUserToGroups fails when run in parallel: %v", p.name, err)
							}
						case 3:
							got, err := s.GetIdentity(ctx, tok[other])
							if err != nil || got.ID != uid[other] || got.Scopes != id.ScopeAll {
								c.Violate("storm-fails", "%s: GetIdentity of %s gives %v, %v when run in parallel", p.name, uid[other], got, err)
							}
							for g, a := range got.Groups {
								if groupSet[g] != a.Scopes || g != a.ID {
									c.Violate("never-written", "%s: GetIdentity gives the group %v", p.name, a)
								}
							}
						case 4, 5: // may become undecryptable (known finding), so errors are not looked at
							x := fmt.Sprint("content ", w, step)
							_ = d.Update(ctx, tok[me], oids[other], obj([]byte(x), []byte(x+" ad")))
						case 6:
							_ = d.AddGroupsToAccess(ctx, tok[me], oids[other], groups[other]...)
						case 7, 8:
							o, err := d.Decrypt(ctx, tok[me], oids[other])
							if err == nil && (string(o.AssociatedData) != string(o.Plaintext)+" ad" || !strings.HasPrefix(string(o.Plaintext), "content")) {
								c.Violate("never-written", "%s: Decrypt gives %s", p.name, gotObj(o))
							}
						case 9, 10:
							_ = ix.Add(ctx, tok[me], kws[other], fmt.Sprint(w, "/", step)) // may find that another one was faster
						case 11:
							if _, err := ix.Search(ctx, tok[me], kws[me]); err != nil {
								c.Violate("storm-fails", "%s: index Search fails when run in parallel: %v", p.name, err)
							}
						}
					}
				})
				current[w].Store("")
			}()
		}
		wg.Wait()
	}()
	select {
	case <-ended:
	case <-time.After(time.Duration(c.N(120, 300)) * time.Second):
		var stuck []string
		for w := range current {
			if v, _ := current[w].Load().(string); v != "" {
				stuck = append(stuck, v)
			}
		}
		c.Violate("deadlock", "%s: operations run in parallel do not end: %q", p.name, stuck)
		return
	}
	c.Count("storm_calls", calls.Load())
	c.Case("storm", i)
	for u := range uid {
		got, err := s.GetIdentity(ctx, tok[u])
		if err != nil || got.ID != uid[u] || got.Groups[groups[u][0]].ID == "" || got.Groups[groups[u][1]].ID == "" {
			c.Violate("storm-unusable", "%s: after operations run in parallel, the identity of %s is %v, %v", p.name, uid[u], got, err)
		}
		if list, err := d.GetAccessGroups(ctx, tok[u], oids[u]); err != nil || len(list) < n {
			c.Violate("storm-unusable", "%s: after operations run in parallel, the access list is %q, %v", p.name, keysOf(list), err)
		}
	}
}
