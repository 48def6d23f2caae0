package checks

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"math/rand/v2"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/anishathalye/porcupine"

	"github.com/cybercryptio/d1-lib/v2/io"

	"verif/harness/kit"
)

// C18: the IO Providers are exact, linearizable maps.
func TestC18(t *testing.T) {
	kit.Run(t, "C18", "exploration", "An evaluation is one call whose result is compared with an exact map, or one concurrent history checked for linearizability. Non-trivial: distinct (provider, history of calls and results).", func(c *kit.C) {
		c.Parallel("sequential", c.N(720, 10000), func(i int) { c18Sequential(c, i) })
		c18Rounds(c)
		c.Parallel("long", c.N(8, 80), func(i int) { c18Long(c, i) })
		c.Require("concurrent_histories", 10000)
	})
}

var providers18 = []provider{
	{"mem", kit.NewMem},
	{"bolt", kit.NewBolt},
	{"proxy over mem", kit.NewProxyOverMem},
	{"proxy over bolt", func() io.Provider { p := io.NewProxy(kit.NewBolt()); return &p }},
}

var types18 = []io.DataType{0, 1, 2, 3, 4, 5, 6, 7, 9, 10, 11, 12, 16, 22, 31, 32, 48, 49, 50, 58, 63, 64, 97, 100, 101, 110, 111, 127, 128, 129, 255, 256, 257, 258, 511, 512, 768, 1000, 4096, 12592, 25600, 32767, 32768, 65280, 65534, 65535}

// longestID is the longest ID that bolt's keys allow; longer ones may be refused.
const longestID = 32768 - 3

// ids18 returns IDs that are easily confused with each other or, together with a type, with others.
func ids18(r *rand.Rand) ([][]byte, []io.DataType) {
	var types []io.DataType
	base := kit.Bytes(r, 1+r.IntN(20))
	if r.IntN(3) == 0 {
		base = []byte(kit.Pick(r, []string{"a", "id", "object", "ab", "0", ":", "/", "\x00", "\x00\x00\x00", "\xff"}))
	}
	out := [][]byte{nil, base}
	add := func(b []byte) {
		if len(b) <= longestID {
			out = append(out, b)
		}
	}
	for i := 0; i < 10; i++ {
		b := bytes.Clone(kit.Pick(r, out))
		dt := kit.Pick(r, types18)
		switch r.IntN(17) {
		case 14, 15, 16:
			// A part of an encoding of the type moved to the ID.
			all := encodings18(dt)
			e := kit.Pick(r, keysOf(all))
			j := 1 + r.IntN(len(e))
			front := r.IntN(2) == 0
			for _, dt2 := range types18 {
				e2 := encodings18(dt2)
				if _, ok := e2[e[j:]]; front && ok {
					add(append(b, e[:j]...))
					types = append(types, dt, dt2)
				} else if _, ok := e2[e[:j]]; !front && ok {
					add(append([]byte(e[j:]), b...))
					types = append(types, dt, dt2)
				}
			}
		case 0:
			add(append(b, dt.Bytes()...))
		case 1:
			add(append(dt.Bytes(), b...))
		case 2:
			add([]byte(fmt.Sprintf("%x", b)))
		case 3:
			add([]byte(fmt.Sprintf("%x:%s", b, dt)))
		case 4:
			add([]byte(string(b) + ":" + dt.String()))
		case 5:
			add(append(b, 0))
		case 6:
			add(append([]byte{0}, b...))
		case 7:
			if len(b) > 0 {
				add(b[:len(b)-1])
			}
		case 8:
			if len(b) > 0 {
				b[r.IntN(len(b))] ^= 1 << r.IntN(8)
			}
			add(b)
		case 9:
			add([]byte(strings.ToUpper(string(b))))
		case 10:
			add([]byte(strings.ToValidUTF8(string(b), "\ufffd")))
		case 11:
			add(append(b, byte(dt)))
		case 12:
			add(append(b, byte(dt>>8), byte(dt)))
		case 13:
			add(kit.Bytes(r, kit.Pick(r, []int{15, 16, 17, 32, 255, 256, 1024, 4096, 30000, longestID})))
		}
	}
	return out, types
}

func overwrite18(r *rand.Rand, b []byte) {
	for i := range b {
		b[i] ^= byte(1 + r.IntN(255))
	}
}

// encodings18 are ways to write a type.
func encodings18(dt io.DataType) map[string]bool {
	out := map[string]bool{fmt.Sprint(dt): true, fmt.Sprintf("%x", int(dt)): true}
	out[string(binary.AppendUvarint(nil, uint64(dt)))] = true
	for _, b := range [][]byte{{byte(dt)}, {byte(dt >> 8), byte(dt)}, {byte(dt), byte(dt >> 8)}, {byte(dt), byte(dt >> 8), 0}} {
		if len(b) > 1 || dt < 256 {
			out[string(b)] = true
		}
	}
	return out
}

func c18Sequential(c *kit.C, i int) {
	r := c.Rand("sequential", i)
	p := providers18[i%len(providers18)]
	st := p.make()
	other := p.make() // a second one of the same kind shares nothing with it
	model := map[string]string{}
	key := func(id []byte, dt io.DataType) string { return fmt.Sprintf("%d/%x", dt, id) }
	ids, types := ids18(r)
	for i := 2 + r.IntN(6); i > 0; i-- {
		types = append(types, kit.Pick(r, types18))
	}
	if len(types) > 8 {
		r.Shuffle(len(types), func(i, j int) { types[i], types[j] = types[j], types[i] })
		types = types[:8]
	}
	var tr trail
	fail := func(sig, format string, args ...any) {
		c.Violate(sig+":"+p.name, "%s: %s\nhistory:\n%s", p.name, fmt.Sprintf(format, args...), tr.String())
	}
	type result struct {
		got  []byte
		want string
		what string
	}
	var kept []result
	defer func() { // what a call returned stays as it was
		for _, k := range kept {
			if string(k.got) != k.want {
				fail("changed", "the result of %s was %s and later calls made it %s", k.what, kit.Short([]byte(k.want)), kit.Short(k.got))
				return
			}
		}
	}()
	check := func(id []byte, dt io.DataType) bool {
		want, there := model[key(id, dt)]
		got, err := st.Get(ctx, id, dt)
		switch {
		case len(got) == 0:
		case r.IntN(3) > 0:
			kept = append(kept, result{got, string(got), fmt.Sprintf("Get(%x, %d)", id, dt)})
		default: // or is the caller's to change
			defer overwrite18(r, got)
		}
		if there && (err != nil || string(got) != want) || !there && (!errors.Is(err, io.ErrNotFound) || len(got) > 0) {
			fail("get", "Get(%x, %d) returned %s (%d bytes), %v; expected present=%v %s (%d bytes)", id, dt, kit.Short(got), len(got), err, there, kit.Short([]byte(want)), len(want))
			return false
		}
		return true
	}
	for s := 0; s < 120; s++ {
		id, dt := kit.Pick(r, ids), kit.Pick(r, types)
		data := kit.Content(r, 60)
		if r.IntN(20) == 0 {
			data = []byte(model[key(kit.Pick(r, ids), kit.Pick(r, types))]) // the same data as another
		}
		k := key(id, dt)
		_, there := model[k]
		spare := func(b []byte) []byte {
			if b == nil {
				return nil
			}
			return append(make([]byte, 0, len(b)+r.IntN(30)), b...)
		}
		idArg, dataArg := spare(id), spare(data)
		op := r.IntN(10)
		switch {
		case op < 3:
			err := st.Put(ctx, idArg, dt, dataArg)
			tr.add("Put(%x, %d, %s)=%v", id, dt, kit.Short(data), err)
			if there && !errors.Is(err, io.ErrAlreadyExists) || !there && err != nil {
				fail("put", "Put(%x, %d) returned %v, present before: %v", id, dt, err, there)
				return
			}
			if !there {
				model[k] = string(data)
			}
		case op < 6:
			err := st.Update(ctx, idArg, dt, dataArg)
			tr.add("Update(%x, %d, %s)=%v", id, dt, kit.Short(data), err)
			if !there && !errors.Is(err, io.ErrNotFound) || there && err != nil {
				fail("update", "Update(%x, %d) returned %v, present before: %v", id, dt, err, there)
				return
			}
			if there {
				model[k] = string(data)
			}
		case op < 8:
			err := st.Delete(ctx, idArg, dt)
			tr.add("Delete(%x, %d)=%v", id, dt, err)
			if err != nil {
				fail("delete", "Delete(%x, %d) returned %v", id, dt, err)
				return
			}
			delete(model, k)
		case op == 8:
			other.Put(ctx, idArg, dt, []byte("in the other one"))
			other.Update(ctx, idArg, dt, []byte("in the other one"))
			tr.add("the same entry written in another provider")
		}
		c.Case(p.name, i, s)
		if r.IntN(2) == 0 {
			overwrite18(r, idArg)
			overwrite18(r, dataArg)
		}
		if !check(id, dt) {
			return
		}
		if s%20 == 19 { // everything that there might be
			for _, id := range ids {
				for _, dt := range types {
					if !check(id, dt) {
						return
					}
					c.Eval(1)
				}
			}
		}
	}
	// IDs longer than what bolt can store may be refused but must not do anything.
	long := kit.Bytes(r, longestID+1+r.IntN(40000))
	dt := kit.Pick(r, types)
	err := st.Put(ctx, long, dt, []byte("x"))
	tr.add("Put(ID of %d bytes)=%v", len(long), err)
	if err == nil {
		model[key(long, dt)] = "x"
	}
	c.Case(p.name, "long", len(long))
	for _, id := range append(ids, long, long[:longestID], long[:len(long)-1]) {
		if !check(id, dt) {
			return
		}
	}
}

// A call in a concurrent history. The value is a label of the bytes written or read.
type in18 struct {
	op, value string
}

type out18 struct {
	value string
	err   string
}

var model18 = porcupine.Model{
	Init: func() any { return "" },
	Step: func(state, input, output any) (bool, any) {
		s, in, out := state.(string), input.(in18), output.(out18)
		switch in.op {
		case "init":
			return true, in.value
		case "Put":
			if out.err == "exists" {
				return s != "", s
			}
			return out.err == "" && s == "", in.value
		case "Update":
			if out.err == "not found" {
				return s == "", s
			}
			return out.err == "" && s != "", in.value
		case "Get":
			if out.err == "not found" {
				return s == "", s
			}
			return out.err == "" && s == out.value, s
		case "Delete":
			return out.err == "", ""
		}
		return false, s
	},
	Equal: func(a, b any) bool { return a == b },
}

func err18(err error) string {
	switch {
	case err == nil:
		return ""
	case errors.Is(err, io.ErrNotFound):
		return "not found"
	case errors.Is(err, io.ErrAlreadyExists):
		return "exists"
	}
	return err.Error()
}

// value18 makes the bytes of a label; the label is recognised from the whole of the bytes.
func value18(label string, n int) []byte {
	b := bytes.Repeat([]byte(label+"|"), n/(len(label)+1)+1)
	return b
}

func label18(b []byte) string {
	l, _, ok := bytes.Cut(b, []byte("|"))
	if !ok || !bytes.Equal(bytes.Repeat(append(l, '|'), len(b)/(len(l)+1)), b) {
		return "mixed:" + kit.Short(b)
	}
	return string(l)
}

func call18(st io.Provider, op string, id []byte, dt io.DataType, value string, size int) out18 {
	switch op {
	case "Put":
		return out18{"", err18(st.Put(ctx, id, dt, value18(value, size)))}
	case "Update":
		return out18{"", err18(st.Update(ctx, id, dt, value18(value, size)))}
	case "Delete":
		return out18{"", err18(st.Delete(ctx, id, dt))}
	}
	b, err := st.Get(ctx, id, dt)
	if err != nil {
		return out18{"", err18(err)}
	}
	return out18{label18(b), ""}
}

// c18Rounds lets two to four goroutines meet on one entry, very often. All combinations of calls are
// run in turn.
func c18Rounds(c *kit.C) {
	ops := []string{"Put", "Update", "Delete", "Get"}
	var outcomes sync.Map
	for pi, p := range providers18 {
		rounds := c.N(60000, 1000000)
		if strings.Contains(p.name, "bolt") {
			rounds = c.N(4000, 60000)
		}
		st := p.make()
		const workers = 3
		type step struct {
			op       string
			in       in18
			out      out18
			from, to int64
		}
		var clock, turn, done atomic.Int64
		var plan [workers][]step
		var id []byte
		var dt io.DataType
		var size int
		stop := false
		var wg sync.WaitGroup
		defer wg.Wait()
		for w := 0; w < workers; w++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				// A panic of the library ends the round, not the process.
				for mine := int64(1); ; mine++ {
					for spins := 0; turn.Load() < mine; spins++ {
						if spins > 2000 {
							runtime.Gosched()
						}
					}
					if stop {
						return
					}
					c.Guard("concurrent", func() {
						for i := range plan[w] {
							s := &plan[w][i]
							s.from = clock.Add(1)
							s.out = call18(st, s.op, id, dt, s.in.value, size)
							s.to = clock.Add(1)
						}
					})
					done.Add(1)
				}
			}()
		}
		r := c.Rand("rounds", pi)
		for n := 0; n < rounds && !c.Full(); n++ {
			id, dt = []byte(fmt.Sprint("id", n%50)), io.DataType(n%3)
			size = kit.Pick(r, []int{8, 8, 200, 5000})
			st.Delete(ctx, id, dt)
			initial := ""
			if r.IntN(3) > 0 {
				initial = "v0"
				if err := st.Put(ctx, id, dt, value18("v0", size)); err != nil {
					c.Violate("put:"+p.name, "%s: Put after Delete failed: %v", p.name, err)
					break
				}
			}
			desc := p.name + " initially " + initial
			for w := range plan {
				plan[w] = plan[w][:0]
				for i := 0; i < 1+r.IntN(2); i++ {
					op := kit.Pick(r, ops)
					if w > 0 && r.IntN(3) == 0 {
						op = plan[0][0].op
					}
					v := ""
					if op == "Put" || op == "Update" {
						v = fmt.Sprintf("v%d%d", w+1, i)
					}
					plan[w] = append(plan[w], step{op: op, in: in18{op, v}})
				}
			}
			done.Store(0)
			turn.Add(1)
			for done.Load() < workers {
				runtime.Gosched()
			}
			var h []porcupine.Operation
			h = append(h, porcupine.Operation{ClientId: 0, Input: in18{"init", initial}, Output: out18{}, Call: -2, Return: -1})
			for w := range plan {
				for _, s := range plan[w] {
					h = append(h, porcupine.Operation{ClientId: w + 1, Input: s.in, Call: s.from, Output: s.out, Return: s.to})
					desc += fmt.Sprintf("; %d: %s %s -> %v", w, s.op, s.in.value, s.out)
				}
			}
			last := call18(st, "Get", id, dt, "", 0)
			h = append(h, porcupine.Operation{ClientId: 0, Input: in18{"Get", ""}, Output: last, Call: clock.Add(1), Return: clock.Add(1)})
			desc += fmt.Sprintf("; then Get -> %v", last)
			outcomes.Store(desc, true)
			c.Case(desc)
			c.Count("concurrent_histories", 1)
			if !porcupine.CheckOperations(model18, h) {
				c.Violate("not-linearizable:"+p.name, "no order of the calls explains the results: %s", desc)
			}
		}
		stop = true
		turn.Add(1)
	}
	n := int64(0)
	outcomes.Range(func(any, any) bool { n++; return true })
	c.Count("distinct_concurrent_outcomes", n)
}

// c18Long records longer histories of many goroutines on a few entries.
func c18Long(c *kit.C, i int) {
	p := providers18[i%len(providers18)]
	st := p.make()
	keys := []struct {
		id []byte
		dt io.DataType
	}{{[]byte("a"), 0}, {[]byte("a"), 1}, {[]byte("a\x00\x00\x00"), 0}, {nil, 2}}
	const workers, calls = 6, 60
	var clock atomic.Int64
	hist := make([][][]porcupine.Operation, workers)
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		r := c.Rand("long", i, w)
		wg.Add(1)
		go func() {
			defer wg.Done()
			hist[w] = make([][]porcupine.Operation, len(keys))
			c.Guard("long", func() {
				for n := 0; n < calls; n++ {
					k := r.IntN(len(keys))
					op := kit.Pick(r, []string{"Put", "Update", "Update", "Delete", "Get", "Get"})
					in := in18{op, ""}
					if op == "Put" || op == "Update" {
						in.value = fmt.Sprintf("w%dn%d", w, n)
					}
					from := clock.Add(1)
					out := call18(st, op, keys[k].id, keys[k].dt, in.value, 10+r.IntN(300))
					hist[w][k] = append(hist[w][k], porcupine.Operation{ClientId: w, Input: in, Output: out, Call: from, Return: clock.Add(1)})
					if r.IntN(4) == 0 {
						runtime.Gosched()
					}
				}
			})
		}()
	}
	wg.Wait()
	for k := range keys {
		var h []porcupine.Operation
		for w := range hist {
			if hist[w] != nil {
				h = append(h, hist[w][k]...)
			}
		}
		switch porcupine.CheckOperationsTimeout(model18, h, 20*time.Second) {
		case porcupine.Illegal:
			var s strings.Builder
			for _, o := range h {
				fmt.Fprintf(&s, "%d [%d,%d] %v -> %v\n", o.ClientId, o.Call, o.Return, o.Input, o.Output)
			}
			c.Violate("not-linearizable:"+p.name, "%s: no order of the calls on (%x, %d) explains the results:\n%s", p.name, keys[k].id, keys[k].dt, s.String())
		case porcupine.Ok:
			c.Count("long_histories_checked", 1)
		}
		c.Case("long", p.name, i, k)
	}
}
