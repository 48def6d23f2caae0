// Package crash checks the bolt IO Provider on a copy of bbolt that reports what it does to its file.
package crash

import (
	"context"
	"errors"
	"fmt"
	"hash/maphash"
	"math/rand/v2"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"testing"

	bolt "go.etcd.io/bbolt"

	"github.com/cybercryptio/d1-lib/v2/io"

	"verif/harness/kit"
)

// C19: acknowledged writes of the bolt IO Provider survive a crash, others are all or nothing.
func TestC19(t *testing.T) {
	kit.Run(t, "C19", "fault_enumeration", "An evaluation is one state of the file that a crash may leave, which is opened again by the library and compared with the calls acknowledged before the crash. Non-trivial: distinct contents of the file.", func(c *kit.C) {
		dir := kit.Scratch()
		bolt.Hook = hook
		c.Parallel("sequential", c.N(84, 800), func(i int) { (&run{c: c, r: c.Rand("sequential", i), dir: dir, name: fmt.Sprint("s", i)}).all(1, i) })
		c.Parallel("concurrent", c.N(30, 300), func(i int) {
			(&run{c: c, r: c.Rand("concurrent", i), dir: dir, name: fmt.Sprint("c", i)}).all(2+i%5, i)
		})
		c.Require("crash_points", 2000)
		c.Require("file_writes", 2000)
		c.Assume("A crash loses any part of what was written after the last fdatasync/fsync of the file, in pieces of 512 bytes; what was flushed stays; the directory entry of the file stays.")
	})
}

var ctx = context.Background()

// event is something that happened to a file, or the begin or end of a call.
type event struct {
	kind string
	off  int64
	data string
	call int
}

// recorder is the history of one file.
type recorder struct {
	mu     sync.Mutex
	base   []byte
	events []event
}

func (rec *recorder) add(e event) {
	rec.mu.Lock()
	rec.events = append(rec.events, e)
	rec.mu.Unlock()
}

var recorders sync.Map // path -> *recorder

func hook(path, kind string, off int64, data []byte) {
	if rec, ok := recorders.Load(path); ok {
		rec.(*recorder).add(event{kind: kind, off: off, data: string(data)})
	}
}

// call is one call of the IO Provider. An absent value is "".
type call struct {
	op    string
	key   string // "type/id"
	value string // the value of the entry if the call takes effect, 'absent' if there is none
	works bool   // whether it is to take effect at all
}

const absent = "<absent>"

type run struct {
	c    *kit.C
	r    *rand.Rand
	dir  string
	name string
	n    int
	seed maphash.Seed
	seen map[uint64]bool
}

type entry struct {
	id []byte
	dt io.DataType
}

func (e entry) key() string { return fmt.Sprintf("%d/%x", e.dt, e.id) }

// all runs a workload of some goroutines and looks at its crashes; then it goes on from one of them.
func (x *run) all(workers, i int) {
	debug.SetPanicOnFault(true)
	x.seed = maphash.MakeSeed()
	x.seen = map[uint64]bool{}
	var pool []entry
	for n := 0; n < 8+x.r.IntN(20); n++ {
		pool = append(pool, entry{kit.Bytes(x.r, []int{16, 32, 1, 200}[x.r.IntN(4)]), io.DataType(x.r.IntN(6))})
	}
	for n := 0; n < 4; n++ { // the same ID with another type, IDs that contain each other
		e := kit.Pick(x.r, pool)
		pool = append(pool, entry{e.id, e.dt + 6}, entry{append(append([]byte{}, e.id...), e.dt.Bytes()...), e.dt})
	}
	var keys []entry
	seen := map[string]bool{}
	for _, e := range pool {
		if !seen[e.key()] {
			seen[e.key()] = true
			keys = append(keys, e)
		}
	}
	state := map[string]string{}
	var base []byte
	for round := 0; round < 2+i%2; round++ {
		var ok bool
		if base, state, ok = x.life(base, state, keys, workers, round); !ok {
			return
		}
	}
}

// value is the content of an entry, mostly small; some need several pages or make the file grow.
func value(r *rand.Rand) string {
	n := r.IntN(300)
	switch r.IntN(12) {
	case 0:
		n = 0
	case 1, 2:
		n = r.IntN(6000)
	case 3:
		n = r.IntN(60000)
	}
	return string(kit.Bytes(r, n))
}

// life runs calls on a file that starts as base, from when it is opened, and opens what crashes leave
// of it. It returns one of those with what is in it.
func (x *run) life(base []byte, state map[string]string, keys []entry, workers, round int) ([]byte, map[string]string, bool) {
	c := x.c
	path := filepath.Join(x.dir, fmt.Sprintf("%s-%d.db", x.name, round))
	if base != nil {
		if err := os.WriteFile(path, base, 0o600); err != nil {
			panic(err)
		}
	}
	rec := &recorder{base: base}
	recorders.Store(path, rec)
	b, err := io.NewBolt(path)
	if err != nil {
		c.Violate("does-not-open", "run %s, life %d: NewBolt on what a crash left failed: %v", x.name, round, err)
		return nil, nil, false
	}
	rec.add(event{kind: "opened"})
	var calls []*call
	var callsMu sync.Mutex
	var wg sync.WaitGroup
	ok := true
	for w := 0; w < workers; w++ {
		var mine []entry
		for i, k := range keys {
			if i%workers == w {
				mine = append(mine, k)
			}
		}
		own := map[string]string{}
		for _, k := range mine {
			if v, there := state[k.key()]; there {
				own[k.key()] = v
			}
		}
		wr := c.Rand(x.name, round, w)
		n := 45 / workers
		work := func() {
			defer wg.Done()
			debug.SetPanicOnFault(true)
			for i := 0; i < n; i++ {
				e := kit.Pick(wr, mine)
				old, there := own[e.key()]
				if !there {
					old = absent
				}
				cl := &call{key: e.key()}
				v := value(wr)
				var f func() error
				var want error
				switch o := wr.IntN(10); {
				case o < 4:
					cl.op, cl.value, cl.works = "Put", v, !there
					f = func() error { return b.Put(ctx, e.id, e.dt, []byte(v)) }
					if there {
						want = io.ErrAlreadyExists
					}
				case o < 7:
					cl.op, cl.value, cl.works = "Update", v, there
					f = func() error { return b.Update(ctx, e.id, e.dt, []byte(v)) }
					if !there {
						want = io.ErrNotFound
					}
				default:
					cl.op, cl.value, cl.works = "Delete", absent, true
					f = func() error { return b.Delete(ctx, e.id, e.dt) }
				}
				callsMu.Lock()
				calls = append(calls, cl)
				id := len(calls) - 1
				callsMu.Unlock()
				rec.add(event{kind: "begin", call: id})
				err := f()
				rec.add(event{kind: "end", call: id})
				if !errors.Is(err, want) {
					c.Violate("result", "run %s: %s of an entry that was %q before returned %v", x.name, cl.op, short(old), err)
					callsMu.Lock()
					ok = false
					callsMu.Unlock()
					return
				}
				if cl.works {
					if cl.value == absent {
						delete(own, e.key())
					} else {
						own[e.key()] = cl.value
					}
				}
			}
		}
		wg.Add(1)
		go func() {
			if c.Guard("workload", work) {
				callsMu.Lock()
				ok = false
				callsMu.Unlock()
			}
		}()
	}
	wg.Wait()
	// Nothing may be left to be done after the calls have returned; give it the chance to be seen.
	for i := 0; i < 5; i++ {
		runtime.Gosched()
	}
	recorders.Delete(path)
	c.Guard("close", func() { bolt.CloseAll(path) })
	os.Remove(path)
	if !ok {
		return nil, nil, false
	}
	return x.crashes(rec, calls, state, keys, round)
}

func short(s string) string {
	if s == absent {
		return s
	}
	return kit.Short([]byte(s))
}

// disk is the content of a file.
type disk struct {
	b      []byte
	isTorn bool // some write was applied in part
}

func (d *disk) apply(e event) {
	switch e.kind {
	case "truncate":
		d.resize(e.off)
	case "write":
		if end := e.off + int64(len(e.data)); end > int64(len(d.b)) {
			d.resize(end)
		}
		copy(d.b[e.off:], e.data)
	}
}

func (d *disk) resize(n int64) {
	if n <= int64(len(d.b)) {
		d.b = d.b[:n]
		return
	}
	d.b = append(d.b, make([]byte, n-int64(len(d.b)))...)
}

// torn applies some of the sectors of a write.
func (d *disk) torn(e event, r *rand.Rand) {
	d.isTorn = true
	const sector = 512
	kind, cut := r.IntN(3), r.IntN(len(e.data)/sector+1)
	for i := 0; i*sector < len(e.data); i++ {
		var keep bool
		switch kind {
		case 0:
			keep = i < cut
		case 1:
			keep = i >= cut
		default:
			keep = r.IntN(2) == 0
		}
		if keep {
			d.apply(event{kind: "write", off: e.off + int64(i*sector), data: e.data[i*sector : min((i+1)*sector, len(e.data))]})
		}
	}
}

// crashes goes through the history and opens the file as crashes may leave it at each point.
func (x *run) crashes(rec *recorder, calls []*call, state map[string]string, keys []entry, round int) ([]byte, map[string]string, bool) {
	c, r := x.c, x.r
	stable := &disk{b: append([]byte(nil), rec.base...)}
	var pending []event
	done := map[string]string{}
	for k, v := range state {
		done[k] = v
	}
	flying := map[int]bool{}
	synced := false
	stop := r.IntN(len(rec.events))
	var nextBase []byte
	var nextState map[string]string
	writes := 0
	for p, e := range rec.events {
		switch e.kind {
		case "write", "truncate":
			pending = append(pending, e)
			c.Count("file_writes", 1)
			writes++
		case "sync":
			for _, w := range pending {
				stable.apply(w)
			}
			pending = nil
			synced = true
			c.Count("file_syncs", 1)
		case "begin":
			flying[e.call] = true
		case "end":
			delete(flying, e.call)
			if cl := calls[e.call]; cl.works {
				if cl.value == absent {
					delete(done, cl.key)
				} else {
					done[cl.key] = cl.value
				}
			}
			c.Count("calls", 1)
		}
		c.Count("crash_points", 1)
		if c.Full() {
			return nil, nil, false
		}

		// What may be on the disk if the crash happens now.
		var images []*disk
		image := func(f func(d *disk)) {
			d := &disk{b: append(make([]byte, 0, len(stable.b)+1<<16), stable.b...)}
			f(d)
			images = append(images, d)
		}
		image(func(d *disk) {}) // nothing of the rest
		if len(pending) > 0 {
			image(func(d *disk) { // all of it
				for _, w := range pending {
					d.apply(w)
				}
			})
			for n := 0; n < 2; n++ { // some, in pieces
				image(func(d *disk) {
					order := pending
					for _, w := range order {
						switch r.IntN(3) {
						case 0:
							d.apply(w)
						case 1:
							if w.kind == "write" {
								d.torn(w, r)
							}
						}
					}
				})
			}
			image(func(d *disk) { // only the last one
				d.apply(pending[len(pending)-1])
			})
			image(func(d *disk) { // all but one
				skip := r.IntN(len(pending))
				for i, w := range pending {
					if i != skip {
						d.apply(w)
					}
				}
			})
		}
		for i, d := range images {
			var h maphash.Hash
			h.SetSeed(x.seed)
			h.Write(d.b)
			// The same content may have to be something else after another call has returned.
			if sum := h.Sum64() + uint64(len(done))*0x9e3779b97f4a7c15 + statehash(x.seed, done, flying); x.seen[sum] && !(p == stop && nextBase == nil) {
				continue
			} else {
				x.seen[sum] = true
			}
			found, ok := x.open(d.b, done, calls, flying, keys, len(rec.base) == 0 && !synced && d.isTorn, fmt.Sprintf("run %s, life %d, crash after event %d of %d (%s), image %d with %d unsynced writes", x.name, round, p, len(rec.events), e.kind, i, len(pending)))
			if !ok {
				return nil, nil, false
			}
			if p >= stop && nextBase == nil && found != nil {
				nextBase, nextState = d.b, found
			}
		}
	}
	if nextBase == nil {
		return stable.b, done, true
	}
	return nextBase, nextState, true
}

func statehash(seed maphash.Seed, done map[string]string, flying map[int]bool) uint64 {
	var sum uint64
	for k, v := range done {
		sum += maphash.String(seed, k+"="+v)
	}
	for i := range flying {
		sum += maphash.String(seed, fmt.Sprint("call ", i))
	}
	return sum
}

// open lets the library open what a crash left, and compares. It returns what it found.
func (x *run) open(image []byte, done map[string]string, calls []*call, flying map[int]bool, keys []entry, tornFirst bool, where string) (found map[string]string, ok bool) {
	c := x.c
	x.n++
	path := filepath.Join(x.dir, fmt.Sprintf("%s-crash.db", x.name))
	if err := os.WriteFile(path, image, 0o600); err != nil {
		panic(err)
	}
	defer os.Remove(path)
	defer func() { c.Guard("close", func() { bolt.CloseAll(path) }) }()
	c.Eval(1)
	c.Distinct(string(image))
	if x.n%97 == 50 {
		c.Sample("%s: %d bytes, %d entries", where, len(image), len(done))
	}
	if tornFirst {
		// Known finding: bolt does not open a new file whose very first write was torn.
		var problem any
		func() {
			defer func() { problem = recover() }()
			if _, err := io.NewBolt(path); err != nil {
				problem = err
			}
		}()
		if problem != nil {
			c.Violate("first-write-of-new-file-torn", "%s: NewBolt failed: %v", where, problem)
			return nil, true
		}
		return map[string]string{}, true
	}
	panicked := c.Guard("after-crash", func() {
		b, err := io.NewBolt(path)
		if err != nil {
			c.Violate("does-not-open", "%s: NewBolt failed: %v", where, err)
			return
		}
		if found, ok = x.compare(&b, done, calls, flying, keys, where); !ok || x.n%7 > 0 {
			return
		}
		// It can be written, and is still right when opened again.
		ok = false
		now := map[string]string{}
		for k, v := range found {
			now[k] = v
		}
		for i := 0; i < 3; i++ {
			e := kit.Pick(x.r, keys)
			v := value(x.r)
			var err error
			if _, there := now[e.key()]; !there {
				err = b.Put(ctx, e.id, e.dt, []byte(v))
				now[e.key()] = v
			} else if i == 1 {
				err = b.Delete(ctx, e.id, e.dt)
				delete(now, e.key())
			} else {
				err = b.Update(ctx, e.id, e.dt, []byte(v))
				now[e.key()] = v
			}
			if err != nil {
				c.Violate("unusable", "%s: a later call failed: %v", where, err)
				return
			}
		}
		bolt.CloseAll(path)
		if b, err = io.NewBolt(path); err != nil {
			c.Violate("does-not-open", "%s: NewBolt failed the second time: %v", where, err)
			return
		}
		c.Count("used_after_crash", 1)
		_, ok = x.compare(&b, now, nil, nil, keys, where+", used and opened again")
	})
	return found, ok && !panicked
}

func (x *run) compare(b *io.Bolt, done map[string]string, calls []*call, flying map[int]bool, keys []entry, where string) (map[string]string, bool) {
	c := x.c
	found := map[string]string{}
	effects := 0
	for _, k := range keys {
		got, err := b.Get(ctx, k.id, k.dt)
		v := string(got)
		switch {
		case errors.Is(err, io.ErrNotFound):
			v = absent
		case err != nil:
			c.Violate("get-fails", "%s: Get(%s) failed: %v", where, k.key(), err)
			return nil, false
		default:
			found[k.key()] = v
		}
		want, there := done[k.key()]
		if !there {
			want = absent
		}
		if v == want {
			continue
		}
		explained := false
		for i := range flying {
			explained = explained || calls[i].works && calls[i].key == k.key() && calls[i].value == v
		}
		if !explained {
			var also []string
			for i := range flying {
				also = append(also, fmt.Sprintf("%s(%s, %s)", calls[i].op, calls[i].key, short(calls[i].value)))
			}
			sort.Strings(also)
			c.Violate("lost-or-mixed", "%s: entry %s is %s (%d bytes), but the acknowledged calls left %s (%d bytes); calls under way: %s",
				where, k.key(), short(v), len(v), short(want), len(want), strings.Join(also, ", "))
			return nil, false
		}
		effects++
	}
	if effects > 0 {
		c.Count("unacknowledged_calls_that_took_effect", 1)
	} else if len(flying) > 0 {
		c.Count("crashes_during_calls_without_effect", 1)
	}
	return found, true
}
