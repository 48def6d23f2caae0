package checks

import (
	"context"
	"errors"
	"fmt"
	"math/rand/v2"
	"os"
	"regexp"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	d1 "github.com/cybercryptio/d1-lib/v2"
	"github.com/cybercryptio/d1-lib/v2/id"
	"github.com/cybercryptio/d1-lib/v2/index"
	"github.com/cybercryptio/d1-lib/v2/io"
	"github.com/cybercryptio/d1-lib/v2/key"

	"verif/harness/kit"
)

// C29: providers get the caller's context and token, and only while the call runs.
func TestC29(t *testing.T) {
	kit.Run(t, "C29", "exploration", "An evaluation is one call made by the library to a provider, whose context is compared with that of the operation it belongs to. Non-trivial: distinct (operation, kind of context, provider call, what is done to the context).", func(c *kit.C) {
		m := &monitor29{c: c}
		n := c.N(32, 500)
		c.Parallel("contexts", n, func(i int) { prep(c, func() { c29Contexts(c, m, i) }) })
		c.Parallel("waiting", n, func(i int) { prep(c, func() { c29Waiting(c, m, i) }) })
		c.Parallel("timeouts", c.N(16, 200), func(i int) { prep(c, func() { c29Timeouts(c, m, i) }) })
		c.Parallel("tokens", c.N(8, 100), func(i int) { prep(c, func() { c29Tokens(c, i) }) })
		c.Parallel("constructors", c.N(8, 40), func(i int) { prep(c, func() { c29Constructors(c, m, i) }) })
		c29Left(c)
		c.Require("provider_calls", 5000)
		c.Require("cancelled", 500)
		c.Require("tokens", 500)
	})
}

type key29 struct{}

// call29 is an operation whose calls to providers are watched. It is found through the context.
type call29 struct {
	name     string
	ctx      context.Context
	returned atomic.Bool
	n        atomic.Int64 // calls to providers
	mu       sync.Mutex
	// at is called in the n-th call to a provider.
	at func(n int, ctx context.Context) error
}

// own29 is a kind of context that the standard library does not know.
type own29 struct {
	context.Context
	done  chan struct{}
	once  sync.Once
	ended atomic.Bool
	late  bool // it ends because its time is over
}

func (o *own29) Done() <-chan struct{} { return o.done }
func (o *own29) Err() error {
	if o.ended.Load() {
		if o.late {
			return context.DeadlineExceeded
		}
		return context.Canceled
	}
	return nil
}
func (o *own29) end() { o.once.Do(func() { o.ended.Store(true); close(o.done) }) }

type other29 string

// monitor29 watches the calls to providers. Only one operation at a time uses an instance of one world, so
// a call without a context value can be attributed by the world's current operation.
type monitor29 struct {
	c     *kit.C
	stuck atomic.Bool // a context did not end in time
}

// within waits until f holds; only once for something that never comes.
func (m *monitor29) within(d time.Duration, f func() bool) bool {
	for end := time.Now().Add(d); time.Now().Before(end) && !m.stuck.Load(); time.Sleep(time.Millisecond) {
		if f() {
			return true
		}
	}
	if f() {
		return true
	}
	m.stuck.Store(true)
	return false
}

// enter checks a call to a provider made while cur is the operation that runs.
func (m *monitor29) enter(cur *atomic.Pointer[call29], what string, got context.Context) error {
	c := m.c
	c.Count("provider_calls", 1)
	op := cur.Load()
	if op == nil {
		c.Violate("outside", "%s is called while no operation runs", what)
		return nil
	}
	n := int(op.n.Add(1)) - 1
	c.Case(op.name, what, n)
	if op.returned.Load() {
		c.Violate("after-return", "%s: %s is called after it returned", op.name, what)
	}
	if got == nil {
		c.Violate("no-context", "%s: %s is called with a nil context", op.name, what)
		return nil
	}
	if v, _ := got.Value(key29{}).(*call29); v != op {
		c.Violate("values", "%s: %s is called with a context that lacks the values of the caller's", op.name, what)
	}
	if got.Value(other29("k")) != op.ctx.Value(other29("k")) {
		c.Violate("values", "%s: %s is called with a context that has other values than the caller's", op.name, what)
	}
	d, ok := got.Deadline()
	e, has := op.ctx.Deadline()
	if ok != has || ok && !d.Equal(e) {
		c.Violate("deadline", "%s: %s is called with the deadline %v (%v) instead of %v (%v)", op.name, what, d, ok, e, has)
	}
	if (got.Err() == nil) != (op.ctx.Err() == nil) && !m.within(30*time.Second, func() bool { return (got.Err() == nil) == (op.ctx.Err() == nil) }) {
		c.Violate("cancellation", "%s: the context of %s says %v, the caller's %v", op.name, what, got.Err(), op.ctx.Err())
	}
	if op.at != nil {
		return op.at(n, got)
	}
	return nil
}

// io29, ids29 and keys29 are the watched providers.
type io29 struct {
	m   *monitor29
	cur *atomic.Pointer[call29]
	p   io.Provider
}

func (p *io29) Put(ctx context.Context, id []byte, dt io.DataType, b []byte) error {
	if err := p.m.enter(p.cur, "Put", ctx); err != nil {
		return err
	}
	return p.p.Put(ctx, id, dt, b)
}

func (p *io29) Get(ctx context.Context, id []byte, dt io.DataType) ([]byte, error) {
	if err := p.m.enter(p.cur, "Get", ctx); err != nil {
		return nil, err
	}
	return p.p.Get(ctx, id, dt)
}

func (p *io29) Update(ctx context.Context, id []byte, dt io.DataType, b []byte) error {
	if err := p.m.enter(p.cur, "Update", ctx); err != nil {
		return err
	}
	return p.p.Update(ctx, id, dt, b)
}

func (p *io29) Delete(ctx context.Context, id []byte, dt io.DataType) error {
	if err := p.m.enter(p.cur, "Delete", ctx); err != nil {
		return err
	}
	return p.p.Delete(ctx, id, dt)
}

type ids29 struct {
	m   *monitor29
	cur *atomic.Pointer[call29]
	p   id.Provider
}

func (p *ids29) GetIdentity(ctx context.Context, token string) (id.Identity, error) {
	if err := p.m.enter(p.cur, "GetIdentity", ctx); err != nil {
		return id.Identity{}, err
	}
	return p.p.GetIdentity(ctx, token)
}

type keys29 struct {
	m   *monitor29
	cur *atomic.Pointer[call29]
	p   key.Provider
}

func (p *keys29) GetKeys(ctx context.Context) (key.Keys, error) {
	if err := p.m.enter(p.cur, "GetKeys", ctx); err != nil {
		return key.Keys{}, err
	}
	return p.p.GetKeys(ctx)
}

var kinds29 = []string{"plain", "with a value", "with a deadline", "with a timeout and values", "cancellable", "of an unknown kind", "without cancellation", "with a cause", "already cancelled", "with a deadline in the past"}

// context29 makes a context of a kind for the operation.
func context29(kind string, op *call29) (end func()) {
	base := context.WithValue(context.Background(), key29{}, op)
	end = func() {}
	switch kind {
	case "with a value":
		base = context.WithValue(base, other29("k"), "v")
	case "with a deadline":
		base, end = context.WithDeadline(base, time.Now().Add(time.Hour))
	case "with a timeout and values":
		base, end = context.WithTimeout(context.WithValue(base, other29("k"), "w"), 2*time.Hour)
		base = context.WithValue(base, other29("l"), 1)
	case "cancellable":
		base, end = context.WithCancel(base)
	case "of an unknown kind":
		o := &own29{Context: base, done: make(chan struct{})}
		base, end = o, o.end
	case "whose time runs out":
		o := &own29{Context: base, done: make(chan struct{}), late: true}
		base, end = o, o.end
	case "without cancellation":
		b, cancel := context.WithCancel(base)
		cancel()
		base = context.WithoutCancel(b)
	case "with a cause":
		b, cancel := context.WithCancelCause(base)
		base, end = b, func() { cancel(errors.New("a cause")) }
	case "already cancelled":
		b, cancel := context.WithCancel(base)
		cancel()
		base = b
	case "with a deadline in the past":
		base, end = context.WithDeadline(base, time.Now().Add(-time.Hour))
	}
	op.ctx = base
	return end
}

func c29World(m *monitor29, r *rand.Rand, i int, cur *atomic.Pointer[call29]) *world {
	return newWorld(r, kit.NewKeys(r), i%2 == 0,
		func(p io.Provider) io.Provider { return &io29{m, cur, p} },
		func(p id.Provider) id.Provider {
			if i%2 == 0 { // Standalone makes storage calls of its own
				return p
			}
			return &ids29{m, cur, p}
		})
}

// c29Contexts passes all kinds of contexts.
func c29Contexts(c *kit.C, m *monitor29, i int) {
	r := c.Rand("contexts", i)
	cur := &atomic.Pointer[call29]{}
	w := c29World(m, r, i, cur)
	for _, op := range w.ops() {
		for _, kind := range kinds29 {
			w.reset()
			x := &call29{name: op.part + " " + op.name + " (context " + kind + ")"}
			end := context29(kind, x)
			cur.Store(x)
			_, err := op.run(x.ctx)
			x.returned.Store(true)
			if err != nil && !strings.Contains(kind, "already") && !strings.Contains(kind, "past") {
				c.Violate("fails:"+op.name, "%s fails: %v", x.name, err)
			}
			if x.n.Load() == 0 && !strings.Contains(op.name, "Token") && err == nil {
				c.Violate("no-calls", "%s succeeded without any call to a provider", x.name)
			}
			end()
		}
	}
}

// c29Waiting lets a provider wait until the context ends.
func c29Waiting(c *kit.C, m *monitor29, i int) {
	r := c.Rand("waiting", i)
	cur := &atomic.Pointer[call29]{}
	w := c29World(m, r, i, cur)
	for _, op := range w.ops() {
		for at := 0; at < 30; at++ {
			w.reset()
			kind := kit.Pick(r, []string{"cancellable", "of an unknown kind", "with a cause", "whose time runs out", "whose time runs out"})
			x := &call29{name: op.part + " " + op.name + " (context " + kind + ", cancelled while a provider waits)"}
			end := context29(kind, x)
			hit, stuck := false, false
			var calls int
			x.at = func(n int, got context.Context) error {
				if n < at {
					return nil
				}
				if hit {
					calls++
					return got.Err()
				}
				hit = true
				end()
				select {
				case <-got.Done():
					return got.Err()
				case <-time.After(20 * time.Second):
					stuck = true
					c.Violate("cancellation", "%s: the context of call %d to a provider does not end when the caller's does", x.name, n)
					return context.Canceled
				}
			}
			cur.Store(x)
			_, err := op.run(x.ctx)
			x.returned.Store(true)
			end()
			if stuck { // and so would all others be
				return
			}
			if !hit {
				break
			}
			c.Count("cancelled", 1)
			c.Case("waiting", op.name, at, kind, i%2)
			if err == nil {
				c.Violate("ignored", "%s: it succeeded although call %d to a provider and all later ones were cancelled", x.name, at)
			} else if !errors.Is(err, x.ctx.Err()) && !isAuthn(err) {
				c.Violate("ignored", "%s: it failed with %v after call %d to a provider was cancelled", x.name, err, at)
			}
			if calls > 10 {
				c.Violate("goes-on", "%s: it made %d calls to providers after one had been cancelled", x.name, calls)
			}
		}
	}
}

// c29Timeouts lets providers fail with errors of contexts although that of the caller has not ended:
// whatever the operation does about it, it does with the caller's context.
func c29Timeouts(c *kit.C, m *monitor29, i int) {
	r := c.Rand("timeouts", i)
	cur := &atomic.Pointer[call29]{}
	w := c29World(m, r, i, cur)
	for _, op := range w.ops() {
		for at := 0; at < 30; at++ {
			w.reset()
			kind := kit.Pick(r, kinds29[:len(kinds29)-2])
			fault := kit.Pick(r, []error{context.DeadlineExceeded, context.Canceled, os.ErrDeadlineExceeded, fmt.Errorf("storage: %w", context.DeadlineExceeded), fmt.Errorf("storage: %w", context.Canceled)})
			x := &call29{name: fmt.Sprintf("%s %s (context %s, call %d to a provider fails: %v)", op.part, op.name, kind, at, fault)}
			end := context29(kind, x)
			hit := false
			x.at = func(n int, got context.Context) error {
				if n != at {
					return nil
				}
				hit = true
				return fault
			}
			cur.Store(x)
			_, err := op.run(x.ctx)
			x.returned.Store(true)
			end()
			if !hit {
				break
			}
			c.Case("timeout", op.name, at, kind, fault.Error(), i%2)
			if err != nil && !errors.Is(err, fault) && !isAuthn(err) {
				c.Violate("ignored", "%s: it failed with %v", x.name, err)
			}
		}
	}
}

// c29Tokens: the Identity Provider sees the caller's token as it is, in each call.
func c29Tokens(c *kit.C, i int) {
	r := c.Rand("tokens", i)
	var mu sync.Mutex
	var seen []string
	w := newWorld(r, kit.NewKeys(r), false, nil, func(p id.Provider) id.Provider {
		return idFunc(func(ctx context.Context, token string) (id.Identity, error) {
			mu.Lock()
			seen = append(seen, token)
			mu.Unlock()
			return id.Identity{ID: w0(token), Scopes: id.ScopeAll}, nil
		})
	})
	for n := 0; n < 60; n++ {
		tok := kit.String(r)
		switch r.IntN(6) {
		case 0:
			tok = ""
		case 1:
			tok = strings.Repeat("long", 1+r.IntN(30000))
		case 2:
			tok = " " + tok + "\n"
		case 3:
			tok = "Bearer " + tok
		}
		check := func(name string, run func() error) {
			mu.Lock()
			seen = nil
			mu.Unlock()
			err := run()
			c.Count("tokens", 1)
			c.Case("token", name, len(tok), i, n)
			mu.Lock()
			defer mu.Unlock()
			if len(seen) == 0 {
				c.Violate("no-identity", "%s with the token %.40q ended with %v without asking the Identity Provider", name, tok, err)
			}
			for _, s := range seen {
				if s != tok {
					c.Violate("token", "%s with the token %.40q (%d bytes) asked the Identity Provider for %.40q (%d bytes)", name, tok, len(tok), s, len(s))
				}
			}
		}
		check("Encrypt", func() error { _, err := w.d.Encrypt(ctx, tok, obj([]byte("x"), nil)); return err })
		for _, op := range objectOps {
			check(op.name, func() error { _, err := op.run(w.d, tok, w.oid); return err })
		}
		check("Add", func() error { return w.ix.Add(ctx, tok, "kw"+fmt.Sprint(n), "x") })
		check("Search", func() error { _, err := w.ix.Search(ctx, tok, "kw"); return err })
		check("index Delete", func() error { return w.ix.Delete(ctx, tok, "kw", "x") })
	}
}

func w0(token string) string { return "user of " + token }

type idFunc func(ctx context.Context, token string) (id.Identity, error)

func (f idFunc) GetIdentity(ctx context.Context, token string) (id.Identity, error) {
	return f(ctx, token)
}

// c29Constructors: constructors pass on their context, too.
func c29Constructors(c *kit.C, m *monitor29, i int) {
	r := c.Rand("constructors", i)
	for _, kind := range kinds29 {
		for n, name := range []string{"New", "NewSecureIndex"} {
			cur := &atomic.Pointer[call29]{}
			x := &call29{name: name + " (context " + kind + ")"}
			end := context29(kind, x)
			cur.Store(x)
			kp := &keys29{m, cur, &kit.KeyProvider{K: kit.NewKeys(r).D1}}
			st, ids := &io29{m, cur, kit.NewStore()}, &ids29{m, cur, kit.NewIDs()}
			var err error
			if n == 0 {
				_, err = d1.New(x.ctx, kp, st, ids)
			} else {
				_, err = index.NewSecureIndex(x.ctx, kp, st, ids)
			}
			x.returned.Store(true)
			end()
			if err == nil && x.n.Load() == 0 {
				c.Violate("no-calls", "%s succeeded without asking the Key Provider", x.name)
			}
			if err != nil && !strings.Contains(kind, "already") && !strings.Contains(kind, "past") {
				c.Violate("fails:"+name, "%s fails: %v", x.name, err)
			}
		}
	}
}

var created29 = regexp.MustCompile(`(?m)^created by (github\.com/cybercryptio/d1-lib/\S+)`)

// c29Left looks for goroutines that the library started and that are still there.
func c29Left(c *kit.C) {
	var left []string
	(&monitor29{c: c}).within(30*time.Second, func() bool {
		buf := make([]byte, 64<<20)
		buf = buf[:runtime.Stack(buf, true)]
		left = nil
		for _, m := range created29.FindAllSubmatch(buf, -1) {
			left = append(left, string(m[1]))
		}
		return len(left) == 0
	})
	if len(left) > 0 {
		c.Violate("left", "%d goroutines started by the library go on after all calls have returned: %.300q", len(left), left)
	}
}
