package kit

import (
	"context"
	"fmt"
	"sync/atomic"
	"time"

	"github.com/cybercryptio/d1-lib/v2/io"
)

// Sched runs operations concurrently and decides the order of all their storage calls.
type Sched struct {
	under io.Provider
	ready chan arrival
	// Trace tells which operation made each storage call, e.g. "aabba".
	Trace []byte
	// Calls describes the calls.
	Calls []string
	// Log has the same calls with their results. It is complete after Run.
	Log []*Call
}

// Call is a storage call of a scheduled operation.
type Call struct {
	Op     int
	Kind   string
	Record string
	Err    error
}

// Stale lists the operations whose change of a record was overwritten (or deleted) by an operation that
// last read the record before that change: overwritten to overwriting ones. A deletion cannot be
// overwritten: only writing a new record brings the old contents back, which nothing in the library does.
func (s *Sched) Stale() map[int][]int {
	out := map[int][]int{}
	type or struct {
		op  int
		rec string
	}
	read, wrote := map[or]int{}, map[or]int{}
	for i, c := range s.Log {
		if c.Kind == "Get" {
			read[or{c.Op, c.Record}] = i
			continue
		}
		if c.Err != nil {
			continue
		}
		for w, at := range wrote {
			r, ok := read[or{c.Op, c.Record}]
			if w.rec == c.Record && w.op != c.Op && ok && r < at && s.Log[at].Kind != "Delete" {
				out[w.op] = append(out[w.op], c.Op)
			}
		}
		wrote[or{c.Op, c.Record}] = i
	}
	return out
}

// hung tells that operations of an earlier run did not end.
var hung atomic.Bool

type arrival struct {
	op   int
	done bool
	call *Call
	go_  chan struct{}
}

type opKey struct{}

// OpOf returns the number of the scheduled operation that the context belongs to, or 0.
func OpOf(ctx context.Context) int {
	op, _ := ctx.Value(opKey{}).(int)
	return op
}

// NewSched makes a scheduler in front of a provider. It is used for one run.
func NewSched(under io.Provider) *Sched {
	return &Sched{under: under, ready: make(chan arrival)}
}

// wait blocks a storage call of a scheduled operation until it is its turn. Other calls go through.
func (s *Sched) wait(ctx context.Context, what string, id []byte, dt io.DataType) *Call {
	op, ok := ctx.Value(opKey{}).(int)
	c := &Call{Op: op, Kind: what, Record: fmt.Sprintf("%.6x,%d", id, dt)}
	if !ok {
		return c
	}
	turn := make(chan struct{})
	s.ready <- arrival{op: op, call: c, go_: turn}
	<-turn
	return c
}

func (s *Sched) Put(ctx context.Context, id []byte, dt io.DataType, b []byte) error {
	c := s.wait(ctx, "Put", id, dt)
	c.Err = s.under.Put(ctx, id, dt, b)
	return c.Err
}

func (s *Sched) Update(ctx context.Context, id []byte, dt io.DataType, b []byte) error {
	c := s.wait(ctx, "Update", id, dt)
	c.Err = s.under.Update(ctx, id, dt, b)
	return c.Err
}

func (s *Sched) Get(ctx context.Context, id []byte, dt io.DataType) ([]byte, error) {
	c := s.wait(ctx, "Get", id, dt)
	b, err := s.under.Get(ctx, id, dt)
	c.Err = err
	return b, err
}

func (s *Sched) Delete(ctx context.Context, id []byte, dt io.DataType) error {
	c := s.wait(ctx, "Delete", id, dt)
	c.Err = s.under.Delete(ctx, id, dt)
	return c.Err
}

// Run runs the operations. Whenever at least one waits at a storage call, choose picks among those
// that wait; alive tells how many operations have not ended. It returns false if the operations hang.
//
// An operation that neither reaches storage nor ends within a moment is taken to wait for another one,
// which then goes on first. This affects the order only.
func (s *Sched) Run(ops []func(ctx context.Context), choose func(waiting []int, alive int) int) bool {
	for i, op := range ops {
		ctx := context.WithValue(Ctx, opKey{}, i)
		go func() {
			defer func() { s.ready <- arrival{op: i, done: true} }()
			op(ctx)
		}()
	}
	running, alive := len(ops), len(ops)
	waiting := map[int]arrival{}
	patience := 200 * time.Millisecond
	for alive > 0 {
		for running > 0 {
			limit := patience
			if len(waiting) == 0 {
				limit = 60 * time.Second
				if hung.Load() {
					limit = 2 * time.Second // it is a violation already; do not wait as long for more
				}
			}
			timer := time.NewTimer(limit)
			stuck := false
			select {
			case a := <-s.ready:
				running--
				if a.done {
					alive--
				} else {
					waiting[a.op] = a
				}
			case <-timer.C:
				stuck = true
			}
			timer.Stop()
			if stuck {
				if len(waiting) == 0 {
					hung.Store(true)
					return false
				}
				patience = 2 * time.Millisecond // the rest of this run need not wait as long
				break
			}
		}
		if alive == 0 {
			break
		}
		if len(waiting) == 0 {
			continue
		}
		var list []int
		for i := range ops {
			if _, ok := waiting[i]; ok {
				list = append(list, i)
			}
		}
		i := choose(list, alive)
		a := waiting[i]
		delete(waiting, i)
		s.Trace = append(s.Trace, byte('a'+i))
		s.Calls = append(s.Calls, fmt.Sprintf("%c:%s(%s)", 'a'+i, a.call.Kind, a.call.Record))
		s.Log = append(s.Log, a.call)
		running++
		close(a.go_)
	}
	return true
}

// View is the provider for operation op, also where the library does not pass on the context.
func (s *Sched) View(op int) io.Provider { return &view{s, op} }

type view struct {
	*Sched
	op int
}

func (v *view) with(ctx context.Context) context.Context {
	return context.WithValue(ctx, opKey{}, v.op)
}

func (v *view) Put(ctx context.Context, id []byte, dt io.DataType, b []byte) error {
	return v.Sched.Put(v.with(ctx), id, dt, b)
}

func (v *view) Update(ctx context.Context, id []byte, dt io.DataType, b []byte) error {
	return v.Sched.Update(v.with(ctx), id, dt, b)
}

func (v *view) Get(ctx context.Context, id []byte, dt io.DataType) ([]byte, error) {
	return v.Sched.Get(v.with(ctx), id, dt)
}

func (v *view) Delete(ctx context.Context, id []byte, dt io.DataType) error {
	return v.Sched.Delete(v.with(ctx), id, dt)
}
