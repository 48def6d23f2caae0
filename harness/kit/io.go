package kit

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"sort"
	"strings"
	"sync"

	"github.com/cybercryptio/d1-lib/v2/id"
	"github.com/cybercryptio/d1-lib/v2/io"
)

// Store is the harness's own IO Provider: a plain map that follows the interface's documentation
// and shares no memory with its callers.
type Store struct {
	mu sync.Mutex
	m  map[string]string
}

func NewStore() *Store { return &Store{m: map[string]string{}} }

func storeKey(id []byte, dt io.DataType) string { return fmt.Sprintf("%d/%x", dt, id) }

func (s *Store) Put(_ context.Context, id []byte, dt io.DataType, data []byte) error {
	s.mu.Lock()
	defer s.mu.Unlock()
	k := storeKey(id, dt)
	if _, ok := s.m[k]; ok {
		return io.ErrAlreadyExists
	}
	s.m[k] = string(data)
	return nil
}

func (s *Store) Get(_ context.Context, id []byte, dt io.DataType) ([]byte, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	v, ok := s.m[storeKey(id, dt)]
	if !ok {
		return nil, io.ErrNotFound
	}
	return []byte(v), nil
}

func (s *Store) Update(_ context.Context, id []byte, dt io.DataType, data []byte) error {
	s.mu.Lock()
	defer s.mu.Unlock()
	k := storeKey(id, dt)
	if _, ok := s.m[k]; !ok {
		return io.ErrNotFound
	}
	s.m[k] = string(data)
	return nil
}

func (s *Store) Delete(_ context.Context, id []byte, dt io.DataType) error {
	s.mu.Lock()
	defer s.mu.Unlock()
	delete(s.m, storeKey(id, dt))
	return nil
}

// Snapshot copies the contents.
func (s *Store) Snapshot() map[string]string {
	s.mu.Lock()
	defer s.mu.Unlock()
	out := make(map[string]string, len(s.m))
	for k, v := range s.m {
		out[k] = v
	}
	return out
}

// Restore replaces the contents by a snapshot.
func (s *Store) Restore(snap map[string]string) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.m = make(map[string]string, len(snap))
	for k, v := range snap {
		s.m[k] = v
	}
}

// Clone returns an independent copy.
func (s *Store) Clone() *Store { return &Store{m: s.Snapshot()} }

// Set and Raw access single records directly, the way somebody in control of storage does.
func (s *Store) Set(id []byte, dt io.DataType, data []byte) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.m[storeKey(id, dt)] = string(data)
}

func (s *Store) Raw(id []byte, dt io.DataType) ([]byte, bool) {
	s.mu.Lock()
	defer s.mu.Unlock()
	v, ok := s.m[storeKey(id, dt)]
	return []byte(v), ok
}

func (s *Store) Remove(id []byte, dt io.DataType) {
	s.mu.Lock()
	defer s.mu.Unlock()
	delete(s.m, storeKey(id, dt))
}

func (s *Store) Len() int {
	s.mu.Lock()
	defer s.mu.Unlock()
	return len(s.m)
}

// SameContents compares two snapshots.
func SameContents(a, b map[string]string) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if w, ok := b[k]; !ok || w != v {
			return false
		}
	}
	return true
}

// DiffContents describes how two snapshots differ.
func DiffContents(a, b map[string]string) string {
	var out []string
	for k := range a {
		if w, ok := b[k]; !ok {
			out = append(out, "removed "+k)
		} else if w != a[k] {
			out = append(out, "changed "+k)
		}
	}
	for k := range b {
		if _, ok := a[k]; !ok {
			out = append(out, "added "+k)
		}
	}
	sort.Strings(out)
	return strings.Join(out, ", ")
}

// Event is one call arriving at an IO Provider.
type Event struct {
	N    int // number of the call, from 0
	Op   string
	ID   []byte
	Type io.DataType
	Data []byte // written or returned
	Err  error
}

func (e Event) IsWrite() bool { return e.Op != "Get" }

func (e Event) String() string {
	return fmt.Sprintf("#%d %s(%x, type %d, %d bytes)=%v", e.N, e.Op, e.ID, e.Type, len(e.Data), e.Err)
}

// Fault says what happens to a call.
type Fault int

const (
	None   Fault = iota
	Before       // the call fails without effect
	After        // the call takes effect but reports a failure
)

// ErrInjected is what failing calls return.
var ErrInjected = errors.New("injected storage failure")

// Tap is an IO Provider that records the calls to another one and can make them fail.
type Tap struct {
	Under  io.Provider
	Record bool
	Hook   func(e Event) Fault
	// Err is what failing calls return; ErrInjected if nil.
	Err error
	// Alter changes what a Get returns.
	Alter func(e Event) []byte
	// Limit is the number of calls after which every further one fails; 0 is no limit.
	Limit int

	mu     sync.Mutex
	n      int
	events []Event
	over   bool
}

func NewTap(under io.Provider) *Tap { return &Tap{Under: under, Record: true} }

func (t *Tap) enter(op string, id []byte, dt io.DataType, data []byte) (Event, Fault) {
	t.mu.Lock()
	e := Event{N: t.n, Op: op, ID: bytes.Clone(id), Type: dt, Data: bytes.Clone(data)}
	t.n++
	if t.Limit > 0 && t.n > t.Limit {
		t.over = true
		t.mu.Unlock()
		return e, Before
	}
	hook := t.Hook
	t.mu.Unlock()
	if hook != nil {
		return e, hook(e)
	}
	return e, None
}

func (t *Tap) leave(e Event, err error) {
	if !t.Record {
		return
	}
	t.mu.Lock()
	e.Err = err
	t.events = append(t.events, e)
	t.mu.Unlock()
}

// Reset forgets all calls recorded so far.
func (t *Tap) Reset() {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.n, t.events, t.over = 0, nil, false
}

func (t *Tap) Events() []Event {
	t.mu.Lock()
	defer t.mu.Unlock()
	return append([]Event(nil), t.events...)
}

// Calls returns the number of calls since the last Reset.
func (t *Tap) Calls() int {
	t.mu.Lock()
	defer t.mu.Unlock()
	return t.n
}

// Over tells whether the limit of calls was exceeded.
func (t *Tap) Over() bool {
	t.mu.Lock()
	defer t.mu.Unlock()
	return t.over
}

func (t *Tap) failure() error {
	if t.Err != nil {
		return t.Err
	}
	return ErrInjected
}

func (t *Tap) write(op string, id []byte, dt io.DataType, data []byte, f func() error) error {
	e, fault := t.enter(op, id, dt, data)
	var err error
	if fault != Before {
		err = f()
	}
	if fault != None {
		err = t.failure()
	}
	t.leave(e, err)
	return err
}

func (t *Tap) Put(ctx context.Context, id []byte, dt io.DataType, data []byte) error {
	return t.write("Put", id, dt, data, func() error { return t.Under.Put(ctx, id, dt, data) })
}

func (t *Tap) Update(ctx context.Context, id []byte, dt io.DataType, data []byte) error {
	return t.write("Update", id, dt, data, func() error { return t.Under.Update(ctx, id, dt, data) })
}

func (t *Tap) Delete(ctx context.Context, id []byte, dt io.DataType) error {
	return t.write("Delete", id, dt, nil, func() error { return t.Under.Delete(ctx, id, dt) })
}

func (t *Tap) Get(ctx context.Context, id []byte, dt io.DataType) ([]byte, error) {
	e, fault := t.enter("Get", id, dt, nil)
	var out []byte
	err := t.failure()
	if fault == None {
		out, err = t.Under.Get(ctx, id, dt)
	}
	if t.Alter != nil && err == nil {
		e.Data = bytes.Clone(out)
		out = t.Alter(e)
	}
	e.Data = bytes.Clone(out)
	t.leave(e, err)
	if err != nil {
		return nil, err
	}
	return out, nil
}

// ErrNoSuchToken is what IDs returns for unknown tokens.
var ErrNoSuchToken = errors.New("no such token")

// IDs is an Identity Provider that knows what it is told.
type IDs struct {
	mu sync.Mutex
	m  map[string]func() (id.Identity, error)
}

func NewIDs() *IDs { return &IDs{m: map[string]func() (id.Identity, error){}} }

func (p *IDs) GetIdentity(_ context.Context, token string) (id.Identity, error) {
	p.mu.Lock()
	f := p.m[token]
	p.mu.Unlock()
	if f == nil {
		return id.Identity{}, ErrNoSuchToken
	}
	return f()
}

// Set makes the token stand for an identity.
func (p *IDs) Set(token string, ident id.Identity) {
	p.SetFunc(token, func() (id.Identity, error) {
		out := ident
		out.Groups = make(map[string]id.AccessGroup, len(ident.Groups))
		for k, v := range ident.Groups {
			out.Groups[k] = v
		}
		return out, nil
	})
}

func (p *IDs) SetFunc(token string, f func() (id.Identity, error)) {
	p.mu.Lock()
	defer p.mu.Unlock()
	p.m[token] = f
}

// User adds a user whose token is "t:"+uid.
func (p *IDs) User(uid string, scopes id.Scope, groups ...id.AccessGroup) string {
	g := map[string]id.AccessGroup{}
	for _, x := range groups {
		g[x.ID] = x
	}
	p.Set("t:"+uid, id.Identity{ID: uid, Scopes: scopes, Groups: g})
	return "t:" + uid
}
