package checks

import (
	"context"
	"errors"
	"fmt"
	goio "io"
	"io/fs"
	"math/rand/v2"
	"os"

	"verif/harness/kit"
)

// failures are errors that storage may return; none of them is one of the IO Provider's documented ones.
var failures = []error{
	kit.ErrInjected, context.Canceled, context.DeadlineExceeded, goio.EOF, goio.ErrUnexpectedEOF, os.ErrNotExist, os.ErrExist, fs.ErrPermission,
	errors.New("not found"), errors.New("already exists"), fmt.Errorf("storage: %w", os.ErrClosed), errors.New(""), &fs.PathError{Op: "write", Path: "x", Err: os.ErrNotExist},
}

// faultMode is a way in which storage fails, counted from one of its calls.
type faultMode struct {
	name string
	// at tells what becomes of the i-th call (of those to which it applies) since the first failing one.
	at func(i int) kit.Fault
	// ops are the kinds of calls that it applies to; all if empty. Others work.
	ops []string
	// cancel cancels the caller's context at the first call; failing calls report that.
	cancel bool
}

func once(f kit.Fault) func(int) kit.Fault {
	return func(i int) kit.Fault {
		if i == 0 {
			return f
		}
		return kit.None
	}
}

func onwards(first kit.Fault) func(int) kit.Fault {
	return func(i int) kit.Fault {
		if i == 0 {
			return first
		}
		return kit.Before
	}
}

func just(calls ...int) func(int) kit.Fault {
	return func(i int) kit.Fault {
		for _, c := range calls {
			if c == i {
				return kit.Before
			}
		}
		return kit.None
	}
}

var faultModes = []faultMode{
	{name: "fails once", at: once(kit.Before)},
	{name: "fails once after taking effect", at: once(kit.After)},
	{name: "fails from there on", at: onwards(kit.Before)},
	{name: "takes effect, then nothing works", at: onwards(kit.After)},
	{name: "has no space from there on", at: onwards(kit.Before), ops: []string{"Put", "Update"}},
	{name: "cannot write from there on", at: onwards(kit.Before), ops: []string{"Put", "Update", "Delete"}},
	{name: "cannot read from there on", at: onwards(kit.Before), ops: []string{"Get"}},
	{name: "cannot delete from there on", at: onwards(kit.Before), ops: []string{"Delete"}},
	{name: "fails twice", at: just(0, 1)},
	{name: "fails, works, fails", at: just(0, 2)},
	{name: "cancels the context", at: once(kit.None), cancel: true},
	{name: "works, but all later calls find the context cancelled", at: onwards(kit.None), cancel: true},
	{name: "finds the context cancelled", at: onwards(kit.Before), cancel: true},
	{name: "takes effect, but finds the context cancelled", at: onwards(kit.After), cancel: true},
}

// faultAt makes the n-th call of the tap fail (the first one from there that the mode applies to), with
// the given error. It returns the context for the operation; hit is set when the call is made.
func faultAt(ctx context.Context, tap *kit.Tap, n int, m faultMode, failure error, hit *bool) (context.Context, context.CancelFunc) {
	cctx, cancel := context.WithCancel(ctx)
	tap.Reset()
	tap.Err = failure
	if m.cancel {
		tap.Err = context.Canceled
	}
	since := 0
	tap.Hook = func(e kit.Event) kit.Fault {
		if e.N < n {
			return kit.None
		}
		applies := len(m.ops) == 0
		for _, op := range m.ops {
			applies = applies || op == e.Op
		}
		if !applies {
			return kit.None
		}
		*hit = true
		if m.cancel {
			cancel()
		}
		since++
		return m.at(since - 1)
	}
	return cctx, cancel
}

// hits tells what an injected fault did.
type hits struct {
	what  string
	hit   bool // a call failed
	wrote bool // a write took effect
}

// faultIn makes the coming operation fail in some way at one of its first calls.
func faultIn(r *rand.Rand, tap *kit.Tap, first int) (*hits, context.Context, context.CancelFunc) {
	mode, n := faultModes[r.IntN(len(faultModes))], r.IntN(first)
	h := &hits{what: fmt.Sprintf("%s at call %d", mode.name, n)}
	fctx, cancel := faultAt(ctx, tap, n, mode, failures[r.IntN(len(failures))], &h.hit)
	hook := tap.Hook
	tap.Hook = func(e kit.Event) kit.Fault {
		f := hook(e)
		h.wrote = h.wrote || e.IsWrite() && f != kit.Before
		return f
	}
	return h, fctx, cancel
}

func noFaults(tap *kit.Tap) { tap.Hook, tap.Err = nil, nil }

// failureFor varies the error with the case.
func failureFor(n int, path string) error {
	h := uint(n)
	for _, b := range []byte(path) {
		h = h*31 + uint(b)
	}
	if h%3 == 0 {
		return kit.ErrInjected
	}
	return failures[h/3%uint(len(failures))]
}
