package checks

import (
	"bytes"
	"fmt"
	"runtime/debug"

	"github.com/gofrs/uuid"

	d1 "github.com/cybercryptio/d1-lib/v2"
	"github.com/cybercryptio/d1-lib/v2/data"
	"github.com/cybercryptio/d1-lib/v2/id"

	"verif/harness/kit"
)

// objectOp is an operation on an existing object.
type objectOp struct {
	name  string
	scope id.Scope
	// run calls the operation. It returns a description of anything else than an error that the caller
	// received, empty if nothing.
	run func(d *d1.D1, tok string, oid uuid.UUID) (got string, err error)
}

const newPlain, newAD = "new plaintext", "new associated data"

var objectOps = []objectOp{
	{"Decrypt", id.ScopeDecrypt, func(d *d1.D1, tok string, oid uuid.UUID) (string, error) {
		o, err := d.Decrypt(ctx, tok, oid)
		return gotObj(o), err
	}},
	{"Update", id.ScopeUpdate, func(d *d1.D1, tok string, oid uuid.UUID) (string, error) {
		return "", d.Update(ctx, tok, oid, obj([]byte(newPlain), []byte(newAD)))
	}},
	{"Delete", id.ScopeDelete, func(d *d1.D1, tok string, oid uuid.UUID) (string, error) {
		return "", d.Delete(ctx, tok, oid)
	}},
	{"GetAccessGroups", id.ScopeGetAccessGroups, func(d *d1.D1, tok string, oid uuid.UUID) (string, error) {
		g, err := d.GetAccessGroups(ctx, tok, oid)
		return gotSet(g), err
	}},
	{"AddGroupsToAccess", id.ScopeModifyAccessGroups, func(d *d1.D1, tok string, oid uuid.UUID) (string, error) {
		return "", d.AddGroupsToAccess(ctx, tok, oid, "added")
	}},
	{"RemoveGroupsFromAccess", id.ScopeModifyAccessGroups, func(d *d1.D1, tok string, oid uuid.UUID) (string, error) {
		return "", d.RemoveGroupsFromAccess(ctx, tok, oid, "removable")
	}},
	{"AuthorizeIdentity", id.ScopeGetAccessGroups, func(d *d1.D1, tok string, oid uuid.UUID) (string, error) {
		return "", d.AuthorizeIdentity(ctx, tok, oid)
	}},
}

func gotObj(o data.Object) string {
	if o.Plaintext == nil && o.AssociatedData == nil {
		return ""
	}
	return fmt.Sprintf("object %q %q", o.Plaintext, o.AssociatedData)
}

func gotSet(g map[string]struct{}) string {
	if g == nil {
		return ""
	}
	return fmt.Sprintf("groups %q", keysOf(g))
}

const oldPlain, oldAD = "old plaintext", "old associated data"

// expectAfter checks the effect of an operation on an object made by the owner with oldPlain, oldAD
// and the groups, who has all scopes. ok tells whether the operation was to succeed.
func expectAfter(op objectOp, ok bool, got string, d *d1.D1, owner string, oid uuid.UUID, groups map[string]struct{}) string {
	p, ad := oldPlain, oldAD
	want := copySet(groups)
	deleted := false
	if ok {
		switch op.name {
		case "Decrypt":
			if got != gotObj(data.Object{Plaintext: []byte(p), AssociatedData: []byte(ad)}) {
				return "it returned " + got
			}
		case "Update":
			p, ad = newPlain, newAD
		case "Delete":
			deleted = true
		case "GetAccessGroups":
			if got != gotSet(groups) {
				return fmt.Sprintf("it returned %s instead of %s", got, gotSet(groups))
			}
		case "AddGroupsToAccess":
			want["added"] = struct{}{}
		case "RemoveGroupsFromAccess":
			delete(want, "removable")
		}
	}
	o, err := d.Decrypt(ctx, owner, oid)
	if deleted {
		if err == nil {
			return "the object is still there"
		}
		return ""
	}
	if err != nil || !bytes.Equal(o.Plaintext, []byte(p)) || !bytes.Equal(o.AssociatedData, []byte(ad)) {
		return fmt.Sprintf("afterwards the owner's Decrypt returned %s, %v", gotObj(o), err)
	}
	g, err := d.GetAccessGroups(ctx, owner, oid)
	if err != nil || !sameSet(g, want) {
		return fmt.Sprintf("afterwards the access list is %q, %v; expected %q", keysOf(g), err, keysOf(want))
	}
	return ""
}

var bitScopes = []id.Scope{id.ScopeEncrypt, id.ScopeDecrypt, id.ScopeUpdate, id.ScopeDelete, id.ScopeCreateToken, id.ScopeGetTokenContents,
	id.ScopeGetAccessGroups, id.ScopeModifyAccessGroups, id.ScopeIndex}

func scopeText(s id.Scope) string {
	out := ""
	for i, b := range bitScopes {
		if s&b != 0 {
			out += "+" + bitScopes[i].String()
			s &^= b
		}
	}
	if s != 0 {
		out += fmt.Sprintf("+%#x", uint64(s))
	}
	if out == "" {
		return "none"
	}
	return out
}

// mkObject makes an object by the owner and returns its ID and access list.
func mkObject(d *d1.D1, owner string, ownerID string, groups ...string) (uuid.UUID, map[string]struct{}) {
	oid, err := d.Encrypt(ctx, owner, obj([]byte(oldPlain), []byte(oldAD)), groups...)
	if err != nil {
		panic(libraryError{fmt.Sprintf("Encrypt by an authorized caller failed: %v", err)})
	}
	return oid, set(append(append([]string{}, groups...), ownerID)...)
}

// libraryError is panicked with where the library fails in the preparation of a case.
type libraryError = kit.LibraryError

// prep runs f and turns a libraryError into a violation.
func prep(c *kit.C, f func()) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(libraryError); ok {
				c.Violate("setup-failed", "%s\n%s", e.Msg, debug.Stack())
				return
			}
			panic(r)
		}
	}()
	f()
}

func must[T any](v T, err error) T {
	if err != nil {
		panic(libraryError{fmt.Sprintf("a call that must succeed failed: %v", err)})
	}
	return v
}

func must0(err error) {
	if err != nil {
		panic(libraryError{fmt.Sprintf("a call that must succeed failed: %v", err)})
	}
}

func must2[A, B any](a A, b B, err error) (A, B) {
	if err != nil {
		panic(libraryError{fmt.Sprintf("a call that must succeed failed: %v", err)})
	}
	return a, b
}
