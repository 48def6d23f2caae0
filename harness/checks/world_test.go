package checks

import (
	"context"
	"fmt"
	"math/rand/v2"

	"github.com/gofrs/uuid"

	d1 "github.com/cybercryptio/d1-lib/v2"
	"github.com/cybercryptio/d1-lib/v2/id"
	"github.com/cybercryptio/d1-lib/v2/index"
	"github.com/cybercryptio/d1-lib/v2/io"

	"verif/harness/kit"
)

// world is a storage with objects, an index, users and groups in it, and instances of all parts of the
// library. Its contents can be put back as they were, so that every operation can be tried in it.
type world struct {
	st      *kit.Store
	snap    map[string]string
	k       kit.Keys
	ids     *kit.IDs
	uid, pw string // a user of the Standalone ID Provider
	tok     string // the user's token
	tok2    string // of another user, who is in groups with it
	uid2    string
	gids    []string
	oid     uuid.UUID // owned by the user
	oid2    uuid.UUID // owned by the other one
	gone    uuid.UUID // deleted
	kws     []string
	entries words
	name    func(string) string // what a word is called
	// the instances under test
	d  *d1.D1
	ix *index.SecureIndex
	s  *id.Standalone
}

// newWorld makes the contents; the instances under test go through the wrappers (if not nil). With
// standalone, the objects and the index have the Standalone ID Provider, otherwise one of the harness that
// knows the same tokens. With naming, all words (keywords, identifiers, contents, access list entries) are called
// what it says.
func newWorld(r *rand.Rand, k kit.Keys, standalone bool, wrap func(io.Provider) io.Provider, wrapID func(id.Provider) id.Provider, naming ...func(string) string) *world {
	w := &world{st: kit.NewStore(), k: k, ids: kit.NewIDs(), entries: words{}, name: func(s string) string { return s }}
	if len(naming) > 0 {
		w.name = naming[0]
	}
	x := w.name
	w.kws = []string{x("apple"), x("pear"), x("plum")}
	s := kit.NewStandalone(k, w.st)
	w.uid, w.pw = must2(s.NewUser(ctx, id.ScopeAll))
	w.tok, _ = must2(s.LoginUser(ctx, w.uid, w.pw))
	var pw2 string
	w.uid2, pw2 = must2(s.NewUser(ctx, id.ScopeAll))
	w.tok2, _ = must2(s.LoginUser(ctx, w.uid2, pw2))
	for range 3 {
		w.gids = append(w.gids, must(s.NewGroup(ctx, w.tok, id.ScopeAll)))
	}
	must0(s.AddUserToGroups(ctx, w.tok, w.uid2, w.gids[0], w.gids[1]))
	for tok, uid := range map[string]string{w.tok: w.uid, w.tok2: w.uid2} {
		g := map[string]id.AccessGroup{}
		for i, x := range w.gids {
			if uid == w.uid || i < 2 {
				g[x] = id.AccessGroup{ID: x, Scopes: id.ScopeAll}
			}
		}
		w.ids.Set(tok, id.Identity{ID: uid, Scopes: id.ScopeAll, Groups: g})
	}
	d, ix := kit.NewD1(k, w.st, w.ids), kit.NewIndex(k, w.st, w.ids)
	w.oid = must(d.Encrypt(ctx, w.tok, obj([]byte(x("mine")), []byte("my ad")), w.gids[0], x("removable")))
	w.oid2 = must(d.Encrypt(ctx, w.tok2, obj([]byte(x("theirs")), []byte("their ad")), w.gids[1]))
	w.gone = must(d.Encrypt(ctx, w.tok, obj([]byte(x("gone")), nil)))
	must0(d.Delete(ctx, w.tok, w.gone))
	for _, e := range []string{"1", "2", "1", "3"} {
		must0(ix.Add(ctx, w.tok, x("apple"), x(e)))
		w.entries.add(x("apple"), x(e))
	}
	must0(ix.Add(ctx, w.tok, x("pear"), x("only")))
	w.entries.add(x("pear"), x("only"))
	// Keywords whose records have moved.
	for _, e := range []string{"1", "2", "3"} {
		must0(ix.Add(ctx, w.tok, x("fig"), x(e)))
		must0(ix.Add(ctx, w.tok, x("kiwi"), x(e)))
	}
	must0(ix.Delete(ctx, w.tok, x("fig"), x("2")))
	must0(ix.Delete(ctx, w.tok, x("kiwi"), x("1")))
	must0(ix.Delete(ctx, w.tok, x("kiwi"), x("2")))
	w.snap = w.st.Snapshot()
	var under io.Provider = w.st
	if wrap != nil {
		under = wrap(under)
	}
	w.s = kit.NewStandalone(k, under)
	var idp id.Provider = w.ids
	if standalone {
		idp = w.s
	}
	if wrapID != nil {
		idp = wrapID(idp)
	}
	w.d, w.ix = kit.NewD1(k, under, idp), kit.NewIndex(k, under, idp)
	return w
}

// reset puts the contents back.
func (w *world) reset() { w.st.Restore(w.snap) }

// worldOp is an operation in a world.
type worldOp struct {
	part, name string
	run        func(ctx context.Context) (got string, err error)
}

// ops lists the operations, all of which succeed if nothing is wrong.
func (w *world) ops() []worldOp {
	x := w.name
	return []worldOp{
		{"d1", "Encrypt", func(ctx context.Context) (string, error) {
			o, err := w.d.Encrypt(ctx, w.tok, obj([]byte(x("x")), nil), x("g"), w.gids[0])
			if o == uuid.Nil {
				return "", err
			}
			return "an ID", err
		}},
		{"d1", "Update", func(ctx context.Context) (string, error) {
			return "", w.d.Update(ctx, w.tok, w.oid, obj([]byte(x("new")), []byte("new")))
		}},
		{"d1", "Update as a member", func(ctx context.Context) (string, error) {
			return "", w.d.Update(ctx, w.tok2, w.oid, obj([]byte(x("new")), []byte("new")))
		}},
		{"d1", "Decrypt", func(ctx context.Context) (string, error) {
			o, err := w.d.Decrypt(ctx, w.tok, w.oid)
			return gotObj(o), err
		}},
		{"d1", "Decrypt as a member", func(ctx context.Context) (string, error) {
			o, err := w.d.Decrypt(ctx, w.tok, w.oid2)
			return gotObj(o), err
		}},
		{"d1", "Delete", func(ctx context.Context) (string, error) { return "", w.d.Delete(ctx, w.tok, w.oid) }},
		{"d1", "Delete again", func(ctx context.Context) (string, error) { return "", w.d.Delete(ctx, w.tok, w.gone) }},
		{"d1", "GetAccessGroups", func(ctx context.Context) (string, error) {
			g, err := w.d.GetAccessGroups(ctx, w.tok, w.oid)
			return gotSet(g), err
		}},
		{"d1", "AddGroupsToAccess", func(ctx context.Context) (string, error) {
			return "", w.d.AddGroupsToAccess(ctx, w.tok, w.oid, x("more"), w.gids[2])
		}},
		{"d1", "RemoveGroupsFromAccess", func(ctx context.Context) (string, error) {
			return "", w.d.RemoveGroupsFromAccess(ctx, w.tok, w.oid, x("removable"))
		}},
		{"d1", "AuthorizeIdentity", func(ctx context.Context) (string, error) { return "", w.d.AuthorizeIdentity(ctx, w.tok2, w.oid) }},
		{"d1", "CreateToken and GetTokenContents", func(ctx context.Context) (string, error) {
			t, err := w.d.CreateToken(ctx, []byte(x("contents")))
			if err != nil {
				return "", err
			}
			b, err := w.d.GetTokenContents(ctx, &t)
			return string(b), err
		}},
		{"index", "Add", func(ctx context.Context) (string, error) { return "", w.ix.Add(ctx, w.tok, x("apple"), x("4")) }},
		{"index", "Add the first", func(ctx context.Context) (string, error) { return "", w.ix.Add(ctx, w.tok, x("plum"), x("1")) }},
		{"index", "Search", func(ctx context.Context) (string, error) {
			l, err := w.ix.Search(ctx, w.tok, x("apple"))
			if l == nil {
				return "", err
			}
			return fmt.Sprintf("%q", l), err
		}},
		{"index", "Search for nothing", func(ctx context.Context) (string, error) {
			l, err := w.ix.Search(ctx, w.tok, x("plum"))
			if l == nil {
				return "", err
			}
			return fmt.Sprintf("%q", l), err
		}},
		{"index", "Delete", func(ctx context.Context) (string, error) { return "", w.ix.Delete(ctx, w.tok, x("apple"), x("1")) }},
		{"index", "Delete the last", func(ctx context.Context) (string, error) { return "", w.ix.Delete(ctx, w.tok, x("apple"), x("3")) }},
		{"index", "Add after a deletion", func(ctx context.Context) (string, error) { return "", w.ix.Add(ctx, w.tok, x("fig"), x("4")) }},
		{"index", "Delete one that moved", func(ctx context.Context) (string, error) { return "", w.ix.Delete(ctx, w.tok, x("fig"), x("3")) }},
		{"index", "Delete the only one, which moved", func(ctx context.Context) (string, error) { return "", w.ix.Delete(ctx, w.tok, x("kiwi"), x("3")) }},
		{"index", "Delete the only one", func(ctx context.Context) (string, error) { return "", w.ix.Delete(ctx, w.tok, x("pear"), x("only")) }},
		{"index", "Delete nothing", func(ctx context.Context) (string, error) { return "", w.ix.Delete(ctx, w.tok, x("apple"), x("none")) }},
		{"id", "GetIdentity", func(ctx context.Context) (string, error) {
			i, err := w.s.GetIdentity(ctx, w.tok)
			if i.ID == "" && i.Groups == nil && i.Scopes == 0 {
				return "", err
			}
			return fmt.Sprintf("%q %v %q", i.ID, i.Scopes, keysOf(i.Groups)), err
		}},
		{"id", "NewUser", func(ctx context.Context) (string, error) {
			u, p, err := w.s.NewUser(ctx, id.ScopeDecrypt)
			if u == "" && p == "" {
				return "", err
			}
			return "a user", err
		}},
		{"id", "LoginUser", func(ctx context.Context) (string, error) {
			t, e, err := w.s.LoginUser(ctx, w.uid, w.pw)
			if t == "" && e == 0 {
				return "", err
			}
			return "a token", err
		}},
		{"id", "ChangeUserPassword", func(ctx context.Context) (string, error) {
			p, err := w.s.ChangeUserPassword(ctx, w.uid, w.pw)
			if p == "" {
				return "", err
			}
			return "a password", err
		}},
		{"id", "AddUserToGroups", func(ctx context.Context) (string, error) {
			return "", w.s.AddUserToGroups(ctx, w.tok, w.uid2, w.gids[1:]...)
		}},
		{"id", "AddUserToGroups itself", func(ctx context.Context) (string, error) {
			return "", w.s.AddUserToGroups(ctx, w.tok, w.uid, w.gids[0])
		}},
		{"id", "RemoveUserFromGroups", func(ctx context.Context) (string, error) {
			return "", w.s.RemoveUserFromGroups(ctx, w.tok, w.uid2, w.gids...)
		}},
		{"id", "NewGroup", func(ctx context.Context) (string, error) {
			g, err := w.s.NewGroup(ctx, w.tok2, id.ScopeDecrypt)
			if g == "" {
				return "", err
			}
			return "a group", err
		}},
		{"id", "DeleteUser", func(ctx context.Context) (string, error) { return "", w.s.DeleteUser(ctx, w.tok, w.uid2) }},
	}
}
