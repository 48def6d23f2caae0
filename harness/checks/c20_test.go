package checks

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"runtime"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/gofrs/uuid"
	"github.com/rs/zerolog"

	d1 "github.com/cybercryptio/d1-lib/v2"
	"github.com/cybercryptio/d1-lib/v2/crypto"
	"github.com/cybercryptio/d1-lib/v2/data"
	"github.com/cybercryptio/d1-lib/v2/id"
	"github.com/cybercryptio/d1-lib/v2/index"
	"github.com/cybercryptio/d1-lib/v2/io"
	"github.com/cybercryptio/d1-lib/v2/key"

	"verif/harness/kit"
)

// C20: one instance can be used concurrently without races or cross-talk. The check is compiled with
// the race detector, whose reports kit.Run turns into violations.
func TestC20(t *testing.T) {
	kit.Run(t, "C20", "exploration", "An evaluation is one call made while others run, whose result is compared with what it would be alone; the race detector watches all memory accesses. Non-trivial: distinct (part of the library, provider, goroutine, step of its history).", func(c *kit.C) {
		for i := 0; i < c.N(9, 90) && !c.Full(); i++ {
			prep(c, func() { c20Objects(c, i) })
			prep(c, func() { c20Index(c, i) })
			prep(c, func() { c20Providers(c, i) })
			prep(c, func() { c20Primitives(c, i) })
			if i%3 == 0 {
				prep(c, func() { c20Standalone(c, i) })
			}
		}
		c.Require("concurrent_calls", 5000)
		c.Require("overlapping_calls", 1000)
		c.Assume("The race detector only sees races between accesses that were not ordered by synchronisation in the runs made.")
	})
}

const workers20 = 8

// lines20 is a log that many calls write to.
type lines20 struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (l *lines20) Write(p []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.b.Write(p)
}

// fixedIDs is an Identity Provider without locks, which hands out the same maps all the time.
type fixedIDs map[string]id.Identity

func (f fixedIDs) GetIdentity(_ context.Context, tok string) (id.Identity, error) {
	i, ok := f[tok]
	if !ok {
		return id.Identity{}, kit.ErrNoSuchToken
	}
	return i, nil
}

// swaying is a provider that gives way at random.
type swaying struct {
	io.Provider
	n atomic.Uint32
}

func (s *swaying) sway() {
	if v := s.n.Add(1) * 2654435761; v>>28 < 5 {
		runtime.Gosched()
	}
}

func (s *swaying) Get(ctx context.Context, id []byte, dt io.DataType) ([]byte, error) {
	s.sway()
	defer s.sway()
	return s.Provider.Get(ctx, id, dt)
}

func (s *swaying) Put(ctx context.Context, id []byte, dt io.DataType, b []byte) error {
	s.sway()
	defer s.sway()
	return s.Provider.Put(ctx, id, dt, b)
}

func (s *swaying) Update(ctx context.Context, id []byte, dt io.DataType, b []byte) error {
	s.sway()
	defer s.sway()
	return s.Provider.Update(ctx, id, dt, b)
}

// together runs f in several goroutines that start at the same time.
func together(c *kit.C, name string, f func(w int, call func(func()))) {
	var ready, wg sync.WaitGroup
	start := make(chan struct{})
	var inside atomic.Int64
	ready.Add(workers20)
	for w := 0; w < workers20; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			ready.Done()
			<-start
			var calls, overlaps int64
			call := func(g func()) {
				calls++
				if inside.Add(1) > 1 {
					overlaps++
				}
				g()
				inside.Add(-1)
			}
			c.Guard(name, func() { prep(c, func() { f(w, call) }) })
			c.Count("concurrent_calls", calls)
			c.Count("overlapping_calls", overlaps)
		}()
	}
	ready.Wait()
	close(start)
	wg.Wait()
}

// provider20 are the providers that the parts run over; the harness's own is left out, because its
// lock would order the calls.
var providers20 = []provider{{"mem", kit.NewMem}, {"proxy", kit.NewProxyOverMem}, {"bolt", kit.NewBolt}}

// spare makes a slice with unused capacity that nobody may write to.
func spare[T any](xs ...T) []T { return append(make([]T, 0, len(xs)+20), xs...) }

func logger20(l *lines20) context.Context {
	lg := zerolog.New(l).Level(zerolog.DebugLevel).With().Str("app", "shared").Str("more", "fields of the caller").Logger()
	return lg.WithContext(context.Background())
}

func c20Objects(c *kit.C, i int) {
	r := c.Rand("objects", i)
	p := providers20[i%len(providers20)]
	st := &swaying{Provider: p.make()}
	groups := map[string]id.AccessGroup{"all": {ID: "all", Scopes: id.ScopeAll}, "none": {ID: "none", Scopes: id.ScopeNone}}
	ids := fixedIDs{}
	for w := 0; w < workers20; w++ {
		ids[fmt.Sprint("t", w)] = id.Identity{ID: fmt.Sprint("user", w), Scopes: id.ScopeAll, Groups: groups}
	}
	ids["weak"] = id.Identity{ID: "weak", Scopes: id.ScopeNone, Groups: groups}
	ids["stranger"] = id.Identity{ID: "stranger", Scopes: id.ScopeAll}
	k := kit.NewKeys(r)
	d := kit.NewD1(k, st, ids)
	var lg lines20
	lctx := logger20(&lg)
	sharedGroups := spare("all", "extra")
	sharedObj := &data.Object{Plaintext: spare(kit.Bytes(r, 100)...), AssociatedData: spare(kit.Bytes(r, 30)...)}
	sharedText := spare(kit.Bytes(r, 50)...)
	sharedToken := must(d.CreateToken(ctx, sharedText))
	sharedOID := must(d.Encrypt(ctx, "t0", sharedObj, sharedGroups...))
	var owners sync.Map // object ID -> goroutine
	owners.Store(sharedOID.String(), -1)

	together(c, "objects", func(w int, call func(func())) {
		r := c.Rand("objects", i, w)
		tok, me := fmt.Sprint("t", w), fmt.Sprint("user", w)
		type object struct {
			oid   uuid.UUID
			p, ad []byte
			list  map[string]struct{}
		}
		var objs []*object
		bad := func(sig, format string, args ...any) {
			c.Violate("cross-talk:"+sig, "%s, goroutine %d: %s", p.name, w, fmt.Sprintf(format, args...))
		}
		for s := 0; s < 60; s++ {
			c.Case("objects", i, w, s)
			cx := lctx
			if r.IntN(4) == 0 {
				cx = ctx
			}
			n := r.IntN(14)
			if len(objs) == 0 && n > 4 {
				n = 0
			}
			var o *object
			if len(objs) > 0 {
				o = kit.Pick(r, objs)
			}
			switch n {
			case 0, 1:
				o := &object{p: kit.Content(r, 0), ad: kit.Content(r, 0), list: set(me, "all", "extra")}
				var err error
				call(func() { o.oid, err = d.Encrypt(cx, tok, obj(o.p, o.ad), sharedGroups...) })
				if err != nil {
					bad("Encrypt", "Encrypt failed: %v", err)
					return
				}
				if _, dup := owners.LoadOrStore(o.oid.String(), w); dup {
					bad("Encrypt", "the same object ID was given out twice")
				}
				objs = append(objs, o)
			case 2:
				o := &object{p: sharedObj.Plaintext, ad: sharedObj.AssociatedData, list: set(me, "all", "extra")}
				var err error
				call(func() { o.oid, err = d.Encrypt(cx, tok, sharedObj, sharedGroups...) })
				if err != nil {
					bad("Encrypt", "Encrypt of a shared object failed: %v", err)
					return
				}
				owners.Store(o.oid.String(), w)
				objs = append(objs, o)
			case 3:
				text := sharedText
				if r.IntN(2) == 0 {
					text = kit.Bytes(r, 40)
				}
				call(func() {
					t, err := d.CreateToken(cx, text)
					if err != nil {
						bad("CreateToken", "%v", err)
						return
					}
					got, err := d.GetTokenContents(cx, &t)
					if err != nil || !bytes.Equal(got, text) {
						bad("GetTokenContents", "got %x, %v instead of %x", got, err, text)
					}
				})
			case 4:
				call(func() {
					got, err := d.GetTokenContents(cx, &sharedToken)
					if err != nil || !bytes.Equal(got, sharedText) {
						bad("GetTokenContents", "of a shared token: got %x, %v", got, err)
					}
					o, err := d.Decrypt(cx, tok, sharedOID)
					if err != nil || !sameObj(o, sharedObj.Plaintext, sharedObj.AssociatedData) {
						bad("Decrypt", "of an object that all may read: got %s, %v", gotObj(o), err)
					}
				})
			case 5, 6:
				call(func() {
					got, err := d.Decrypt(cx, tok, o.oid)
					if err != nil || !sameObj(got, o.p, o.ad) {
						bad("Decrypt", "got %s, %v instead of %s", gotObj(got), err, showObj(o.p, o.ad))
					}
				})
			case 7:
				o.p, o.ad = kit.Content(r, 0), kit.Content(r, 0)
				in := obj(o.p, o.ad)
				if r.IntN(3) == 0 {
					o.p, o.ad, in = sharedObj.Plaintext, sharedObj.AssociatedData, sharedObj
				}
				call(func() {
					if err := d.Update(cx, tok, o.oid, in); err != nil {
						bad("Update", "%v", err)
					}
				})
			case 8:
				g := fmt.Sprint("g", r.IntN(4))
				call(func() {
					if err := d.AddGroupsToAccess(cx, tok, o.oid, g, "more"); err != nil {
						bad("AddGroupsToAccess", "%v", err)
					}
				})
				o.list[g], o.list["more"] = struct{}{}, struct{}{}
			case 9:
				g := fmt.Sprint("g", r.IntN(4))
				call(func() {
					if err := d.RemoveGroupsFromAccess(cx, tok, o.oid, g); err != nil {
						bad("RemoveGroupsFromAccess", "%v", err)
					}
				})
				delete(o.list, g)
			case 10:
				call(func() {
					got, err := d.GetAccessGroups(cx, tok, o.oid)
					if err != nil || !sameSet(got, o.list) {
						bad("GetAccessGroups", "got %q, %v instead of %q", keysOf(got), err, keysOf(o.list))
					}
				})
			case 11:
				call(func() {
					if err := d.AuthorizeIdentity(cx, tok, o.oid); err != nil {
						bad("AuthorizeIdentity", "%v", err)
					}
					if err := d.AuthorizeIdentity(cx, "stranger", o.oid); !errors.Is(err, d1.ErrNotAuthorized) {
						bad("AuthorizeIdentity", "a stranger got %v", err)
					}
				})
			case 12:
				call(func() {
					if got, err := d.Decrypt(cx, kit.Pick(r, []string{"weak", "stranger", "nobody"}), o.oid); err == nil {
						bad("Decrypt", "somebody without access got %s", gotObj(got))
					}
				})
			case 13:
				call(func() {
					if err := d.Delete(cx, tok, o.oid); err != nil {
						bad("Delete", "%v", err)
					}
					if got, err := d.Decrypt(cx, tok, o.oid); err == nil {
						bad("Delete", "the deleted object gives %s", gotObj(got))
					}
				})
				var rest []*object
				for _, x := range objs {
					if x != o {
						rest = append(rest, x)
					}
				}
				objs = rest
			}
		}
		for _, o := range objs {
			got, err := d.Decrypt(ctx, tok, o.oid)
			if err != nil || !sameObj(got, o.p, o.ad) {
				bad("end", "in the end an object gives %s, %v instead of %s", gotObj(got), err, showObj(o.p, o.ad))
			}
		}
	})
	c20Log(c, &lg, func(f map[string][]string) string {
		if len(f["uid"]) > 1 || len(f["oid"]) > 1 || len(f["method"]) > 1 || len(f["app"]) != 1 || len(f["more"]) != 1 {
			return "a field is there more than once, or one of the caller's fields is missing"
		}
		if len(f["uid"]) == 1 && len(f["oid"]) == 1 {
			w, known := owners.Load(f["oid"][0])
			u := f["uid"][0]
			if known && w != -1 && u != fmt.Sprint("user", w) && u != "weak" && u != "stranger" {
				return "the object belongs to another goroutine than the user"
			}
		}
		return ""
	})
}

// c20Log looks at all lines that concurrent calls have logged.
func c20Log(c *kit.C, l *lines20, check func(map[string][]string) string) {
	for _, line := range bytes.Split(l.b.Bytes(), []byte("\n")) {
		if len(line) == 0 {
			continue
		}
		c.Count("log_lines", 1)
		f, err := logFields(line)
		if err != nil {
			c.Violate("log-garbled", "concurrent calls logged a broken line: %q: %v", line, err)
			return
		}
		if what := check(f); what != "" {
			c.Violate("log-mixed", "%s: %s", what, line)
		}
	}
}

// logFields decodes a line, with repeated fields.
func logFields(line []byte) (map[string][]string, error) {
	dec := json.NewDecoder(bytes.NewReader(line))
	if t, err := dec.Token(); err != nil || t != json.Delim('{') {
		return nil, fmt.Errorf("no object: %v", err)
	}
	out := map[string][]string{}
	for dec.More() {
		k, err := dec.Token()
		if err != nil {
			return nil, err
		}
		var v any
		if err := dec.Decode(&v); err != nil {
			return nil, err
		}
		out[k.(string)] = append(out[k.(string)], fmt.Sprint(v))
	}
	if _, err := dec.Token(); err != nil {
		return nil, err
	}
	if dec.More() {
		return nil, errors.New("more than one object")
	}
	return out, nil
}

func c20Index(c *kit.C, i int) {
	r := c.Rand("index", i)
	p := providers20[(i+1)%len(providers20)]
	st := &swaying{Provider: p.make()}
	ids := fixedIDs{"weak": {ID: "weak"}}
	for w := 0; w < workers20; w++ {
		ids[fmt.Sprint("t", w)] = id.Identity{ID: fmt.Sprint("user", w), Scopes: id.ScopeIndex}
	}
	k := kit.NewKeys(r)
	ix := kit.NewIndex(k, st, ids)
	must0(ix.Add(ctx, "t0", "shared", "x"))
	must0(ix.Add(ctx, "t0", "shared", "y"))
	var lg lines20
	lctx := logger20(&lg)
	together(c, "index", func(w int, call func(func())) {
		r := c.Rand("index", i, w)
		m := words{}
		tok := fmt.Sprint("t", w)
		for s := 0; s < 50; s++ {
			c.Case("index", i, w, s)
			cx := lctx
			if r.IntN(3) == 0 {
				cx = ctx
			}
			kw := fmt.Sprintf("kw%d-%d", w, r.IntN(3))
			v := fmt.Sprint("id", r.IntN(4))
			switch r.IntN(6) {
			case 0, 1:
				call(func() {
					if err := ix.Add(cx, tok, kw, v); err != nil {
						c.Violate("cross-talk:Add", "%s, goroutine %d: Add failed: %v", p.name, w, err)
					}
				})
				m.add(kw, v)
			case 2:
				call(func() {
					if err := ix.Delete(cx, tok, kw, v); err != nil {
						c.Violate("cross-talk:index Delete", "%s, goroutine %d: Delete failed: %v", p.name, w, err)
					}
				})
				m.del(kw, v)
			case 3:
				call(func() {
					got, err := ix.Search(cx, tok, "shared")
					if err != nil || !sameStrings(got, []string{"x", "y"}) {
						c.Violate("cross-talk:Search", "%s, goroutine %d: a search for the common keyword gave %q, %v", p.name, w, got, err)
					}
					if _, err := ix.Search(cx, "weak", kw); !errors.Is(err, index.ErrNotAuthorized) {
						c.Violate("cross-talk:Search", "%s, goroutine %d: somebody without the scope got %v", p.name, w, err)
					}
				})
			default:
				call(func() {
					got, err := ix.Search(cx, tok, kw)
					if err != nil || !sameStrings(got, m[kw]) {
						c.Violate("cross-talk:Search", "%s, goroutine %d: Search gave %q, %v instead of %q", p.name, w, got, err, m[kw])
					}
				})
			}
		}
	})
	c20Log(c, &lg, func(f map[string][]string) string {
		if len(f["uid"]) > 1 || len(f["method"]) > 1 || len(f["app"]) != 1 {
			return "a field is there more than once, or one of the caller's fields is missing"
		}
		return ""
	})
}

func c20Standalone(c *kit.C, i int) {
	r := c.Rand("standalone", i)
	p := providers20[(i/3)%len(providers20)]
	st := &swaying{Provider: p.make()}
	s := kit.NewStandalone(kit.NewKeys(r), st)
	admin, pwd := must2(s.NewUser(ctx, id.ScopeAll))
	adminTok, _ := must2(s.LoginUser(ctx, admin, pwd))
	shared := spare[string]()
	for n := 0; n < 3; n++ {
		shared = append(shared, must(s.NewGroup(ctx, adminTok, id.ScopeDecrypt, id.ScopeIndex)))
	}
	scopes := spare(id.ScopeEncrypt, id.ScopeDelete)
	var lg lines20
	lctx := logger20(&lg)
	together(c, "standalone", func(w int, call func(func())) {
		bad := func(format string, args ...any) {
			c.Violate("cross-talk:standalone", "%s, goroutine %d: %s", p.name, w, fmt.Sprintf(format, args...))
		}
		r := c.Rand("standalone", i, w)
		var uid, pw, tok string
		groups := map[string]id.Scope{}
		login := func() bool {
			var err error
			call(func() { tok, _, err = s.LoginUser(lctx, uid, pw) })
			if err != nil {
				bad("LoginUser failed: %v", err)
			}
			return err == nil
		}
		for step := 0; step < 20; step++ {
			c.Case("standalone", i, w, step)
			if uid == "" {
				var err error
				call(func() { uid, pw, err = s.NewUser(lctx, scopes...) })
				if err != nil {
					bad("NewUser failed: %v", err)
					return
				}
				groups = map[string]id.Scope{}
				if !login() {
					return
				}
			}
			switch r.IntN(8) {
			case 0:
				call(func() {
					n, err := s.ChangeUserPassword(lctx, uid, pw)
					if err != nil {
						bad("ChangeUserPassword failed: %v", err)
						return
					}
					pw = n
				})
				if !login() {
					return
				}
			case 1:
				call(func() {
					if err := s.AddUserToGroups(lctx, adminTok, uid, shared...); err != nil {
						bad("AddUserToGroups failed: %v", err)
					}
				})
				for _, g := range shared {
					groups[g] = id.ScopeDecrypt | id.ScopeIndex
				}
			case 2:
				call(func() {
					if err := s.RemoveUserFromGroups(lctx, adminTok, uid, shared[1:]...); err != nil {
						bad("RemoveUserFromGroups failed: %v", err)
					}
				})
				for _, g := range shared[1:] {
					delete(groups, g)
				}
			case 3:
				call(func() {
					g, err := s.NewGroup(lctx, tok, scopes...)
					if err != nil {
						bad("NewGroup failed: %v", err)
						return
					}
					groups[g] = id.ScopeEncrypt | id.ScopeDelete
				})
			case 4:
				call(func() {
					if _, _, err := s.LoginUser(lctx, uid, pw+"x"); !errors.Is(err, id.ErrNotAuthenticated) {
						bad("LoginUser with a wrong password gave %v", err)
					}
				})
			case 5:
				if step > 12 {
					call(func() {
						if err := s.DeleteUser(lctx, tok, uid); err != nil {
							bad("DeleteUser failed: %v", err)
						}
						if _, err := s.GetIdentity(lctx, tok); err == nil {
							bad("a deleted user is authenticated")
						}
					})
					uid = ""
					continue
				}
			}
			call(func() {
				got, err := s.GetIdentity(lctx, tok)
				if err != nil || got.ID != uid || got.Scopes != id.ScopeEncrypt|id.ScopeDelete || !sameGroups(got.Groups, groups) {
					bad("GetIdentity gave %+v, %v instead of %s with groups %v", got, err, uid, groups)
				}
				got, err = s.GetIdentity(lctx, adminTok)
				if err != nil || got.ID != admin || len(got.Groups) != 3 {
					bad("GetIdentity of the common user gave %+v, %v", got, err)
				}
			})
		}
	})
	c20Log(c, &lg, func(f map[string][]string) string {
		if len(f["app"]) != 1 || len(f["more"]) != 1 {
			return "one of the caller's fields is missing or repeated"
		}
		return ""
	})
}

func c20Providers(c *kit.C, i int) {
	p := providers20[i%len(providers20)]
	st := p.make()
	r := c.Rand("providers", i)
	sharedID := spare(kit.Bytes(r, 16)...)
	sharedData := spare(kit.Bytes(r, 200)...)
	must0(st.Put(ctx, sharedID, 1000, sharedData))
	together(c, "providers", func(w int, call func(func())) {
		r := c.Rand("providers", i, w)
		m := map[string][]byte{}
		mine := [][]byte{spare([]byte(fmt.Sprint("id of ", w))...), sharedID}
		n := 150
		if p.name == "bolt" {
			n = 40
		}
		for s := 0; s < n; s++ {
			c.Case("providers", i, w, s)
			key := kit.Pick(r, mine)
			dt := io.DataType(w*4 + r.IntN(3)) // the common ID has a type of its own for each goroutine
			k := fmt.Sprintf("%x %d", key, dt)
			old, there := m[k]
			v := sharedData
			if r.IntN(2) == 0 {
				v = spare(kit.Bytes(r, r.IntN(300))...)
			}
			bad := func(op string, err error) {
				c.Violate("cross-talk:"+p.name, "goroutine %d: %s of an entry (present: %v) gave %v", w, op, there, err)
			}
			switch r.IntN(5) {
			case 0:
				call(func() {
					if err := st.Put(ctx, key, dt, v); (err == nil) == there {
						bad("Put", err)
					}
				})
				if !there {
					m[k] = bytes.Clone(v)
				}
			case 1:
				call(func() {
					if err := st.Update(ctx, key, dt, v); (err == nil) != there {
						bad("Update", err)
					}
				})
				if there {
					m[k] = bytes.Clone(v)
				}
			case 2:
				call(func() {
					if err := st.Delete(ctx, key, dt); err != nil {
						bad("Delete", err)
					}
				})
				delete(m, k)
			case 3:
				call(func() {
					got, err := st.Get(ctx, sharedID, 1000)
					if err != nil || !bytes.Equal(got, sharedData) {
						bad("Get of the common entry", err)
					}
					for i := range got { // it is the caller's
						got[i]++
					}
				})
			default:
				call(func() {
					got, err := st.Get(ctx, key, dt)
					if (err == nil) != there || there && !bytes.Equal(got, old) {
						bad("Get", err)
					}
				})
			}
		}
	})
}

// c20Primitives shares everything below the API that is made to be used more than once.
func c20Primitives(c *kit.C, i int) {
	r := c.Rand("primitives", i)
	k := spare(kit.Key(r)...)
	cryptor := must(crypto.NewAESCryptor(k))
	kwp := must(crypto.NewKWP(k))
	tagger := must(crypto.NewKMAC256Tagger(k))
	aead := crypto.AES256GCM{Random: &crypto.NativeRandom{}}
	hasher := crypto.NewPasswordHasher()
	keys := key.NewStatic(key.Keys{KEK: k, AEK: k, TEK: k, IEK: k})
	o := &data.Object{Plaintext: spare(kit.Bytes(r, 64)...), AssociatedData: spare(kit.Bytes(r, 20)...)}
	oid := newUUID(r)
	wrappedDEK, sealed := must2(o.Seal(oid, &cryptor))
	access := data.NewAccess(wrappedDEK)
	access.AddGroups("a", "b")
	sealedAccess := must(access.Seal(oid, &cryptor))
	node := data.Node{Identifier: "x", NextCounter: 3}
	label := spare(must(tagger.Tag(1))...)
	sealedNode := must(node.Seal(label, &cryptor))
	token := data.NewToken(spare(kit.Bytes(r, 20)...), time.Hour)
	sealedToken := must(token.Seal(&cryptor))
	tokenString := must(sealedToken.String())
	wrapped := spare(must(kwp.Wrap(k))...)
	ciphertext := must(aead.Encrypt(bytes.Clone(o.Plaintext), o.AssociatedData, k))
	mac := crypto.KMACKDF(32, k, []byte("label"), k)
	pwd, hash := must2(hasher.GeneratePassword())
	ident := id.Identity{ID: "me", Scopes: id.ScopeAll, Groups: map[string]id.AccessGroup{"g": {ID: "g"}}}
	together(c, "primitives", func(w int, call func(func())) {
		for s := 0; s < 15; s++ {
			c.Case("primitives", i, w, s)
			bad := func(what string, args ...any) {
				c.Violate("cross-talk:"+what, "goroutine %d, shared %s: %v", w, what, args)
			}
			call(func() {
				wd, so, err := o.Seal(oid, &cryptor)
				if err != nil {
					bad("object", err)
				}
				if got, err := so.Unseal(wd, &cryptor); err != nil || !sameObj(got, o.Plaintext, o.AssociatedData) {
					bad("object", got, err)
				}
				if got, err := sealed.Unseal(wrappedDEK, &cryptor); err != nil || !sameObj(got, o.Plaintext, o.AssociatedData) {
					bad("sealed object", got, err)
				}
				if sa, err := access.Seal(oid, &cryptor); err != nil {
					bad("access", err)
				} else if a, err := sa.Unseal(&cryptor); err != nil || !a.ContainsGroups("a", "b") || a.ContainsGroups("c") {
					bad("access", a, err)
				}
				if a, err := sealedAccess.Unseal(&cryptor); err != nil || !a.ContainsGroups("a", "b") || !bytes.Equal(a.WrappedDEK, wrappedDEK) {
					bad("sealed access", a, err)
				}
				if n, err := sealedNode.Unseal(label, &cryptor); err != nil || n != node {
					bad("sealed node", n, err)
				}
				if l, err := tagger.Tag(1); err != nil || !bytes.Equal(l, label) {
					bad("tagger", l, err)
				}
				if l, err := node.NextLabel(&tagger); err != nil || len(l) != 32 {
					bad("node", l, err)
				}
				if t, err := sealedToken.Unseal(&cryptor); err != nil || !bytes.Equal(t.Plaintext, token.Plaintext) {
					bad("sealed token", t, err)
				}
				if str, err := sealedToken.String(); err != nil || str != tokenString {
					bad("sealed token", str, err)
				}
				if t, err := data.TokenFromString(tokenString); err != nil {
					bad("token string", err)
				} else if got, err := t.Unseal(&cryptor); err != nil || !bytes.Equal(got.Plaintext, token.Plaintext) {
					bad("token string", got, err)
				}
				if u, err := kwp.Unwrap(wrapped); err != nil || !bytes.Equal(u, k) {
					bad("wrapper", u, err)
				}
				if x, err := kwp.Wrap(k); err != nil || !bytes.Equal(x, wrapped) {
					bad("wrapper", x, err)
				}
				if x, err := aead.Encrypt(bytes.Clone(o.Plaintext), o.AssociatedData, k); err != nil {
					bad("AEAD", err)
				} else if y, err := aead.Decrypt(x, o.AssociatedData, k); err != nil || !bytes.Equal(y, o.Plaintext) {
					bad("AEAD", y, err)
				}
				if y, err := aead.Decrypt(bytes.Clone(ciphertext), o.AssociatedData, k); err != nil || !bytes.Equal(y, o.Plaintext) {
					bad("AEAD", y, err)
				}
				if x := crypto.KMACKDF(32, k, []byte("label"), k); !bytes.Equal(x, mac) {
					bad("KDF", x)
				}
				if s == 7 {
					if !hasher.Compare(pwd, hash) || hasher.Compare(pwd+"x", hash) {
						bad("password hasher")
					}
					if p, h, err := hasher.GeneratePassword(); err != nil || !hasher.Compare(p, h) {
						bad("password hasher", err)
					}
				}
				if got := ident.GetIDs(); len(got) != 2 || ident.GetIDScope("g") != id.ScopeNone {
					bad("identity", got)
				}
				if _, err := d1.New(ctx, &keys, nil, nil); err != nil {
					bad("key provider", err)
				}
				if _, err := index.NewSecureIndex(ctx, &keys, nil, nil); err != nil {
					bad("key provider", err)
				}
				if b, err := (&crypto.NativeRandom{}).GetBytes(32); err != nil || len(b) != 32 {
					bad("random source", b, err)
				}
			})
		}
	})
}
