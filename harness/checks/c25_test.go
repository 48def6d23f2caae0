package checks

import (
	"bytes"
	"context"
	"encoding/base64"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math/rand/v2"
	"runtime/metrics"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/gofrs/uuid"

	d1 "github.com/cybercryptio/d1-lib/v2"
	"github.com/cybercryptio/d1-lib/v2/crypto"
	"github.com/cybercryptio/d1-lib/v2/data"
	"github.com/cybercryptio/d1-lib/v2/id"
	"github.com/cybercryptio/d1-lib/v2/index"
	"github.com/cybercryptio/d1-lib/v2/io"

	"verif/harness/kit"
	"verif/harness/ref"
)

// C25: hostile tokens, identifiers and stored bytes give errors, never a crash.
func TestC25(t *testing.T) {
	kit.Run(t, "C25", "exploration", "An evaluation is one call with a hostile argument, with hostile bytes from storage, or of a decoding function with hostile input; watched for panics, hangs, storage calls and memory, and compared with the genuine outcome. Non-trivial: distinct (call, hostile place, hostile bytes).", func(c *kit.C) {
		e := newC25(c)
		c.Count("storage_reads_replaced", 0)
		e.sweep()
		c.Parallel("storage", c.N(60000, 3000000), func(i int) { e.storage(c.Rand("storage", i)) })
		c.Parallel("arguments", c.N(40000, 2000000), func(i int) { e.arguments(c.Rand("arguments", i)) })
		c.Parallel("direct", c.N(100000, 5000000), func(i int) { e.direct(c.Rand("direct", i)) })
		c.Parallel("passwords", c.N(300, 10000), func(i int) { e.passwords(c.Rand("passwords", i)) })
		c.Parallel("big", c.N(60, 2000), func(i int) { e.big(c.Rand("big", i)) })
		e.lengths()
		c.Require("refused", 30000)
		c.Require("storage_reads_replaced", 10000)
	})
}

// args25 are the arguments of the calls.
type args25 struct {
	tok, uid, pw, kw, ident string
	oid                     uuid.UUID
	groups                  []string
	content                 []byte
	sealed                  data.SealedToken
}

// w25 is a world with instances of everything.
type w25 struct {
	st *kit.Store
	hs *hostile25
	d  *d1.D1
	x  *index.SecureIndex
	s  *id.Standalone
}

type op25 struct {
	name string
	uses string // the arguments that it uses
	run  func(w *w25, a args25) (string, error)
	slow bool
	gets []string // store keys of what it reads, in order
	want string
}

type e25 struct {
	c     *kit.C
	k     kit.Keys
	base  map[string]string
	args  args25
	ops   []op25
	recs  [][]byte // genuine records
	toks  []string
	begin func(func() string) func()
	alone sync.RWMutex
	kek   []byte
	cr    crypto.Cryptor
}

// hostile25 is storage that returns what it is told for some reads.
type hostile25 struct {
	io.Provider
	mu    sync.Mutex
	n     int
	gets  []string
	forge func(key string) ([]byte, bool)
	limit int
}

func (h *hostile25) Get(ctx context.Context, id []byte, dt io.DataType) ([]byte, error) {
	h.mu.Lock()
	n := h.n
	h.n++
	key := fmt.Sprintf("%d/%x", dt, id)
	h.gets = append(h.gets, key)
	h.mu.Unlock()
	if n > h.limit {
		return nil, kit.ErrInjected
	}
	if h.forge != nil {
		if b, ok := h.forge(key); ok {
			return bytes.Clone(b), nil
		}
	}
	return h.Provider.Get(ctx, id, dt)
}

const c25Reads = 500

func (e *e25) world(base map[string]string) *w25 {
	st := kit.NewStore()
	st.Restore(base)
	hs := &hostile25{Provider: st, limit: c25Reads}
	s := kit.NewStandalone(e.k, hs)
	return &w25{st, hs, kit.NewD1(e.k, hs, s), kit.NewIndex(e.k, hs, s), s}
}

func newC25(c *kit.C) *e25 {
	r := c.Rand("world")
	e := &e25{c: c, k: kit.NewKeys(r), begin: c.Watch(180*time.Second, 6<<30)}
	e.kek = kit.Key(r)
	e.cr = must(crypto.NewAESCryptor(clone(e.kek)))
	w := e.world(nil)
	uid, pw := must2(w.s.NewUser(ctx, id.ScopeAll))
	tok, _ := must2(w.s.LoginUser(ctx, uid, pw))
	g1 := must(w.s.NewGroup(ctx, tok, id.ScopeAll))
	g2 := must(w.s.NewGroup(ctx, tok, id.ScopeDecrypt))
	other, opw := must2(w.s.NewUser(ctx, id.ScopeAll))
	otok, _ := must2(w.s.LoginUser(ctx, other, opw))
	must0(w.s.AddUserToGroups(ctx, tok, other, g2))
	oid := must(w.d.Encrypt(ctx, tok, obj([]byte(oldPlain), []byte(oldAD)), g1))
	must(w.d.Encrypt(ctx, otok, obj([]byte("another"), nil), g2))
	for _, s := range []string{"x", "y", "z", "x"} {
		must0(w.x.Add(ctx, tok, "kw", s))
	}
	must0(w.x.Add(ctx, tok, "other", "o"))
	sealed := must(w.d.CreateToken(ctx, []byte("token contents")))
	sealedText := must(sealed.String())
	e.toks = []string{tok, otok, sealedText}
	e.base = w.st.Snapshot()
	for _, v := range e.base {
		e.recs = append(e.recs, []byte(v))
	}
	for _, t := range e.toks {
		b, _ := base64.RawURLEncoding.DecodeString(t)
		e.recs = append(e.recs, b)
	}
	e.args = args25{tok: tok, uid: uid, pw: pw, kw: "kw", ident: "x", oid: oid, groups: []string{g1}, content: []byte("content"), sealed: sealed}
	for _, o := range objectOps {
		e.ops = append(e.ops, op25{name: o.name, uses: "tok oid", run: func(w *w25, a args25) (string, error) { return o.run(w.d, a.tok, a.oid) }})
	}
	e.ops = append(e.ops,
		op25{name: "Encrypt", uses: "tok groups content", run: func(w *w25, a args25) (string, error) {
			_, err := w.d.Encrypt(ctx, a.tok, obj(a.content, a.content), a.groups...)
			return "", err
		}},
		op25{name: "AddGroups", uses: "tok oid groups", run: func(w *w25, a args25) (string, error) {
			return "", w.d.AddGroupsToAccess(ctx, a.tok, a.oid, a.groups...)
		}},
		op25{name: "RemoveGroups", uses: "tok oid groups", run: func(w *w25, a args25) (string, error) {
			return "", w.d.RemoveGroupsFromAccess(ctx, a.tok, a.oid, a.groups...)
		}},
		op25{name: "GetTokenContents", uses: "sealed", run: func(w *w25, a args25) (string, error) {
			b, err := w.d.GetTokenContents(ctx, &a.sealed)
			return string(b), err
		}},
		op25{name: "Index.Add", uses: "tok kw ident", run: func(w *w25, a args25) (string, error) { return "", w.x.Add(ctx, a.tok, a.kw, a.ident) }},
		op25{name: "Index.Search", uses: "tok kw", run: func(w *w25, a args25) (string, error) {
			l, err := w.x.Search(ctx, a.tok, a.kw)
			if err != nil && len(l) > 0 {
				return fmt.Sprint("with an error: ", l), err
			}
			return strings.Join(l, ","), err
		}},
		op25{name: "Index.Delete", uses: "tok kw ident", run: func(w *w25, a args25) (string, error) { return "", w.x.Delete(ctx, a.tok, a.kw, a.ident) }},
		op25{name: "GetIdentity", uses: "tok", run: func(w *w25, a args25) (string, error) {
			i, err := w.s.GetIdentity(ctx, a.tok)
			if err != nil {
				return "", err
			}
			return fmt.Sprint(i.ID, i.Scopes, keysOf(i.Groups)), nil
		}},
		op25{name: "NewGroup", uses: "tok", run: func(w *w25, a args25) (string, error) {
			_, err := w.s.NewGroup(ctx, a.tok, id.ScopeAll)
			return "", err
		}},
		op25{name: "AddUserToGroups", uses: "tok uid gids", run: func(w *w25, a args25) (string, error) {
			return "", w.s.AddUserToGroups(ctx, a.tok, a.uid, a.groups...)
		}},
		op25{name: "RemoveUserFromGroups", uses: "tok uid gids", run: func(w *w25, a args25) (string, error) {
			return "", w.s.RemoveUserFromGroups(ctx, a.tok, a.uid, a.groups...)
		}},
		op25{name: "DeleteUser", uses: "tok uid?", run: func(w *w25, a args25) (string, error) { return "", w.s.DeleteUser(ctx, a.tok, a.uid) }},
		op25{name: "LoginUser", uses: "uid pw", slow: true, run: func(w *w25, a args25) (string, error) {
			_, _, err := w.s.LoginUser(ctx, a.uid, a.pw)
			return "", err
		}},
		op25{name: "ChangeUserPassword", uses: "uid pw", slow: true, run: func(w *w25, a args25) (string, error) {
			_, err := w.s.ChangeUserPassword(ctx, a.uid, a.pw)
			return "", err
		}},
	)
	for i := range e.ops {
		o := &e.ops[i]
		w := e.world(e.base)
		o.want = must(o.run(w, e.args))
		o.gets = w.hs.gets
	}
	return e
}

// at forges the n-th read, and those after it if later is set. The order of reads may vary, so reads are
// told apart by what they read.
func (o *op25) at(n int, bad []byte, later bool) func(key string) ([]byte, bool) {
	nth := 0
	for _, k := range o.gets[:n] {
		if k == o.gets[n] {
			nth++
		}
	}
	seen := 0
	return func(key string) ([]byte, bool) {
		if key == o.gets[n] {
			seen++
			return bad, seen == nth+1 || later && seen > nth
		}
		return bad, later && seen > nth
	}
}

var allocated = "/gc/heap/allocs:bytes"

// call runs f under all watches. size is the size of the hostile input.
func (e *e25) call(name string, size int, describe func() string, f func()) bool {
	read := func() uint64 {
		s := []metrics.Sample{{Name: allocated}}
		metrics.Read(s)
		return s[0].Value.Uint64()
	}
	const base, factor = 64 << 20, 300
	e.alone.RLock()
	end := e.begin(describe)
	before := read()
	panicked := false
	if e.c.Guard(name, f) {
		panicked = true
		e.c.Violate("input:"+name, "this input made it panic: %s", describe())
	}
	used := read() - before
	end()
	e.alone.RUnlock()
	if !panicked && used > uint64(base+factor*size) {
		// Others may have allocated it: measure again with nothing else running.
		e.alone.Lock()
		before := read()
		e.c.Guard(name, f)
		used := read() - before
		e.alone.Unlock()
		e.c.Count("measured_alone", 1)
		if used > uint64(base+factor*size) {
			e.c.Violate("memory:"+name, "%d bytes were allocated for an input of %d bytes: %s", used, size, describe())
		}
	}
	return !panicked
}

// run calls an operation and judges the outcome. junk tells that it must fail.
func (e *e25) run(o *op25, a args25, where string, junk, judged bool, bad []byte, forge func(key string) ([]byte, bool)) {
	var w *w25
	var got string
	var err error
	describe := func() string {
		return fmt.Sprintf("%s with hostile %s: %s (%d bytes: %.300q)", o.name, where, kit.Short(bad), len(bad), bad)
	}
	if !e.call(o.name, len(bad), describe, func() {
		w = e.world(e.base)
		w.hs.forge = forge
		got, err = o.run(w, a)
	}) {
		return
	}
	e.c.Case(o.name, where, bad)
	if w.hs.n > c25Reads {
		e.c.Violate("endless:"+o.name, "more than %d storage reads: %s", c25Reads, describe())
	}
	switch {
	case err != nil:
		e.c.Count("refused", 1)
		if got != "" {
			e.c.Violate("partial:"+o.name, "it failed with %v but returned %q: %s", err, got, describe())
		}
	case junk:
		e.c.Violate("accepted:"+o.name, "it succeeded with %q: %s", got, describe())
	case judged && got != o.want:
		e.c.Violate("altered:"+o.name, "it returned %q instead of %q: %s", got, o.want, describe())
	}
}

// Hostile bytes. junk tells that they are unrelated to what is expected there.
func (e *e25) bytes(r *rand.Rand, genuine []byte) (b []byte, junk bool) {
	switch r.IntN(10) {
	case 0, 1, 2:
		return junk25(r), true
	case 3: // another genuine record
		other := kit.Pick(r, e.recs)
		return other, !bytes.Equal(other, genuine)
	case 4: // parts of another
		other := kit.Pick(r, e.recs)
		if bytes.Equal(other, genuine) {
			return junk25(r), true
		}
		m := rawMutations(r, other, 10)
		return kit.Pick(r, m).b, true
	case 5, 6: // a field replaced
		m, ok := fields(genuine)
		if !ok || len(m) == 0 {
			return junk25(r), true
		}
		f := kit.Pick(r, keysOf(m))
		return withField(genuine, f, weird(r)), false
	case 7: // a byte field manipulated
		m, ok := fields(genuine)
		if !ok || len(m) == 0 {
			return junk25(r), true
		}
		f := kit.Pick(r, keysOf(m))
		var v []byte
		s, _ := m[f].(string)
		v, _ = base64.StdEncoding.DecodeString(s)
		return withField(genuine, f, kit.Pick(r, mutations(r, v, 20)).b), false
	case 8:
		if len(genuine) == 0 {
			return junk25(r), true
		}
		m := rawMutations(r, genuine, 10)
		return kit.Pick(r, m).b, false
	default: // genuine text with junk spliced in
		if len(genuine) == 0 {
			return junk25(r), true
		}
		i, j := r.IntN(len(genuine)+1), r.IntN(len(genuine)+1)
		return append(append(bytes.Clone(genuine[:i]), junk25(r)...), genuine[j:]...), false
	}
}

// weird is a JSON value of an unexpected kind.
func weird(r *rand.Rand) any {
	switch r.IntN(12) {
	case 0:
		return nil
	case 1:
		return r.Int64()
	case 2:
		return -1.5e300
	case 3:
		return r.IntN(2) == 0
	case 4:
		return []any{}
	case 5:
		return map[string]any{"Ciphertext": "AAAA"}
	case 6:
		return kit.String(r)
	case 7:
		return json.RawMessage(strings.Repeat("9", 1+r.IntN(400)))
	case 8:
		n := 1 + r.IntN(300)
		return json.RawMessage(strings.Repeat("[", n) + strings.Repeat("]", n))
	case 9:
		return []any{256, -1, "a", nil, 1.5}
	case 10:
		return base64.URLEncoding.EncodeToString(kit.Bytes(r, r.IntN(100)))
	default:
		b := make([]int, r.IntN(60))
		for i := range b {
			b[i] = r.IntN(256)
		}
		return b
	}
}

var words25 = []string{"{", "}", "[", "]", ":", ",", "\"", "\\", "\\u0000", "\\ud800", "null", "true", "0", "-1", "1e999", "1E-999", "\"Ciphertext\"", "\"ciphertext\"", "\"WrappedKey\"",
	"\"AssociatedData\"", "\"OID\"", "\"UID\"", "\"GID\"", "\"ExpiryTime\"", "\"Groups\"", "\"Scopes\"", "\"Identifier\"", "\"NextCounter\"", "\"AAAA\"", "\"A\"", "\"====\"",
	"\"2099-01-01T00:00:00Z\"", "\"9999-99-99T99:99:99Z\"", "\"10000-01-01T00:00:00Z\"", "18446744073709551616", "\"\"", "\n", " ", "\x00", "\xff", "\xef\xbb\xbf", "//", "/*", "NaN"}

// junk25 is nothing that the library ever made.
func junk25(r *rand.Rand) []byte {
	switch r.IntN(8) {
	case 0:
		return kit.Bytes(r, r.IntN(200))
	case 1, 2: // JSON-like
		var s strings.Builder
		for n := r.IntN(20); n > 0; n-- {
			s.WriteString(kit.Pick(r, words25))
		}
		return []byte(s.String())
	case 3: // well-formed JSON object with expected names
		m := map[string]any{}
		for _, f := range []string{"Ciphertext", "WrappedKey", "AssociatedData", "OID", "UID", "GID", "ExpiryTime", "ciphertext", "x"} {
			if r.IntN(2) == 0 {
				m[f] = weird(r)
			}
		}
		b, _ := json.Marshal(m)
		return b
	case 4: // plausible record with random contents
		m := map[string]any{"Ciphertext": kit.Bytes(r, kit.Size(r, 0)), "WrappedKey": kit.Bytes(r, kit.Pick(r, []int{0, 1, 7, 8, 15, 16, 23, 24, 25, 31, 32, 40, 41, 48, 8199, 8200, 8208, 8216})),
			"AssociatedData": kit.Bytes(r, r.IntN(50)), "OID": newUUID(r).String(), "UID": newUUID(r).String(), "GID": newUUID(r).String(),
			"ExpiryTime": time.Unix(r.Int64N(253402300799), 0).UTC()}
		if r.IntN(3) == 0 {
			delete(m, kit.Pick(r, keysOf(m)))
		}
		b, _ := json.Marshal(m)
		return b
	case 5:
		n := r.IntN(3000)
		return []byte(strings.Repeat(kit.Pick(r, []string{"[", "{\"Ciphertext\":", "[{\"a\":", "{\"\":[", "\"", "\\", "\\u"}), n))
	case 6:
		return []byte(kit.Pick(r, []string{"", "null", "{}", "[]", "\"\"", "0", "true", "{\"Ciphertext\":null,\"WrappedKey\":null}", "{\"Ciphertext\":\"\",\"WrappedKey\":\"\"}", "\x00", "{", "{}{}", "null null"}))
	default:
		return []byte(kit.String(r))
	}
}

// storage makes storage return hostile bytes for one, several or all reads of an operation.
func (e *e25) storage(r *rand.Rand) {
	o := &e.ops[r.IntN(len(e.ops))]
	if len(o.gets) == 0 || o.slow && r.IntN(20) > 0 {
		return
	}
	if o.slow && r.IntN(2) == 0 {
		return
	}
	n := r.IntN(len(o.gets))
	genuine := []byte(e.base[o.gets[n]])
	bad, junk := e.bytes(r, genuine)
	var forge func(key string) ([]byte, bool)
	where := fmt.Sprint("read ", n)
	if len(genuine) == 0 {
		where += " (of nothing)"
	}
	switch r.IntN(5) {
	case 0:
		forge = func(string) ([]byte, bool) { return bad, true }
		where = "reads"
		// What is junk for one read may be genuine for another.
		junk = junk && !e.genuine(bad)
	case 1:
		forge = o.at(n, bad, true)
		where += " and later ones"
		junk = junk && !e.genuine(bad)
	default:
		forge = o.at(n, bad, false)
	}
	e.c.Count("storage_reads_replaced", 1)
	e.run(o, e.args, where, junk, true, bad, forge)
}

func (e *e25) genuine(b []byte) bool {
	for _, g := range e.recs {
		if bytes.Equal(b, g) {
			return true
		}
	}
	return false
}

// sweep replaces every read of every operation by every record and by simple junk.
func (e *e25) sweep() {
	type job struct {
		o    *op25
		n    int
		bad  []byte
		junk bool
	}
	var jobs []job
	for i := range e.ops {
		o := &e.ops[i]
		if o.slow {
			continue
		}
		for n, k := range o.gets {
			genuine := []byte(e.base[k])
			for _, b := range e.recs {
				jobs = append(jobs, job{o, n, b, !bytes.Equal(b, genuine)})
			}
			for _, s := range []string{"", "null", "{}", "[]", "0", "\"\"", "{", "\x00", "true", "{\"Ciphertext\":[]}", "{\"WrappedKey\":{}}"} {
				jobs = append(jobs, job{o, n, []byte(s), true})
			}
			for l := 0; l < len(genuine); l += 1 + len(genuine)/60 {
				jobs = append(jobs, job{o, n, genuine[:l], true})
			}
		}
	}
	e.c.Parallel("sweep", len(jobs), func(i int) {
		j := jobs[i]
		e.c.Count("storage_reads_replaced", 1)
		e.run(j.o, e.args, fmt.Sprint("read ", j.n), j.junk, true, j.bad, j.o.at(j.n, j.bad, false))
	})
}

// text is a hostile string in place of the genuine one.
func (e *e25) text(r *rand.Rand, genuine string) string {
	switch r.IntN(5) {
	case 0:
		return kit.String(r)
	case 1:
		return string(kit.Bytes(r, r.IntN(100)))
	case 2:
		return string(junk25(r))
	case 3:
		m := mutations(r, []byte(genuine), 20)
		if len(m) == 0 {
			return "x"
		}
		return string(kit.Pick(r, m).b)
	default:
		return kit.Pick(r, []string{e.args.uid, e.args.pw, e.args.tok, e.args.groups[0], e.args.oid.String(), "kw", "", "../../etc/passwd", "'; DROP TABLE users; --", "%s%n%x", strings.Repeat("A", 1+r.IntN(5000))})
	}
}

// arguments makes calls with hostile arguments.
func (e *e25) arguments(r *rand.Rand) {
	o := &e.ops[r.IntN(len(e.ops))]
	a := e.args
	arg := kit.Pick(r, strings.Fields(o.uses))
	if o.slow && (arg != "uid" && r.IntN(20) > 0 || arg == "uid" && r.IntN(4) > 0) {
		return
	}
	junk, judged := false, false
	var bad []byte
	switch arg {
	case "tok":
		if r.IntN(2) == 0 { // not even a token
			a.tok = e.text(r, a.tok)
			if a.tok == e.args.tok {
				return
			}
			bad = []byte(a.tok)
			// Some alterations leave the contents as they are.
			junk, judged = !sameToken(a.tok, e.args.tok), true
		} else {
			genuine, _ := base64.RawURLEncoding.DecodeString(a.tok)
			b, j := e.bytes(r, genuine)
			enc := base64.RawURLEncoding.EncodeToString(b)
			if sameToken(enc, e.toks[1]) { // the other user's token is as good
				return
			}
			j = j && !sameToken(enc, e.toks[0])
			a.tok, bad, junk, judged = enc, b, j, true
		}
	case "uid", "uid?":
		a.uid = e.text(r, a.uid)
		bad, junk = []byte(a.uid), a.uid != e.args.uid && arg == "uid"
	case "pw":
		a.pw = e.text(r, a.pw)
		if strings.TrimRight(a.pw, "\x00") == e.args.pw {
			return
		}
		bad, junk = []byte(a.pw), true
	case "oid":
		switch r.IntN(4) {
		case 0:
			a.oid = uuid.Nil
		case 1:
			copy(a.oid[:], kit.Bytes(r, 16))
		case 2:
			a.oid[r.IntN(16)] ^= 1 << r.IntN(8)
		default:
			for i := range a.oid {
				a.oid[i] = 0xff
			}
		}
		bad, junk = a.oid.Bytes(), o.name != "Delete"
	case "groups", "gids":
		a.groups = nil
		for n := r.IntN(5); n > 0; n-- {
			a.groups = append(a.groups, e.text(r, "g"))
		}
		if r.IntN(200) == 0 {
			for i := 0; i < 20000; i++ {
				a.groups = append(a.groups, fmt.Sprint("g", i))
			}
		}
		bad = []byte(fmt.Sprintf("%q", a.groups))
		if arg == "gids" {
			for _, g := range a.groups {
				junk = junk || g != e.args.groups[0]
			}
		}
	case "content":
		a.content = kit.Content(r, 200)
		bad = a.content
	case "kw":
		a.kw = e.text(r, a.kw)
		bad = []byte(a.kw)
	case "ident":
		a.ident = e.text(r, a.ident)
		bad = []byte(a.ident)
	case "sealed":
		junk = true
		switch r.IntN(6) {
		case 0:
			a.sealed = data.SealedToken{}
		case 1:
			a.sealed.Ciphertext = kit.Pick(r, mutations(r, a.sealed.Ciphertext, 20)).b
		case 2:
			a.sealed.WrappedKey = kit.Pick(r, mutations(r, a.sealed.WrappedKey, 20)).b
		case 3:
			a.sealed.ExpiryTime = kit.Pick(r, times25).Add(time.Duration(r.Int64()))
		case 4:
			a.sealed.Ciphertext, a.sealed.WrappedKey = a.sealed.WrappedKey, a.sealed.Ciphertext
		default:
			a.sealed = data.SealedToken{ExpiryTime: kit.Pick(r, times25), Ciphertext: junk25(r), WrappedKey: junk25(r)}
		}
		bad = []byte(fmt.Sprintf("%v %x %x", a.sealed.ExpiryTime, a.sealed.WrappedKey, a.sealed.Ciphertext))
	}
	e.run(o, a, arg, junk, judged, bad, nil)
}

// sameToken tells whether decoders may take two tokens for the same.
func sameToken(a, b string) bool {
	x, err1 := base64.RawURLEncoding.DecodeString(a)
	y, err2 := base64.RawURLEncoding.DecodeString(b)
	if err1 != nil || err2 != nil {
		return false
	}
	var s, t data.SealedToken
	if json.Unmarshal(x, &s) != nil { // the library may be more lenient
		return bytes.Contains(x, y[1:len(y)-1])
	}
	if json.Unmarshal(y, &t) != nil {
		return false
	}
	return s.ExpiryTime.Equal(t.ExpiryTime) && bytes.Equal(s.Ciphertext, t.Ciphertext) && bytes.Equal(s.WrappedKey, t.WrappedKey)
}

var times25 = []time.Time{{}, time.Unix(0, 0), time.Unix(1<<62, 0), time.Unix(-1<<62, 0), time.Date(9999, 12, 31, 23, 59, 59, 999999999, time.UTC), time.Date(10000, 1, 1, 0, 0, 0, 0, time.UTC),
	time.Date(-1, 1, 1, 0, 0, 0, 0, time.UTC), time.Date(2200, 1, 1, 0, 0, 0, 0, time.FixedZone("", 86399)), time.Date(2200, 1, 1, 0, 0, 0, 0, time.FixedZone("odd", -3661)),
	time.Date(292277026596, 12, 4, 15, 30, 7, 0, time.UTC)}

// blob is a byte string of some length that matters somewhere, with random or structured contents.
func blob(r *rand.Rand) []byte {
	switch r.IntN(4) {
	case 0:
		return nil
	case 1:
		return kit.Bytes(r, r.IntN(80))
	case 2:
		return kit.Bytes(r, 8*r.IntN(12))
	default:
		return kit.Content(r, 0)
	}
}

// direct calls decoding and decrypting functions.
func (e *e25) direct(r *rand.Rand) {
	k, ct, ad := blob(r), blob(r), blob(r)
	if r.IntN(3) == 0 { // one of them genuine
		wk, sealed, err := e.cr.Encrypt(blob(r), ad)
		if err != nil {
			e.c.Violate("encrypt", "Encrypt failed: %v", err)
			return
		}
		if r.IntN(2) == 0 {
			k, ct = wk, kit.Pick(r, mutations(r, sealed, 20)).b
		} else {
			k, ct = kit.Pick(r, mutations(r, wk, 20)).b, sealed
		}
	}
	refused := func(what string, err error) {
		if err == nil {
			e.c.Violate("accepted:"+what, "%s succeeded: key %x, ciphertext %x, data %x", what, k, ct, ad)
		} else {
			e.c.Count("refused", 1)
		}
	}
	which := r.IntN(11)
	describe := func() string {
		return fmt.Sprintf("function %d: key %x, ciphertext %x, data %x", which, k, ct, ad)
	}
	e.call(fmt.Sprint("direct", which), len(k)+len(ct)+len(ad), describe, func() {
		switch which {
		case 0:
			p := []byte{}
			refused("Cryptor.Decrypt", e.cr.Decrypt(&p, ad, k, ct))
		case 1:
			o := data.SealedObject{Ciphertext: ct, AssociatedData: ad, OID: newUUID(r)}
			_, err := o.Unseal(k, &e.cr)
			refused("SealedObject.Unseal", err)
		case 2:
			a := data.SealedAccess{Ciphertext: ct, WrappedKey: k, OID: newUUID(r)}
			_, err := a.Unseal(&e.cr)
			refused("SealedAccess.Unseal", err)
		case 3:
			n := data.SealedNode{Ciphertext: ct, WrappedKey: k}
			_, err := n.Unseal(ad, &e.cr)
			refused("SealedNode.Unseal", err)
		case 4:
			t := data.SealedToken{Ciphertext: ct, WrappedKey: k, ExpiryTime: kit.Pick(r, times25)}
			_, err := t.Unseal(&e.cr)
			refused("SealedToken.Unseal", err)
			if s, err := t.String(); err == nil {
				back, err := data.TokenFromString(s)
				if err != nil || !bytes.Equal(back.Ciphertext, ct) || !bytes.Equal(back.WrappedKey, k) {
					e.c.Violate("token-text", "TokenFromString(%q) = %+v, %v", s, back, err)
				}
			}
		case 5:
			w := must(crypto.NewKWP(kit.Bytes(r, 16+16*r.IntN(2))))
			_, err := w.Unwrap(k)
			refused("KWP.Unwrap", err)
		case 6:
			a := crypto.AES256GCM{Random: &crypto.NativeRandom{}}
			key := blob(r)
			if r.IntN(2) == 0 {
				key = kit.Bytes(r, 32)
			}
			_, err := a.Decrypt(bytes.Clone(ct), ad, key)
			refused("AES256GCM.Decrypt", err)
			_, err = a.Encrypt(bytes.Clone(ct), ad, key)
			if (err == nil) != (len(key) == 32) {
				e.c.Violate("aes-key", "Encrypt with a key of %d bytes: %v", len(key), err)
			}
		case 7:
			s := kit.Pick(r, e.toks)
			b, _ := base64.RawURLEncoding.DecodeString(s)
			j, junk := e.bytes(r, b)
			if r.IntN(2) == 0 {
				s = base64.RawURLEncoding.EncodeToString(j)
			} else {
				s, junk = e.text(r, s), false
			}
			if tok, err := data.TokenFromString(s); err == nil {
				if _, err := tok.Unseal(&e.cr); err == nil {
					e.c.Violate("accepted:TokenFromString", "a token with another key was accepted: %q", s)
				}
				tok.String()
			}
			_ = junk
		case 9: // sealed by somebody with the key, but nonsense
			dek, nonce, text := kit.Bytes(r, 32), kit.Bytes(r, 12), junk25(r)
			oid := newUUID(r)
			aad, _ := json.Marshal(oid.Bytes())
			if r.IntN(10) == 0 {
				dek = kit.Bytes(r, 16+r.IntN(40))
			}
			k = ref.Wrap(e.kek, dek)
			gcmKey := append(bytes.Clone(dek), make([]byte, 32)...)[:32]
			ct, ad = ref.GCMSeal(gcmKey, nonce, text, aad), aad
			(&data.SealedAccess{OID: oid, Ciphertext: ct, WrappedKey: k}).Unseal(&e.cr)
			(&data.SealedNode{Ciphertext: ct, WrappedKey: k}).Unseal(oid.Bytes(), &e.cr)
			for _, into := range []any{&[]byte{}, &id.User{}, &id.Group{}, &data.Object{}, &data.Access{}, &data.Node{}, new(string), new(any)} {
				e.cr.Decrypt(into, oid.Bytes(), k, ct)
			}
		case 10: // wrapped by somebody with the key, but with a wrong length inside
			n := 8 * (2 + r.IntN(30))
			mli := kit.Pick(r, []uint32{0, uint32(n), uint32(n - 7), uint32(n + 1), uint32(n + 8), uint32(n - 8), 1 << 31, 1<<32 - 1, 1<<32 - 8, 1 << 16, r.Uint32(), r.Uint32() >> 16})
			k = ref.WrapW(e.kek, binary.BigEndian.AppendUint32([]byte{0xA6, 0x59, 0x59, 0xA6}, mli), kit.Bytes(r, n))
			if out, err := must(crypto.NewKWP(e.kek)).Unwrap(k); err == nil && len(out) != int(mli) {
				e.c.Violate("accepted:Unwrap", "a wrapped key of %d bytes gave one of %d", mli, len(out))
			}
			var p []byte
			e.cr.Decrypt(&p, ad, k, ct)
		case 8:
			sc, dt := id.Scope(r.Uint64()>>r.IntN(64)), io.DataType(r.Uint32())
			_ = sc.String() + dt.String() + string(dt.Bytes())
			if !sc.Contains(sc) || !sc.Contains(0) || id.ScopeUnion(sc, sc) != sc || id.ScopeUnion() != 0 {
				e.c.Violate("scope", "scope %#x", uint64(sc))
			}
			var i id.Identity
			if s := i.GetIDScope("x"); s != 0 {
				e.c.Violate("scope", "an empty identity has scope %v", s)
			}
			if len(i.GetIDs()) > 1 {
				e.c.Violate("scope", "an empty identity has IDs %v", i.GetIDs())
			}
			tok := data.NewToken(ct, time.Duration(r.Uint64()))
			if s, err := tok.Seal(&e.cr); err == nil {
				s.Unseal(&e.cr)
				s.String()
			}
			tok.ExpiryTime = kit.Pick(r, times25)
			if s, err := tok.Seal(&e.cr); err == nil {
				s.Unseal(&e.cr)
				s.String()
			}
		}
	})
	e.c.Case("direct", which, k, ct, ad)
}

// passwords compares passwords with hostile hashes.
func (e *e25) passwords(r *rand.Rand) {
	pw, hash := e.text(r, "password"), kit.Bytes(r, r.IntN(80))
	if r.IntN(10) == 0 {
		hash = blob(r)
	}
	describe := func() string { return fmt.Sprintf("Compare(%q, %x)", pw, hash) }
	e.call("Compare", len(pw)+len(hash), describe, func() {
		if crypto.NewPasswordHasher().Compare(pw, hash) {
			e.c.Violate("accepted:Compare", "%s is true", describe())
		} else {
			e.c.Count("refused", 1)
		}
	})
	e.c.Case("Compare", pw, hash)
}

// big uses megabytes.
func (e *e25) big(r *rand.Rand) {
	n := 1 << (16 + r.IntN(7))
	var bad []byte
	switch r.IntN(8) {
	case 0:
		bad = bytes.Repeat([]byte("["), n)
	case 1:
		bad = bytes.Repeat([]byte(`{"Ciphertext":`), n/14)
	case 2:
		bad = []byte(`{"Ciphertext":"` + base64.StdEncoding.EncodeToString(kit.Bytes(r, n*3/4)) + `","WrappedKey":"` + base64.StdEncoding.EncodeToString(kit.Bytes(r, 40)) + `"}`)
	case 3:
		bad = []byte(`{"Ciphertext":"AAAA","WrappedKey":"` + base64.StdEncoding.EncodeToString(kit.Bytes(r, n*3/4)) + `"}`)
	case 4:
		bad = []byte(`{"Ciphertext":` + strings.Repeat("1", n) + `}`)
	case 5:
		bad = []byte(`{` + strings.Repeat(`"Ciphertext":"AAAA",`, n/20) + `"x":1}`)
	case 6:
		bad = []byte(`{"OID":"` + strings.Repeat("a", n) + `"}`)
	default:
		bad = kit.Bytes(r, n)
	}
	for {
		o := &e.ops[r.IntN(len(e.ops))]
		if len(o.gets) == 0 || o.slow {
			continue
		}
		at := r.IntN(len(o.gets))
		e.run(o, e.args, fmt.Sprint("read ", at), true, true, bad, o.at(at, bad, false))
		break
	}
	a := e.args
	a.tok = string(bad)
	e.run(&e.ops[r.IntN(7)], a, "tok", true, true, bad, nil)
	a.tok = base64.RawURLEncoding.EncodeToString(bad)
	e.run(&e.ops[r.IntN(7)], a, "tok", true, true, bad, nil)
}

// lengths tries all lengths of wrapped keys, ciphertexts and hashes.
func (e *e25) lengths() {
	e.c.Parallel("lengths", 700, func(n int) {
		if n >= 320 {
			n = 8000 + n
		}
		b := kit.Bytes(e.c.Rand("lengths", n), n)
		describe := func() string { return fmt.Sprintf("%d bytes", n) }
		e.call("lengths", n, describe, func() {
			for _, k := range []int{16, 32} {
				if _, err := must(crypto.NewKWP(make([]byte, k))).Unwrap(b); err == nil {
					e.c.Violate("accepted:Unwrap", "%d random bytes were unwrapped", n)
				}
			}
			if _, err := (&crypto.AES256GCM{Random: &crypto.NativeRandom{}}).Decrypt(bytes.Clone(b), nil, make([]byte, 32)); err == nil {
				e.c.Violate("accepted:Decrypt", "%d random bytes were decrypted", n)
			}
			var p []byte
			wk, ct, _ := e.cr.Encrypt([]byte("x"), nil)
			if e.cr.Decrypt(&p, nil, b, ct) == nil || e.cr.Decrypt(&p, nil, wk, b) == nil {
				e.c.Violate("accepted:Cryptor", "%d random bytes were accepted", n)
			}
			if n <= 64 && crypto.NewPasswordHasher().Compare("x", b) {
				e.c.Violate("accepted:Compare", "%d random bytes were accepted", n)
			}
		})
		e.c.Case("length", n)
	})
}
