package checks

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"math/rand/v2"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"syscall"
	"testing"

	"github.com/gofrs/uuid"
	"github.com/rs/zerolog"

	d1 "github.com/cybercryptio/d1-lib/v2"
	"github.com/cybercryptio/d1-lib/v2/data"
	"github.com/cybercryptio/d1-lib/v2/id"
	"github.com/cybercryptio/d1-lib/v2/index"
	"github.com/cybercryptio/d1-lib/v2/io"
	"github.com/cybercryptio/d1-lib/v2/log"

	"verif/harness/kit"
)

// C27: logging stays at debug level and inside the call it belongs to. The check is compiled with the
// race detector.
func TestC27(t *testing.T) {
	zerolog.ErrorHandler = func(error) {} // zerolog itself reports failing writers on standard error
	kit.Run(t, "C27", "exploration", "An evaluation is one call made with loggers of some kind in its context, whose log lines, result and effect on the caller's loggers are compared with those of the same call alone. Non-trivial: distinct (call, kind of logger, fields, other calls on the logger).", func(c *kit.C) {
		prep(c, func() {
			e := newC27(c)
			e.silent()
			e.levels()
			c.Parallel("shared", c.N(500, 8000), func(i int) { e.shared(c.Rand("shared", i)) })
			for i := 0; i < c.N(60, 1500) && !c.Full(); i++ {
				e.concurrent(c.Rand("concurrent", i))
			}
		})
		c.Parallel("contexts", c.N(6000, 60000), func(i int) { c27Contexts(c, c.Rand("contexts", i)) })
		c.Require("lines", 5000)
		c.Require("silent_calls", 200)
		c.Require("probes", 5000)
		c.Require("concurrent_lines", 1000)
	})
}

// w27 is a world of its own for a few calls.
type w27 struct {
	st *kit.Store
	p  *failing27
	d  *d1.D1 // with the harness's identities
	sd *d1.D1 // with the Standalone ID Provider
	x  *index.SecureIndex
	sx *index.SecureIndex
	s  *id.Standalone
}

// failing27 fails from some call on.
type failing27 struct {
	io.Provider
	mu   sync.Mutex
	left int
}

func (f *failing27) fail() bool {
	f.mu.Lock()
	defer f.mu.Unlock()
	f.left--
	return f.left < 0
}

func (f *failing27) Get(ctx context.Context, id []byte, dt io.DataType) ([]byte, error) {
	if f.fail() {
		return nil, kit.ErrInjected
	}
	return f.Provider.Get(ctx, id, dt)
}

func (f *failing27) Put(ctx context.Context, id []byte, dt io.DataType, b []byte) error {
	if f.fail() {
		return kit.ErrInjected
	}
	return f.Provider.Put(ctx, id, dt, b)
}

func (f *failing27) Update(ctx context.Context, id []byte, dt io.DataType, b []byte) error {
	if f.fail() {
		return kit.ErrInjected
	}
	return f.Provider.Update(ctx, id, dt, b)
}

func (f *failing27) Delete(ctx context.Context, id []byte, dt io.DataType) error {
	if f.fail() {
		return kit.ErrInjected
	}
	return f.Provider.Delete(ctx, id, dt)
}

type op27 struct {
	name string
	slow bool
	run  func(ctx context.Context, w *w27) (string, error)
	// What the call gives without a logger, and the lines it writes on a logger of its own.
	got   string
	err   error
	after map[string]string
	lines [][]string
}

type e27 struct {
	c      *kit.C
	k      kit.Keys
	ids    *kit.IDs
	base   map[string]string
	ops    []*op27
	known  map[string]string // UUIDs of the base world
	secret *scanner
}

func (e *e27) world(left int) *w27 {
	st := kit.NewStore()
	st.Restore(e.base)
	p := &failing27{Provider: st, left: left}
	s := kit.NewStandalone(e.k, p)
	return &w27{st, p, kit.NewD1(e.k, p, e.ids), kit.NewD1(e.k, p, s), kit.NewIndex(e.k, p, e.ids), kit.NewIndex(e.k, p, s), s}
}

const never27 = 1 << 30

func newC27(c *kit.C) *e27 {
	r := c.Rand("world")
	e := &e27{c: c, k: kit.NewKeys(r), ids: kit.NewIDs(), known: map[string]string{}, secret: newScanner()}
	secret := func(name string) string {
		s := "secret " + kit.Alnum(r, 24)
		e.secret.add(name, []byte(s[7:]))
		return s
	}
	for i := range slots26 {
		e.secret.add(slots26[i], *slot(&e.k, i))
	}
	plain, newPlain, kw, ident := secret("plaintext"), secret("new plaintext"), secret("keyword"), secret("identifier")
	contents := secret("token contents")
	w := e.world(never27)
	all := e.ids.User("user", id.ScopeAll, id.AccessGroup{ID: "g", Scopes: id.ScopeAll})
	powerless := e.ids.User("powerless", 0)
	outsider := e.ids.User("outsider", id.ScopeAll)
	oid, _ := must(w.d.Encrypt(ctx, all, obj([]byte(plain), []byte("ad")), "g", "removable")), 0
	uid, pw := must2(w.s.NewUser(ctx, id.ScopeAll))
	utok, _ := must2(w.s.LoginUser(ctx, uid, pw))
	g1 := must(w.s.NewGroup(ctx, utok, id.ScopeAll))
	g2 := must(w.s.NewGroup(ctx, utok, id.ScopeDecrypt))
	other, opw := must2(w.s.NewUser(ctx, id.ScopeIndex))
	otok, _ := must2(w.s.LoginUser(ctx, other, opw))
	soid := must(w.sd.Encrypt(ctx, utok, obj([]byte(plain), nil), g2))
	must0(w.x.Add(ctx, all, kw, ident))
	must0(w.x.Add(ctx, all, kw, "another"))
	must0(w.x.Add(ctx, all, kw, ident))
	sealed := must(w.d.CreateToken(ctx, []byte(contents)))
	e.secret.add("password", []byte(pw))
	e.secret.add("token", []byte(utok))
	e.secret.add("token", []byte(otok))
	e.secret.add("token contents sealed", sealed.Ciphertext)
	for name, u := range map[string]string{"OID": oid.String(), "SOID": soid.String(), "USER": uid, "OTHER": other, "G1": g1, "G2": g2} {
		e.known[u] = name
	}
	e.base = w.st.Snapshot()

	add := func(name string, run func(ctx context.Context, w *w27) (string, error)) *op27 {
		o := &op27{name: name, run: run}
		e.ops = append(e.ops, o)
		return o
	}
	missing := uuid.FromStringOrNil("11111111-2222-4333-8444-555555555555")
	e.known[missing.String()] = "MISSING"
	for _, who := range []struct {
		name, tok string
		oid       uuid.UUID
		alone     bool
	}{{"", all, oid, false}, {" by standalone user", utok, soid, true}, {" by powerless", powerless, oid, false}, {" by outsider", outsider, oid, false}, {" by nobody", "nobody", oid, false}, {" of missing", all, missing, false}} {
		inst := func(w *w27) *d1.D1 {
			if who.alone {
				return w.sd
			}
			return w.d
		}
		add("Encrypt"+who.name, func(ctx context.Context, w *w27) (string, error) {
			o, err := inst(w).Encrypt(ctx, who.tok, obj([]byte(newPlain), []byte("ad")), "x", "y")
			return fmt.Sprint(o == uuid.Nil), err
		})
		add("Decrypt"+who.name, func(ctx context.Context, w *w27) (string, error) {
			o, err := inst(w).Decrypt(ctx, who.tok, who.oid)
			return gotObj(o), err
		})
		add("Update"+who.name, func(ctx context.Context, w *w27) (string, error) {
			return "", inst(w).Update(ctx, who.tok, who.oid, obj([]byte(newPlain), []byte("ad2")))
		})
		add("Delete"+who.name, func(ctx context.Context, w *w27) (string, error) { return "", inst(w).Delete(ctx, who.tok, who.oid) })
		add("GetAccessGroups"+who.name, func(ctx context.Context, w *w27) (string, error) {
			g, err := inst(w).GetAccessGroups(ctx, who.tok, who.oid)
			return gotSet(g), err
		})
		add("AddGroupsToAccess"+who.name, func(ctx context.Context, w *w27) (string, error) {
			return "", inst(w).AddGroupsToAccess(ctx, who.tok, who.oid, "a", "b")
		})
		add("RemoveGroupsFromAccess"+who.name, func(ctx context.Context, w *w27) (string, error) {
			return "", inst(w).RemoveGroupsFromAccess(ctx, who.tok, who.oid, "removable")
		})
		add("AuthorizeIdentity"+who.name, func(ctx context.Context, w *w27) (string, error) {
			return "", inst(w).AuthorizeIdentity(ctx, who.tok, who.oid)
		})
		ix := func(w *w27) *index.SecureIndex {
			if who.alone {
				return w.sx
			}
			return w.x
		}
		add("index Add"+who.name, func(ctx context.Context, w *w27) (string, error) { return "", ix(w).Add(ctx, who.tok, kw, ident) })
		add("index Search"+who.name, func(ctx context.Context, w *w27) (string, error) {
			l, err := ix(w).Search(ctx, who.tok, kw)
			return strings.Join(l, ","), err
		})
		add("index Delete"+who.name, func(ctx context.Context, w *w27) (string, error) {
			return "", ix(w).Delete(ctx, who.tok, kw, ident)
		})
	}
	add("CreateToken", func(ctx context.Context, w *w27) (string, error) {
		t, err := w.d.CreateToken(ctx, []byte(contents))
		return fmt.Sprint(len(t.Ciphertext)), err
	})
	add("GetTokenContents", func(ctx context.Context, w *w27) (string, error) {
		b, err := w.d.GetTokenContents(ctx, &sealed)
		return string(b), err
	})
	add("GetTokenContents of nonsense", func(ctx context.Context, w *w27) (string, error) {
		b, err := w.d.GetTokenContents(ctx, &data.SealedToken{ExpiryTime: sealed.ExpiryTime})
		return string(b), err
	})
	add("New", func(ctx context.Context, w *w27) (string, error) {
		_, err := d1.New(ctx, &kit.KeyProvider{K: e.k.D1}, w.st, e.ids)
		return "", err
	})
	add("New failing", func(ctx context.Context, w *w27) (string, error) {
		k := e.k.D1
		k.TEK = k.TEK[1:]
		_, err := d1.New(ctx, &kit.KeyProvider{K: k}, w.st, e.ids)
		return "", err
	})
	add("NewSecureIndex", func(ctx context.Context, w *w27) (string, error) {
		_, err := index.NewSecureIndex(ctx, &kit.KeyProvider{K: e.k.D1}, w.st, e.ids)
		return "", err
	})
	add("NewUser", func(ctx context.Context, w *w27) (string, error) {
		u, p, err := w.s.NewUser(ctx, id.ScopeAll)
		if err == nil {
			e.secret.scan([]byte(p), 0) // not known before
		}
		return fmt.Sprint(len(u), len(p)), err
	}).slow = true
	add("LoginUser", func(ctx context.Context, w *w27) (string, error) {
		t, _, err := w.s.LoginUser(ctx, uid, pw)
		return fmt.Sprint(len(t) > 0), err
	}).slow = true
	add("LoginUser with wrong password", func(ctx context.Context, w *w27) (string, error) {
		t, _, err := w.s.LoginUser(ctx, uid, opw)
		return t, err
	}).slow = true
	add("LoginUser of nobody", func(ctx context.Context, w *w27) (string, error) {
		t, _, err := w.s.LoginUser(ctx, "nobody", pw)
		return t, err
	})
	add("ChangeUserPassword", func(ctx context.Context, w *w27) (string, error) {
		p, err := w.s.ChangeUserPassword(ctx, uid, pw)
		return fmt.Sprint(len(p)), err
	}).slow = true
	add("ChangeUserPassword with wrong password", func(ctx context.Context, w *w27) (string, error) {
		return w.s.ChangeUserPassword(ctx, uid, opw)
	}).slow = true
	add("GetIdentity", func(ctx context.Context, w *w27) (string, error) {
		i, err := w.s.GetIdentity(ctx, utok)
		return fmt.Sprint(i), err
	})
	add("GetIdentity of nobody", func(ctx context.Context, w *w27) (string, error) {
		i, err := w.s.GetIdentity(ctx, "x"+utok)
		return fmt.Sprint(i), err
	})
	add("NewGroup", func(ctx context.Context, w *w27) (string, error) {
		g, err := w.s.NewGroup(ctx, utok, id.ScopeAll)
		return fmt.Sprint(len(g)), err
	})
	add("AddUserToGroups", func(ctx context.Context, w *w27) (string, error) {
		return "", w.s.AddUserToGroups(ctx, utok, other, g1, g2)
	})
	add("AddUserToGroups refused", func(ctx context.Context, w *w27) (string, error) {
		return "", w.s.AddUserToGroups(ctx, otok, uid, g1)
	})
	add("RemoveUserFromGroups", func(ctx context.Context, w *w27) (string, error) {
		return "", w.s.RemoveUserFromGroups(ctx, utok, uid, g1)
	})
	add("RemoveUserFromGroups refused", func(ctx context.Context, w *w27) (string, error) {
		return "", w.s.RemoveUserFromGroups(ctx, otok, uid, g1)
	})
	add("DeleteUser", func(ctx context.Context, w *w27) (string, error) { return "", w.s.DeleteUser(ctx, utok, other) })
	add("DeleteUser refused", func(ctx context.Context, w *w27) (string, error) { return "", w.s.DeleteUser(ctx, "x", other) })
	for _, o := range append([]*op27{}, e.ops...) { // with storage that fails at once, or later
		if o.slow || strings.Contains(o.name, " by ") && !strings.Contains(o.name, "standalone") || strings.Contains(o.name, "New") {
			continue
		}
		for _, left := range []int{0, 1, 2, 4} {
			add(fmt.Sprintf("%s with %d storage calls", o.name, left), func(ctx context.Context, w *w27) (string, error) {
				w.p.left = left
				return o.run(ctx, w)
			})
		}
	}
	for _, o := range e.ops {
		w := e.world(never27)
		o.got, o.err = o.run(context.Background(), w)
		o.after = e.shape(w.st.Snapshot())
	}
	// The lines of each call alone.
	c.Parallel("alone", len(e.ops), func(i int) {
		o := e.ops[i]
		var b bytes.Buffer
		l := zerolog.New(&b)
		w := e.world(never27)
		e.judge(o, w, "its own logger", func() (string, error) { return o.run(l.WithContext(context.Background()), w) })
		o.lines = e.parse(&b, "alone", o.name)
		if len(o.lines) > 0 {
			c.Count("calls_that_log", 1)
		}
		for _, line := range o.lines {
			for _, f := range line {
				k, v, _ := strings.Cut(f, "=")
				switch k {
				case "oid":
					if strings.Contains(o.name, " of missing") && v != `"MISSING"` && !strings.HasPrefix(o.name, "Encrypt") {
						c.Violate("foreign-field", "%s logged %s", o.name, f)
					}
				case "uid":
					want := `"user"`
					switch {
					case strings.Contains(o.name, "powerless"):
						want = `"powerless"`
					case strings.Contains(o.name, "outsider"):
						want = `"outsider"`
					case strings.Contains(o.name, "standalone"):
						want = `"USER"`
					}
					if v != want && !strings.Contains(strings.ToLower(o.name), "group") && !strings.Contains(o.name, "User") && !strings.Contains(o.name, "Identity") {
						c.Violate("foreign-field", "%s logged %s", o.name, f)
					}
				}
			}
		}
	})
	return e
}

// shape is what is the same in the storage of all runs of a call: which records there are and which
// changed, apart from new IDs.
func (e *e27) shape(snap map[string]string) map[string]string {
	out := map[string]string{}
	for k, v := range snap {
		b, ok := e.base[k]
		switch {
		case !ok:
			dt, _, _ := strings.Cut(k, "/")
			out["new "+dt] += "+"
		case b != v:
			out[k] = "changed"
		default:
			out[k] = "same"
		}
	}
	return out
}

// judge makes a call and compares its outcome with that without a logger.
func (e *e27) judge(o *op27, w *w27, how string, f func() (string, error)) {
	var got string
	var err error
	if e.c.Guard("logging", func() { got, err = f() }) {
		return
	}
	if got != o.got || fmt.Sprint(err) != fmt.Sprint(o.err) {
		e.c.Violate("result", "%s with %s gave %q, %v; without logger %q, %v", o.name, how, got, err, o.got, o.err)
	}
	if after := e.shape(w.st.Snapshot()); !kit.SameContents(after, o.after) {
		e.c.Violate("effect", "%s with %s left storage as %v; without logger %v", o.name, how, after, o.after)
	}
}

var (
	uuid27 = regexp.MustCompile(`[0-9a-fA-F]{8}-[0-9a-fA-F]{4}-[0-9a-fA-F]{4}-[0-9a-fA-F]{4}-[0-9a-fA-F]{12}`)
	time27 = regexp.MustCompile(`\d{4}-\d\d-\d\dT\d\d:\d\d:\d\d[0-9.]*(Z|[+-]\d\d:\d\d)`)
)

// parse takes the lines apart, checks them, and returns the fields of each in the order given, with the
// names of known UUIDs in their places.
func (e *e27) parse(b *bytes.Buffer, how, call string) [][]string {
	var out [][]string
	text := b.String()
	b.Reset()
	if text != "" && !strings.HasSuffix(text, "\n") {
		e.c.Violate("line", "%s, %s: incomplete line: %q", how, call, text)
	}
	for _, line := range strings.Split(text, "\n") {
		if line == "" {
			continue
		}
		e.c.Count("lines", 1)
		fs, err := fieldList([]byte(line))
		if err != nil {
			e.c.Violate("line", "%s, %s: %v: %q", how, call, err, line)
			continue
		}
		levels := 0
		for _, f := range fs {
			if strings.HasPrefix(f, "level=") {
				levels++
				if f != `level="debug"` {
					e.c.Violate("level", "%s, %s: not at debug level: %s", how, call, line)
				}
			}
		}
		if levels != 1 {
			e.c.Violate("level", "%s, %s: %d levels: %s", how, call, levels, line)
		}
		if what, ok := e.secret.scan([]byte(line), 0); ok {
			e.c.Violate("secret:"+what[:min(8, len(what))], "%s, %s: the %s is logged: %s", how, call, what, line)
		}
		for i := range fs {
			fs[i] = uuid27.ReplaceAllStringFunc(fs[i], func(u string) string {
				if n := e.known[strings.ToLower(u)]; n != "" {
					return n
				}
				return "NEW"
			})
			fs[i] = time27.ReplaceAllString(fs[i], "TIME")
		}
		out = append(out, fs)
	}
	return out
}

// fieldList gives the fields of a JSON object as name=value, in their order.
func fieldList(line []byte) ([]string, error) {
	d := json.NewDecoder(bytes.NewReader(line))
	if t, err := d.Token(); err != nil || t != json.Delim('{') {
		return nil, fmt.Errorf("not a JSON object (%v)", err)
	}
	var out []string
	for d.More() {
		k, err := d.Token()
		if err != nil {
			return nil, err
		}
		var v json.RawMessage
		if err := d.Decode(&v); err != nil {
			return nil, err
		}
		out = append(out, fmt.Sprintf("%v=%s", k, v))
	}
	if _, err := d.Token(); err != nil {
		return nil, err
	}
	if d.More() {
		return nil, errors.New("more than one object in a line")
	}
	return out, nil
}

// canon makes lines comparable: their order, and that of their fields, does not matter.
func canon(lines [][]string) []string {
	var out []string
	for _, l := range lines {
		s := append([]string{}, l...)
		sort.Strings(s)
		out = append(out, strings.Join(s, " "))
	}
	sort.Strings(out)
	return out
}

// plus adds the caller's fields to every line.
func plus(lines [][]string, fields []string) [][]string {
	var out [][]string
	for _, l := range lines {
		out = append(out, append(append([]string{}, l...), fields...))
	}
	return out
}

func diffLines(got, want []string) string {
	n := map[string]int{}
	for _, l := range got {
		n[l]++
	}
	for _, l := range want {
		n[l]--
	}
	var out []string
	for l, k := range n {
		if k > 0 {
			out = append(out, fmt.Sprintf("%d times too many: %s", k, l))
		} else if k < 0 {
			out = append(out, fmt.Sprintf("%d times missing: %s", -k, l))
		}
	}
	sort.Strings(out)
	return strings.Join(out[:min(len(out), 6)], "\n")
}

// silent makes all calls without a logger, and with loggers that must not be used, and watches the
// standard outputs of the process.
func (e *e27) silent() {
	dir := kit.Scratch()
	f, err := os.Create(filepath.Join(dir, "out"))
	if err != nil {
		panic(err)
	}
	saved := []int{}
	for _, fd := range []int{1, 2} {
		n, err := syscall.Dup(fd)
		if err != nil {
			panic(err)
		}
		saved = append(saved, n)
		syscall.Dup3(int(f.Fd()), fd, 0)
	}
	func() {
		defer func() {
			for i, fd := range []int{1, 2} {
				syscall.Dup3(saved[i], fd, 0)
				syscall.Close(saved[i])
			}
		}()
		var b bytes.Buffer
		disabled, nop := zerolog.New(&b).Level(zerolog.Disabled), zerolog.Nop()
		type key struct{}
		for name, ctx := range map[string]context.Context{
			"no logger": context.Background(), "other values": context.WithValue(context.Background(), key{}, "x"),
			"a disabled logger": disabled.WithContext(context.Background()), "a no-op logger": nop.WithContext(context.Background()),
		} {
			for _, o := range e.ops {
				if o.slow && name != "no logger" {
					continue
				}
				w := e.world(never27)
				e.judge(o, w, name, func() (string, error) { return o.run(ctx, w) })
				e.c.Count("silent_calls", 1)
				e.c.Case("silent", o.name, name)
			}
		}
		// The global level keeps all back.
		global := zerolog.GlobalLevel()
		zerolog.SetGlobalLevel(zerolog.InfoLevel)
		l := zerolog.New(&b)
		for _, o := range e.ops {
			if !o.slow {
				o.run(l.WithContext(context.Background()), e.world(never27))
			}
		}
		zerolog.SetGlobalLevel(global)
		if b.Len() > 0 {
			e.c.Violate("level", "lines although the logger or the global level forbid them: %.500q", b.String())
		}
	}()
	f.Close()
	if out, _ := os.ReadFile(f.Name()); len(out) > 0 {
		e.c.Violate("output", "the library wrote to the standard outputs: %.500q", out)
	}
}

type failingWriter struct{}

func (failingWriter) Write(p []byte) (int, error) { return 0, kit.ErrInjected }

// levels makes all calls with loggers of all levels.
func (e *e27) levels() {
	type job struct {
		o *op27
		l zerolog.Level
	}
	var jobs []job
	for _, l := range []zerolog.Level{zerolog.TraceLevel, zerolog.DebugLevel, zerolog.InfoLevel, zerolog.WarnLevel, zerolog.ErrorLevel, zerolog.FatalLevel, zerolog.PanicLevel, zerolog.NoLevel, zerolog.Disabled} {
		for i, o := range e.ops {
			if !o.slow || (i+int(l))%3 == 0 {
				jobs = append(jobs, job{o, l})
			}
		}
	}
	e.c.Parallel("levels", len(jobs), func(i int) {
		o, level := jobs[i].o, jobs[i].l
		var b bytes.Buffer
		hooked := 0
		l := zerolog.New(&b).Level(level).With().Str("caller", "field").Logger().Hook(zerolog.HookFunc(func(ev *zerolog.Event, l zerolog.Level, _ string) {
			hooked++
			if l != zerolog.DebugLevel {
				e.c.Violate("level", "%s logs at level %v", o.name, l)
			}
		}))
		w := e.world(never27)
		how := fmt.Sprint("a logger at level ", level)
		e.judge(o, w, how, func() (string, error) { return o.run(l.WithContext(context.Background()), w) })
		e.c.Case("level", o.name, level)
		if level > zerolog.DebugLevel && b.Len() > 0 {
			e.c.Violate("level", "%s wrote with %s: %.300q", o.name, how, b.String())
			return
		}
		got := e.parse(&b, how, o.name)
		if level <= zerolog.DebugLevel {
			e.same(o, got, []string{`caller="field"`}, how)
		}
		// A logger whose writer fails.
		w = e.world(never27)
		l = zerolog.New(failingWriter{}).Level(level)
		e.judge(o, w, "a failing writer", func() (string, error) { return o.run(l.WithContext(context.Background()), w) })
	})
}

// same compares the lines of a call with those it writes alone.
func (e *e27) same(o *op27, got [][]string, fields []string, how string) {
	g, w := canon(got), canon(plus(o.lines, fields))
	if !sameStrings(g, w) {
		e.c.Violate("lines", "%s with %s does not write the lines it writes alone: %s", o.name, how, diffLines(g, w))
	}
}

var values27 = []string{"", "x", "caller", "method", "a\nb", "\"", "\\", "\x00", "\xff\xfe", "{\"level\":\"error\"}", "\u2028", "漢字", strings.Repeat("v", 300)}

// callerFields adds random fields to a logger.
func callerFields(r *rand.Rand, l zerolog.Logger) (zerolog.Logger, []string) {
	var names []string
	for n := r.IntN(5); n > 0; n-- {
		name := kit.Pick(r, []string{"method", "uid", "oid", "request", "a", "b", "trace", "time"}) + fmt.Sprint(n)
		if r.IntN(4) == 0 {
			name = kit.Pick(r, []string{"method", "uid", "oid", "request"}) // the same names as the library's
		}
		switch r.IntN(3) {
		case 0:
			l = l.With().Str(name, kit.Pick(r, values27)).Logger()
		case 1:
			l = l.With().Int(name, r.IntN(1000)).Str("more", "y").Logger()
		default:
			l = l.With().Strs(name, []string{"p", "q"}).Logger()
		}
	}
	var b bytes.Buffer
	p := l.Output(&b)
	p.Log().Send()
	fs, err := fieldList(b.Bytes())
	if err != nil {
		panic(err)
	}
	names = append(names, fs...)
	return l, names
}

// shared makes calls one after the other that share a logger, or have loggers with a common origin,
// and looks at the loggers in between.
func (e *e27) shared(r *rand.Rand) {
	var b, side bytes.Buffer
	type caller struct {
		l      zerolog.Logger
		ctx    context.Context
		fields []string
		probe  string
	}
	root, _ := callerFields(r, zerolog.New(&b))
	var cs []*caller
	for n := 0; n < 4; n++ {
		l := root
		if n > 0 && r.IntN(2) == 0 {
			l = cs[r.IntN(len(cs))].l
		}
		var fields []string
		l, fields = callerFields(r, l)
		cs = append(cs, &caller{l: l, fields: fields})
	}
	for _, x := range cs {
		x.ctx = x.l.WithContext(context.Background())
	}
	// Some share the context's logger itself, or have contexts made from others' by the library.
	cs = append(cs, &caller{l: cs[0].l, ctx: context.WithValue(cs[0].ctx, struct{}{}, 1), fields: cs[0].fields})
	copied := log.CopyCtxLogger(cs[1].ctx)
	cs = append(cs, &caller{l: *zerolog.Ctx(copied), ctx: copied, fields: cs[1].fields})
	probe := func(x *caller) string {
		side.Reset()
		for _, l := range []zerolog.Logger{x.l.Output(&side), zerolog.Ctx(x.ctx).Output(&side)} {
			l.Warn().Msg("probe")
			d := l.With().Str("derived", "d").Logger()
			d.Error().Msg("probe")
		}
		zerolog.Ctx(x.ctx).Info().Msg("probe")
		x.l.Info().Msg("probe")
		s := side.String() + b.String()
		b.Reset()
		return s
	}
	for _, x := range cs {
		x.probe = probe(x)
	}
	for s := 0; s < 12; s++ {
		o := kit.Pick(r, e.ops)
		for o.slow && r.IntN(10) > 0 {
			o = kit.Pick(r, e.ops)
		}
		x := kit.Pick(r, cs)
		w := e.world(never27)
		e.judge(o, w, "a shared logger", func() (string, error) { return o.run(x.ctx, w) })
		e.same(o, e.parse(&b, "shared", o.name), x.fields, fmt.Sprintf("a logger with fields %v that other calls used", x.fields))
		e.c.Case("shared", o.name, x.fields)
		for i, y := range cs {
			e.c.Count("probes", 1)
			if p := probe(y); p != y.probe {
				e.c.Violate("callers-logger", "after %s with logger %v, logger %d writes\n%s\ninstead of\n%s", o.name, x.fields, i, p, y.probe)
				return
			}
		}
	}
}

// concurrent makes calls at the same time with one context, or with loggers of a common origin.
func (e *e27) concurrent(r *rand.Rand) {
	log := &lines20{}
	root, fields := callerFields(r, zerolog.New(log))
	one := r.IntN(2) == 0
	ctx0 := root.WithContext(context.Background())
	type job struct {
		o   *op27
		ctx context.Context
		fs  []string
	}
	work := make([][]job, workers20)
	for w := range work {
		for n := 0; n < 6; n++ {
			o := kit.Pick(r, e.ops)
			for o.slow && r.IntN(10) > 0 {
				o = kit.Pick(r, e.ops)
			}
			j := job{o, ctx0, fields}
			if !one {
				l := root.With().Str("call", fmt.Sprint(w, ",", n)).Logger()
				j.ctx, j.fs = l.WithContext(context.Background()), append(append([]string{}, fields...), fmt.Sprintf(`call="%d,%d"`, w, n))
			}
			work[w] = append(work[w], j)
		}
	}
	var want [][]string
	for _, js := range work {
		for _, j := range js {
			want = append(want, plus(j.o.lines, j.fs)...)
		}
	}
	probe := func() string {
		var b bytes.Buffer
		l := root.Output(&b)
		l.Info().Msg("probe")
		l = zerolog.Ctx(ctx0).Output(&b)
		l.Info().Msg("probe")
		return b.String()
	}
	before := probe()
	together(e.c, "logging", func(w int, call func(func())) {
		for _, j := range work[w] {
			world := e.world(never27)
			call(func() {
				e.judge(j.o, world, "a logger used by others at the same time", func() (string, error) { return j.o.run(j.ctx, world) })
			})
			e.c.Case("concurrent", one, j.o.name, fields)
		}
	})
	if p := probe(); p != before {
		e.c.Violate("callers-logger", "after concurrent calls the caller's logger writes\n%s\ninstead of\n%s", p, before)
	}
	got := e.parse(&log.b, "concurrent calls", "several")
	e.c.Count("concurrent_lines", int64(len(got)))
	if g, w := canon(got), canon(want); !sameStrings(g, w) {
		e.c.Violate("concurrent-lines", "concurrent calls (one context: %v) do not write the lines that they write alone: %s", one, diffLines(g, w))
	}
}

// c27Contexts calls the log package with trees of contexts, and compares every logger with a model.
func c27Contexts(c *kit.C, r *rand.Rand) {
	var b bytes.Buffer
	type node struct {
		ctx    context.Context
		fields *[]string // shared by contexts with the same logger
	}
	l, fs := callerFields(r, zerolog.New(&b))
	nodes := []node{{l.WithContext(context.Background()), &fs}}
	var trail trail
	for s := 0; s < 15; s++ {
		i := r.IntN(len(nodes))
		x := nodes[i]
		v := kit.Pick(r, append(values27, kit.String(r)))
		enc := func(name string) string {
			var e bytes.Buffer
			el := zerolog.New(&e)
			el.Log().Str(name, v).Send()
			l, err := fieldList(e.Bytes())
			if err != nil {
				panic(err)
			}
			return l[0]
		}
		switch r.IntN(6) {
		case 0, 1:
			fs := append([]string{}, *x.fields...)
			nodes = append(nodes, node{log.CopyCtxLogger(x.ctx), &fs})
			trail.add("%d = copy of %d", len(nodes)-1, i)
		case 2:
			type key struct{}
			nodes = append(nodes, node{context.WithValue(x.ctx, key{}, s), x.fields})
			trail.add("%d = same logger as %d", len(nodes)-1, i)
		case 3:
			log.WithMethod(x.ctx, v)
			*x.fields = append(*x.fields, enc("method"))
			trail.add("WithMethod(%d, %q)", i, v)
		case 4:
			log.WithUserID(x.ctx, v)
			*x.fields = append(*x.fields, enc("uid"))
			trail.add("WithUserID(%d, %q)", i, v)
		default:
			log.WithObjectID(x.ctx, v)
			*x.fields = append(*x.fields, enc("oid"))
			trail.add("WithObjectID(%d, %q)", i, v)
		}
		for j, y := range nodes {
			b.Reset()
			log.Ctx(y.ctx).Debug().Send()
			got, err := fieldList(b.Bytes())
			want := append([]string{`level="debug"`}, *y.fields...)
			if err != nil || !sameStrings(got, want) {
				c.Violate("context", "after\n%s\nthe logger of context %d writes %v (%v) instead of %v", &trail, j, got, err, want)
				return
			}
		}
		c.Count("probes", int64(len(nodes)))
	}
	c.Case("contexts", trail.String())
	// Without a logger there is none afterwards either.
	ctx := log.CopyCtxLogger(context.Background())
	log.WithMethod(ctx, "m")
	log.WithUserID(log.CopyCtxLogger(ctx), "u")
	log.WithObjectID(context.Background(), "o")
	if log.Ctx(ctx).GetLevel() != zerolog.Disabled || log.Ctx(context.Background()).GetLevel() != zerolog.Disabled {
		c.Violate("context", "a context without a logger has one of level %v", log.Ctx(ctx).GetLevel())
	}
}
