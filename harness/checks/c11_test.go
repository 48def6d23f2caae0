package checks

import (
	"bytes"
	"fmt"
	"math/rand/v2"
	"testing"
	"testing/synctest"
	"time"

	"github.com/cybercryptio/d1-lib/v2/crypto"
	"github.com/cybercryptio/d1-lib/v2/data"
	"github.com/cybercryptio/d1-lib/v2/id"

	"verif/harness/kit"
	"verif/harness/ref"
)

// C11: tokens yield their contents until they expire, and never when altered. The check runs on a
// virtual clock, so that it can stop at any nanosecond.

func TestC11(t *testing.T) {
	kit.Run(t, "C11", "exploration", "An evaluation is one use of a token at one moment of the virtual clock, compared with its contents and validity period, or one use of an altered token. Non-trivial: distinct (kind, contents, zone, moment relative to the expiry, alteration).", func(c *kit.C) {
		orig := time.Local
		defer func() { time.Local = orig }()
		zones := []*time.Location{time.UTC, time.FixedZone("", 0), time.FixedZone("A", 2*3600), time.FixedZone("B", -11*3600), time.FixedZone("C", 5*3600+45*60), time.FixedZone("", 14*3600), time.FixedZone("D", -9*3600-30*60)}
		if l, err := time.LoadLocation("Europe/Copenhagen"); err == nil { // with daylight saving time
			zones = append(zones, l)
		}
		for zi, zone := range zones {
			time.Local = zone
			c.Parallel("tokens", c.N(144, 1600), func(i int) {
				synctest.Test(c.T, func(*testing.T) {
					c.Guard("tokens", func() { prep(c, func() { c11Tokens(c, zi, zones, i) }) })
				})
			})
			c.Parallel("identity tokens", c.N(24, 240), func(i int) {
				synctest.Test(c.T, func(*testing.T) {
					c.Guard("identity tokens", func() { prep(c, func() { c11Identity(c, zi, i) }) })
				})
			})
		}
		time.Local = orig
		c.Parallel("altered", c.N(360, 4000), func(i int) { prep(c, func() { c11Altered(c, i) }) })
		c.Require("before_expiry", 2000)
		c.Require("after_expiry", 2000)
		c.Require("altered", 2000)
	})
}

// live is a token together with what it must yield.
type live struct {
	kind     string
	t        data.SealedToken
	s        string
	contents []byte
	expiry   time.Time
	validity time.Duration
	altered  []data.SealedToken
	use      []func(t data.SealedToken, s string) ([]byte, error)
}

// c11Start lets the virtual clock begin anywhere in the coming decades.
func c11Start(r *rand.Rand) {
	time.Sleep(time.Duration(r.Int64N(int64(60 * 365 * 24 * time.Hour))))
	if r.IntN(3) == 0 { // at a full second, or near one
		time.Sleep(time.Until(time.Now().Truncate(time.Second).Add(time.Second + time.Duration(r.IntN(3)-1))))
	}
}

func c11Tokens(c *kit.C, zi int, zones []*time.Location, i int) {
	r := c.Rand("tokens", zi, i)
	c11Start(r)
	k := kit.NewKeys(r)
	st, ids := kit.NewStore(), kit.NewIDs()
	d, d2 := kit.NewD1(k, st, ids), kit.NewD1(k, kit.NewStore(), kit.NewIDs())
	cr := must(crypto.NewAESCryptor(k.D1.TEK))
	direct := func(t data.SealedToken, _ string) ([]byte, error) { return d.GetTokenContents(ctx, &t) }
	elsewhere := func(_ data.SealedToken, s string) ([]byte, error) {
		t, err := data.TokenFromString(s)
		if err != nil {
			return nil, err
		}
		return d2.GetTokenContents(ctx, &t)
	}
	again := func(t data.SealedToken, s string) ([]byte, error) { // written and read repeatedly
		for n := 0; n < 3; n++ {
			t2, err := data.TokenFromString(s)
			if err != nil {
				return nil, err
			}
			if s, err = t2.String(); err != nil {
				return nil, err
			}
		}
		return elsewhere(t, s)
	}
	unseal := func(t data.SealedToken, _ string) ([]byte, error) {
		p, err := t.Unseal(&cr)
		if err == nil && !p.ExpiryTime.Equal(t.ExpiryTime) {
			c.Violate("expiry", "Unseal of a token that expires at %v gave the expiry time %v", t.ExpiryTime, p.ExpiryTime)
		}
		return p.Plaintext, err
	}
	var lives []*live
	for n := 0; n < 6; n++ {
		time.Sleep(time.Duration(r.Int64N(int64(2 * time.Minute))))
		l := &live{contents: kit.Content(r, 0), validity: time.Hour}
		now := time.Now()
		if n%2 == 0 {
			l.kind = "CreateToken"
			l.t = must(d.CreateToken(ctx, clone(l.contents)))
		} else {
			l.kind = "NewToken"
			l.validity = kit.Pick(r, []time.Duration{time.Hour, time.Minute, time.Second, 1, time.Millisecond, 24 * time.Hour, 365 * 24 * time.Hour, 0, -1, -time.Hour, time.Duration(r.Int64N(int64(100 * time.Hour)))})
			tk := data.NewToken(clone(l.contents), l.validity)
			if !tk.ExpiryTime.Equal(now.Add(l.validity)) || !bytes.Equal(tk.Plaintext, l.contents) {
				c.Violate("expiry", "NewToken at %v with validity %v gave the expiry time %v", now, l.validity, tk.ExpiryTime)
			}
			l.t = must(tk.Seal(&cr))
		}
		l.expiry = now.Add(l.validity)
		if !l.t.ExpiryTime.Equal(l.expiry) {
			c.Violate("expiry", "%s at %v with validity %v: the token's expiry time is %v", l.kind, now, l.validity, l.t.ExpiryTime)
		}
		l.s = must(l.t.String())
		rt, err := ref.TokenFromString(l.s)
		if err != nil || !rt.ExpiryTime.Equal(l.expiry) {
			c.Violate("expiry", "the string form of a token that expires at %v says %v (%v)", l.expiry, rt.ExpiryTime, err)
		}
		l.use = []func(data.SealedToken, string) ([]byte, error){direct, elsewhere, again, unseal}
		// The same token with another visible expiry time.
		for _, diff := range []time.Duration{1, -1, time.Millisecond, time.Second, -time.Second, time.Minute, time.Hour, 2 * time.Hour, 24 * time.Hour, 100 * 365 * 24 * time.Hour, time.Duration(r.Int64N(int64(1000 * time.Hour)))} {
			m := l.t
			m.ExpiryTime = l.expiry.Add(diff).In(kit.Pick(r, zones))
			l.altered = append(l.altered, m)
		}
		for _, z := range zones { // a shift that reads the same in another zone
			_, o1 := l.expiry.Zone()
			_, o2 := l.expiry.In(z).Zone()
			if o1 != o2 {
				m := l.t
				x := l.expiry
				m.ExpiryTime = time.Date(x.Year(), x.Month(), x.Day(), x.Hour(), x.Minute(), x.Second(), x.Nanosecond(), z)
				if !m.ExpiryTime.Equal(x) {
					l.altered = append(l.altered, m)
				}
			}
		}
		m := l.t
		m.ExpiryTime = time.Time{}
		l.altered = append(l.altered, m)
		lives = append(lives, l)
	}
	c11Observe(c, r, zi, lives)
}

// c11Observe uses tokens at ever later moments.
func c11Observe(c *kit.C, r *rand.Rand, zi int, lives []*live) {
	check := func() {
		for _, l := range lives {
			rel := time.Since(l.expiry)
			if rel == 0 {
				continue // either answer will do
			}
			for j, use := range l.use {
				c.Case(l.kind, j, zi, len(l.contents), rel)
				got, err := use(l.t, l.s)
				if rel < 0 {
					c.Count("before_expiry", 1)
					if err != nil || !bytes.Equal(got, l.contents) {
						c.Violate("before:"+l.kind, "a token (%s, validity %v, expires %v) with %x, used in way %d at %v before its expiry, gave %x, %v", l.kind, l.validity, l.expiry, l.contents, j, -rel, got, err)
					}
				} else {
					c.Count("after_expiry", 1)
					if err == nil {
						c.Violate("after:"+l.kind, "a token (%s, validity %v, expires %v), used in way %d at %v after its expiry, gave %x", l.kind, l.validity, l.expiry, j, rel, got)
					} else if len(got) > 0 {
						c.Violate("leak:"+l.kind, "an expired token gave %x besides the error %v", got, err)
					}
				}
			}
			if r.IntN(3) == 0 {
				for j, a := range l.altered {
					s := must(a.String())
					for w, use := range l.use {
						c.Case(l.kind, "expiry", j, w, rel)
						c.Count("altered", 1)
						if got, err := use(a, s); err == nil {
							c.Violate("expiry-changed", "a token (%s) whose expiry time was changed from %v to %v, used at %v, gave %x", l.kind, l.expiry, a.ExpiryTime, time.Now(), got)
						}
					}
				}
			}
		}
	}
	check()
	moments := []time.Time{}
	for _, l := range lives {
		for _, d := range []time.Duration{-1, 0, 1, -time.Millisecond, time.Millisecond, -time.Second, time.Second, time.Duration(r.Int64N(int64(time.Hour))), -time.Duration(r.Int64N(int64(time.Hour))), 2 * time.Hour, 5 * 365 * 24 * time.Hour} {
			moments = append(moments, l.expiry.Add(d))
		}
		// Around the full second in which it expires.
		moments = append(moments, l.expiry.Truncate(time.Second), l.expiry.Truncate(time.Second).Add(time.Second), l.expiry.Round(time.Minute))
	}
	for len(moments) > 0 {
		next := -1
		for i, m := range moments {
			if m.After(time.Now()) && (next < 0 || m.Before(moments[next])) {
				next = i
			}
		}
		if next < 0 {
			break
		}
		time.Sleep(time.Until(moments[next]))
		check()
	}
}

func c11Identity(c *kit.C, zi, i int) {
	r := c.Rand("identity", zi, i)
	c11Start(r)
	k := kit.NewKeys(r)
	st := kit.NewStore()
	sa, sb := kit.NewStandalone(k, st), kit.NewStandalone(k, st)
	var lives []*live
	for n := 0; n < 2; n++ {
		uid, pwd := must2(sa.NewUser(ctx, id.ScopeAll))
		for m := 0; m < 2; m++ {
			time.Sleep(time.Duration(r.Int64N(int64(10 * time.Minute))))
			now := time.Now()
			s, unix, err := sa.LoginUser(ctx, uid, pwd)
			must0(err)
			if unix != now.Add(time.Hour).Unix() {
				c.Violate("login-expiry", "LoginUser at %v (unix %d) returned the expiry time %d", now, now.Unix(), unix)
			}
			l := &live{kind: "LoginUser", s: s, contents: []byte(uid), expiry: now.Add(time.Hour), validity: time.Hour}
			for _, x := range []*id.Standalone{sa, sb} {
				l.use = append(l.use, func(_ data.SealedToken, s string) ([]byte, error) {
					who, err := x.GetIdentity(ctx, s)
					return []byte(who.ID), err
				})
			}
			t := must(data.TokenFromString(s))
			for _, diff := range []time.Duration{1, time.Second, time.Hour, 24 * time.Hour, -1, 100 * 365 * 24 * time.Hour} {
				a := t
				a.ExpiryTime = t.ExpiryTime.Add(diff)
				l.altered = append(l.altered, a)
			}
			lives = append(lives, l)
		}
	}
	c11Observe(c, r, zi, lives)
}

// c11Altered uses altered and mixed tokens.
func c11Altered(c *kit.C, i int) {
	r := c.Rand("altered", i)
	k, k2 := kit.NewKeys(r), kit.NewKeys(r)
	d := kit.NewD1(k, kit.NewStore(), kit.NewIDs())
	d2 := kit.NewD1(k2, kit.NewStore(), kit.NewIDs())
	cr := must(crypto.NewAESCryptor(k.D1.TEK))

	c1, c2 := kit.Content(r, 0), kit.Content(r, 0)
	if i%4 == 3 {
		c1 = kit.Bytes(r, 3000+r.IntN(80000))
	}
	a, b := must(d.CreateToken(ctx, clone(c1))), must(d.CreateToken(ctx, clone(c2)))
	foreign := must(d2.CreateToken(ctx, clone(c1)))
	tk := data.NewToken(clone(c1), 90*time.Minute)
	e := must(tk.Seal(&cr))
	reject := func(kind string, t data.SealedToken) {
		c.Case("altered", kind, len(c1), r.IntN(1<<20))
		c.Count("altered", 1)
		got, err := d.GetTokenContents(ctx, &t)
		if err == nil {
			c.Violate("altered:"+kind, "an altered token (%s) gave %x", kind, got)
		} else if len(got) > 0 {
			c.Violate("altered-leak:"+kind, "an altered token (%s) gave %x besides the error %v", kind, got, err)
		}
		if p, err := t.Unseal(&cr); err == nil {
			c.Violate("altered:"+kind, "Unseal of an altered token (%s) gave %x", kind, p.Plaintext)
		}
	}
	all := []data.SealedToken{a, b, foreign, e}
	for x := range all { // all combinations of parts
		for y := range all {
			for z := range all {
				if x == y && y == z && x != 2 {
					continue
				}
				reject(fmt.Sprintf("parts %d%d%d", x, y, z), data.SealedToken{ExpiryTime: all[x].ExpiryTime, Ciphertext: all[y].Ciphertext, WrappedKey: all[z].WrappedKey})
			}
		}
	}
	if got, err := d2.GetTokenContents(ctx, &a); err == nil {
		c.Violate("foreign-key", "an instance with another token key opened a token: %x", got)
	}
	flip := func(p []byte, bit int) []byte {
		m := bytes.Clone(p)
		m[bit/8] ^= 1 << (bit % 8)
		return m
	}
	for n := 0; n < 8*len(a.WrappedKey); n += 1 + r.IntN(4) {
		reject("wrapped key", data.SealedToken{ExpiryTime: a.ExpiryTime, Ciphertext: a.Ciphertext, WrappedKey: flip(a.WrappedKey, n)})
	}
	for n := 0; n < 8*len(a.Ciphertext); n += 1 + r.IntN(1+len(a.Ciphertext)/20) {
		reject("ciphertext", data.SealedToken{ExpiryTime: a.ExpiryTime, Ciphertext: flip(a.Ciphertext, n), WrappedKey: a.WrappedKey})
	}
	for n := 0; n < len(a.Ciphertext); n += 1 + r.IntN(10+len(a.Ciphertext)/20) {
		reject("truncated", data.SealedToken{ExpiryTime: a.ExpiryTime, Ciphertext: a.Ciphertext[:n], WrappedKey: a.WrappedKey})
	}
	for n := 0; n < len(a.WrappedKey); n++ {
		reject("truncated key", data.SealedToken{ExpiryTime: a.ExpiryTime, Ciphertext: a.Ciphertext, WrappedKey: a.WrappedKey[:n]})
	}
	reject("extended", data.SealedToken{ExpiryTime: a.ExpiryTime, Ciphertext: append(bytes.Clone(a.Ciphertext), 0), WrappedKey: a.WrappedKey})
	for _, h := range []int{-12, -5, 1, 7, 14} { // the same moment, but not what was issued
		t := a
		_, o := a.ExpiryTime.Zone()
		t.ExpiryTime = a.ExpiryTime.In(time.FixedZone("", o+h*1800))
		reject("zone", t)
	}
	reject("empty", data.SealedToken{ExpiryTime: a.ExpiryTime})
	// Sealed by somebody without the key, or for another purpose.
	rnd := ref.Random(func(n int) []byte { return kit.Bytes(r, n) })
	for _, key := range [][]byte{k.D1.KEK, k.D1.AEK, k.D1.IEK, k.ID.TEK, make([]byte, 32), kit.Key(r)} {
		f := ref.SealToken(key, rnd, a.ExpiryTime, append([]byte{}, c1...))
		reject("other key", data.SealedToken{ExpiryTime: f.ExpiryTime, Ciphertext: f.Ciphertext, WrappedKey: f.WrappedKey})
	}
	// The string form. Where the altered string still decodes to the same token, it is that token.
	s := must(a.String())
	for n := 0; n < 120; n++ {
		m := []byte(s)
		switch r.IntN(6) {
		case 0:
			m = m[:r.IntN(len(m))]
		case 1:
			m = m[1+r.IntN(len(m)-1):]
		case 2:
			p := r.IntN(len(m))
			m = append(m[:p:p], append([]byte{"AZaz09-_=+/ \n"[r.IntN(13)]}, m[p:]...)...)
		case 3:
			p := r.IntN(len(m))
			m = append(m[:p:p], m[p+1:]...)
		default:
			m[r.IntN(len(m))] = "AZaz09-_=+/ \n"[r.IntN(13)]
		}
		if string(m) == s {
			continue
		}
		c.Case("string", string(m))
		c.Count("altered", 1)
		t, err := data.TokenFromString(string(m))
		if err != nil {
			continue
		}
		got, err := d.GetTokenContents(ctx, &t)
		if err == nil && !(t.ExpiryTime.Equal(a.ExpiryTime) && bytes.Equal(t.Ciphertext, a.Ciphertext) && bytes.Equal(t.WrappedKey, a.WrappedKey) && bytes.Equal(got, c1)) {
			c.Violate("altered:string", "the token %s, altered to %s, gave %x", s, m, got)
		}
	}
}
