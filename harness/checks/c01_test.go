package checks

import (
	"fmt"
	"testing"

	"github.com/gofrs/uuid"

	d1 "github.com/cybercryptio/d1-lib/v2"
	"github.com/cybercryptio/d1-lib/v2/id"

	"verif/harness/kit"
)

// C01: Decrypt returns exactly what was last written.
func TestC01(t *testing.T) {
	kit.Run(t, "C01", "exploration", "An evaluation is one Decrypt compared with a model of all writes. Non-trivial: distinct (provider, length and content of plaintext and associated data).", func(c *kit.C) {
		c01Systematic(c)
		n := c.N(240, 2400)
		c.Parallel("history", n, func(i int) { c01History(c, i) })
		c.Require("updates", 1000)
		c.Require("decrypts_on_other_instance", 1000)
	})
}

type c01Model struct{ p, ad []byte }

func c01Check(c *kit.C, what string, d *d1.D1, tok string, oid uuid.UUID, m c01Model, tr fmt.Stringer) {
	got, err := d.Decrypt(ctx, tok, oid)
	c.Case(what, len(m.p), len(m.ad), m.p, "|", m.ad)
	if err != nil {
		c.Violate("decrypt-failed", "%s: Decrypt failed with %v although the caller is authorized; expected %s\n%s", what, err, showObj(m.p, m.ad), tr)
	} else if !sameObj(got, m.p, m.ad) {
		c.Violate("wrong-content", "%s: Decrypt returned %s, expected %s\n%s", what, showObj(got.Plaintext, got.AssociatedData), showObj(m.p, m.ad), tr)
	}
}

// c01Systematic tries all small lengths, block boundaries and single bytes.
func c01Systematic(c *kit.C) {
	r := c.Rand("systematic")
	k := kit.NewKeys(r)
	type in struct{ p, ad []byte }
	var ins []in
	for n := 0; n <= 300; n++ {
		ins = append(ins, in{kit.Bytes(r, n), []byte("ad")}, in{[]byte("p"), kit.Bytes(r, n)}, in{kit.Bytes(r, n), kit.Bytes(r, n)})
	}
	for b := 0; b < 256; b++ {
		ins = append(ins, in{[]byte{byte(b)}, []byte{byte(b), 0}}, in{[]byte{0, byte(b), 0}, []byte{byte(b)}})
	}
	for _, n := range []int{511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 16384, 65535, 65536, 65537, 1 << 20, 3<<20 + 1} {
		ins = append(ins, in{kit.Bytes(r, n), nil}, in{nil, kit.Bytes(r, n)}, in{make([]byte, n), make([]byte, n)})
	}
	if c.Thorough() {
		for n := 301; n <= 2100; n++ {
			ins = append(ins, in{kit.Bytes(r, n), nil}, in{nil, kit.Bytes(r, n)})
		}
		ins = append(ins, in{kit.Bytes(r, 40<<20), kit.Bytes(r, 20<<20)})
	}
	ins = append(ins, in{nil, nil}, in{[]byte{}, nil}, in{nil, []byte{}}, in{[]byte{}, []byte{}})
	for _, s := range append(append(append([]string{}, kit.VariantBases...), kit.Variants(kit.VariantBases[3])...), kit.Strings...) {
		ins = append(ins, in{[]byte(s), []byte(s)})
	}

	for _, prov := range providers {
		ids := kit.NewIDs()
		tok := ids.User("u", id.ScopeAll)
		p := prov.make()
		d, e := kit.NewD1(k, p, ids), kit.NewD1(k, p, ids)
		oids := make([]uuid.UUID, len(ins))
		c.Parallel("systematic", len(ins), func(i int) {
			x := ins[i]
			tr := &trail{}
			tr.add("Encrypt and Decrypt over %s", prov.name)
			oid, err := d.Encrypt(ctx, tok, obj(x.p, x.ad))
			if err != nil {
				c.Violate("encrypt-failed", "%s: Encrypt of %s failed: %v", prov.name, showObj(x.p, x.ad), err)
				return
			}
			oids[i] = oid
			c01Check(c, prov.name, e, tok, oid, c01Model{x.p, x.ad}, tr)
		})
		if c.Full() {
			return
		}
		// Every object again, after all the others were written and half of them updated to another input.
		cur := append([]in(nil), ins...)
		for i := 0; i < len(ins); i += 2 {
			j := (i*7 + 3) % len(ins)
			if prov.name == "bolt" && len(ins[j].p)+len(ins[j].ad) > 1<<20 {
				continue
			}
			if err := e.Update(ctx, tok, oids[i], obj(ins[j].p, ins[j].ad)); err != nil {
				c.Violate("update-failed", "%s: Update failed: %v", prov.name, err)
				continue
			}
			c.Count("updates", 1)
			cur[i] = ins[j]
		}
		c.Parallel("systematic", len(ins), func(i int) {
			tr := &trail{}
			tr.add("after Update of every other object, over %s", prov.name)
			c01Check(c, prov.name, d, tok, oids[i], c01Model{cur[i].p, cur[i].ad}, tr)
		})
	}
}

func c01History(c *kit.C, i int) {
	r := c.Rand("history", i)
	prov := providers[i%len(providers)]
	k := kit.NewKeys(r)
	ids := kit.NewIDs()
	toks := []string{ids.User("u", id.ScopeAll), ids.User("v", id.ScopeAll, id.AccessGroup{ID: "g", Scopes: id.ScopeAll}), ids.User("w", id.ScopeAll)}
	store := prov.make()
	var ds []*d1.D1
	for j := 0; j < 3; j++ {
		ds = append(ds, kit.NewD1(k, store, ids))
	}
	ix := kit.NewIndex(k, store, ids)
	sa := kit.NewStandalone(k, store)

	model := map[uuid.UUID]*c01Model{}
	ever := map[uuid.UUID]bool{}
	var oids []uuid.UUID
	tr := &trail{}
	steps := 60 + r.IntN(300)
	big := 40
	if i%10 == 9 { // many objects, small
		steps, big = 3000, 0
	}
	if i%10 == 8 { // one object, many updates
		steps = 800
	}
	pick := func() uuid.UUID { return oids[r.IntN(len(oids))] }
	lastWriter := map[uuid.UUID]int{}
	for s := 0; s < steps && !c.Full(); s++ {
		di := r.IntN(len(ds))
		d := ds[di]
		tok := kit.Pick(r, toks)
		op := r.IntN(20)
		if len(oids) == 0 || (i%10 == 9 && op > 3) {
			op = 0
		} else if i%10 == 8 && op < 4 {
			op = 4
		}
		switch {
		case op < 4: // Encrypt
			m := &c01Model{kit.Content(r, big), kit.Content(r, big)}
			if len(oids) > 0 && r.IntN(6) == 0 { // equal to another object, or parts exchanged
				o := model[pick()]
				m = &c01Model{o.p, o.ad}
				if r.IntN(2) == 0 {
					m.p, m.ad = m.ad, m.p
				}
			}
			oid, err := d.Encrypt(ctx, tok, obj(m.p, m.ad), "u", "w", "g")
			if err != nil {
				c.Violate("encrypt-failed", "%s: Encrypt of %s failed: %v\n%s", prov.name, showObj(m.p, m.ad), err, tr)
				continue
			}
			if ever[oid] || oid == uuid.Nil {
				c.Violate("oid-reused", "%s: Encrypt returned %s, which is not a new ID\n%s", prov.name, oid, tr)
			}
			ever[oid] = true
			oids = append(oids, oid)
			model[oid] = m
			lastWriter[oid] = di
			tr.add("%s = Encrypt on %d: %s", oid, di, showObj(m.p, m.ad))
			c.Count("encrypts", 1)
		case op < 9: // Update
			oid := pick()
			old := model[oid]
			m := &c01Model{kit.Content(r, big), kit.Content(r, big)}
			switch r.IntN(8) {
			case 0:
				m.p = old.p
			case 1:
				m.ad = old.ad
			case 2:
				m.p, m.ad = old.p, old.ad
			case 3:
				m.p, m.ad = old.ad, old.p
			case 4:
				if len(old.p) > 0 {
					m.p = old.p[:len(old.p)-1]
				}
			case 5:
				m.p = append(append([]byte{}, old.p...), 0)
			}
			if err := d.Update(ctx, tok, oid, obj(m.p, m.ad)); err != nil {
				c.Violate("update-failed", "%s: Update of %s failed: %v\n%s", prov.name, oid, err, tr)
				continue
			}
			model[oid] = m
			lastWriter[oid] = di
			tr.add("Update %s on %d: %s", oid, di, showObj(m.p, m.ad))
			c.Count("updates", 1)
		case op < 17: // Decrypt
			oid := pick()
			if lastWriter[oid] != di {
				c.Count("decrypts_on_other_instance", 1)
			}
			c01Check(c, prov.name, d, tok, oid, *model[oid], tr)
		case op == 17: // changes that must not matter
			oid := pick()
			var err error
			switch r.IntN(4) {
			case 0:
				err = d.AddGroupsToAccess(ctx, tok, oid, "x", "y")
			case 1:
				err = d.RemoveGroupsFromAccess(ctx, tok, oid, "x", "z")
			case 2:
				_, err = d.GetAccessGroups(ctx, tok, oid)
			case 3:
				err = d.AuthorizeIdentity(ctx, tok, oid)
			}
			if err != nil {
				c.Violate("access-failed", "%s: an authorized access-list operation failed: %v\n%s", prov.name, err, tr)
			}
			tr.add("access-list operation on %s", oid)
		case op == 18 && len(oids) > 3: // delete another object
			j := r.IntN(len(oids))
			oid := oids[j]
			if err := d.Delete(ctx, tok, oid); err != nil {
				c.Violate("delete-failed", "%s: Delete failed: %v\n%s", prov.name, err, tr)
				continue
			}
			oids = append(oids[:j:j], oids[j+1:]...)
			delete(model, oid)
			tr.add("Delete %s", oid)
		default: // other users of the same storage
			switch r.IntN(3) {
			case 0:
				ix.Add(ctx, tok, "kw", pick().String())
			case 1:
				sa.NewUser(ctx, id.ScopeAll)
			case 2:
				if r.IntN(4) == 0 { // a new instance
					ds[di] = kit.NewD1(k, store, ids)
				}
			}
		}
	}
	for _, oid := range oids {
		c01Check(c, prov.name, ds[r.IntN(len(ds))], kit.Pick(r, toks), oid, *model[oid], tr)
	}
	c.Sample("%s, %d objects at the end, last steps: %v", prov.name, len(oids), tr.lines[max(0, len(tr.lines)-3):])
}
