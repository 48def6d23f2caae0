// Package checks holds one check per property.
package checks

import (
	"bytes"
	"errors"
	"fmt"
	"math/rand/v2"
	"sort"
	"strings"

	"github.com/gofrs/uuid"

	d1 "github.com/cybercryptio/d1-lib/v2"
	"github.com/cybercryptio/d1-lib/v2/data"
	"github.com/cybercryptio/d1-lib/v2/id"
	"github.com/cybercryptio/d1-lib/v2/index"
	"github.com/cybercryptio/d1-lib/v2/io"

	"verif/harness/kit"
)

var ctx = kit.Ctx

// The record types, which need not be constants.
var dtObject, dtAccess, dtNode, dtUser, dtGroup = io.DataTypeSealedObject, io.DataTypeSealedAccess, io.DataTypeSealedNode, id.DataTypeSealedUser, id.DataTypeSealedGroup

// nearIDs are strings that are not the given UUID, though some would take them for it.
func nearIDs(s string) []string {
	return []string{strings.ToUpper(s), strings.ToUpper(s[:8]) + s[8:], s[:len(s)-4] + strings.ToUpper(s[len(s)-4:]), "{" + s + "}", "urn:uuid:" + s, s + " ", " " + s, s + "\x00", "\x00" + s, s + "\n", "\t" + s, s[:len(s)-1], s[1:],
		strings.ReplaceAll(s, "-", ""), strings.ReplaceAll(s, "-", "_"), s + "/", "/" + s, s + s, s[:35] + "g", "\"" + s + "\"", s + "%00", "\uff10" + s[1:], s + "\u200b", s + ",", s[:18], "00000000-0000-0000-0000-000000000000", "*", "%", s[:8] + "*"}
}

// obj makes an object from copies of its arguments, some of them with spare capacity.
func obj(plaintext, ad []byte) *data.Object {
	return &data.Object{Plaintext: clone(plaintext), AssociatedData: clone(ad)}
}

func clone(b []byte) []byte {
	if b == nil {
		return nil
	}
	return append(make([]byte, 0, len(b)+len(b)%3*7), b...)
}

func sameObj(got data.Object, plaintext, ad []byte) bool {
	return bytes.Equal(got.Plaintext, plaintext) && bytes.Equal(got.AssociatedData, ad)
}

func showObj(p, ad []byte) string {
	return fmt.Sprintf("plaintext %s (len %d), associated data %s (len %d)", kit.Short(p), len(p), kit.Short(ad), len(ad))
}

func set(ids ...string) map[string]struct{} {
	m := map[string]struct{}{}
	for _, i := range ids {
		m[i] = struct{}{}
	}
	return m
}

func sameSet(a, b map[string]struct{}) bool {
	if len(a) != len(b) {
		return false
	}
	for k := range a {
		if _, ok := b[k]; !ok {
			return false
		}
	}
	return true
}

func keysOf[V any](m map[string]V) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func copySet(a map[string]struct{}) map[string]struct{} {
	m := map[string]struct{}{}
	for k := range a {
		m[k] = struct{}{}
	}
	return m
}

func sameStrings(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// provider is one of the IO Providers that the checks run over.
type provider struct {
	name string
	make func() io.Provider
}

var providers = []provider{
	{"store", func() io.Provider { return kit.NewStore() }},
	{"mem", kit.NewMem},
	{"bolt", kit.NewBolt},
	{"proxy", kit.NewProxyOverMem},
}

func isAuthn(err error) bool {
	return errors.Is(err, d1.ErrNotAuthenticated) || errors.Is(err, index.ErrNotAuthenticated) || errors.Is(err, id.ErrNotAuthenticated)
}

func isAuthz(err error) bool {
	return errors.Is(err, d1.ErrNotAuthorized) || errors.Is(err, index.ErrNotAuthorized) || errors.Is(err, id.ErrNotAuthorized)
}

func newUUID(r *rand.Rand) uuid.UUID {
	var u uuid.UUID
	copy(u[:], kit.Bytes(r, 16))
	u.SetVersion(uuid.V4)
	u.SetVariant(uuid.VariantRFC4122)
	return u
}

// trail is the recent history of a run, for messages.
type trail struct{ lines []string }

func (t *trail) add(format string, args ...any) {
	s := fmt.Sprintf(format, args...)
	if len(s) > 300 {
		s = s[:300] + "..."
	}
	t.lines = append(t.lines, s)
}

func (t *trail) String() string {
	l := t.lines
	var pre string
	if len(l) > 60 {
		pre = fmt.Sprintf("(%d earlier steps)\n", len(l)-60)
		l = l[len(l)-60:]
	}
	return pre + strings.Join(l, "\n")
}
