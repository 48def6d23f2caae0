package kit

import (
	"encoding/base64"
	"encoding/hex"
	"html"
	"net/url"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"
)

// VariantBases are strings with interesting Variants.
var VariantBases = []string{
	"alice", "Kim Straße é", "first line\nsecond line", "first\r\nsecond\r\n", "kim@example.com", "https://example.com/a/b?x=1&y=2", "3.10", "-0", "b a b",
	"r\u00e9sum\u00e9 \"x\" 'y'", "\ufeffbom", "\u212a\u017f\u0130\u0131", "a\u200db\u200cc\u00add", "\u65e5\u672c\uff11", "C:\\dir\\file.txt", "#tag", "%41%20b", "&lt;b&gt;", "true", "123e4567-e89b-12d3-a456-426614174000",
	"\u1112\u1161\u11ab\ud55c", "x\x00y", "tab\tseparated", "a,b;c|d", "\u05d0\u200f\u05d1", "\U0001f44d\U0001f3fd\ufe0f", "key=value", "2022-01-01T00:00:00Z", "\\u0061\\n", "''", "e\u0301\u0327",
}

// Variants returns s and other spellings of it: strings that some normalisation, cleaning, decoding
// or truncation makes equal to it. They are distinct and valid UTF-8.
func Variants(s string) (out []string) {
	seen := map[string]bool{}
	add := func(xs ...string) {
		for _, x := range xs {
			if !seen[x] && utf8.ValidString(x) {
				seen[x] = true
				out = append(out, x)
			}
		}
	}
	add(s)
	// Case
	add(strings.ToUpper(s), strings.ToLower(s), strings.Title(strings.ToLower(s)), strings.Map(func(r rune) rune { return unicode.SimpleFold(r) }, s)) //nolint:staticcheck
	// Around
	rs := []rune(s)
	mid := len(rs) / 2
	insert := func(x string) string { return string(rs[:mid]) + x + string(rs[mid:]) }
	for _, x := range []string{" ", "  ", "\t", "\n", "\r", "\r\n", "\v", "\f", "\u00a0", "\u0085", "\u2003", "\u2028", "\u3000", "\x00", "\x00\x00", "\x01", "\x08", "\x1b", "\x7f", "\ufeff", "\u200b", "\u200c", "\u200d",
		"\u2060", "\u00ad", "\u200e", "\u200f", "\u202e", "\ufe0f", "\ufffd", "\u0301", "\U000e0020", "\U000f0000"} {
		add(s+x, x+s, insert(x))
	}
	for _, x := range []string{".", "/", ",", ";", ":", "-", "_", "*", "%", "?", "!", "#", "@", "+", "=", "&", "'", "\"", "\\", "|", "~", "$", "^", "`", "0", "1", ".0", "/.", "//", "()", "%00", "%20", "s", "a"} {
		add(s+x, x+s)
	}
	add("("+s+")", "["+s+"]", "{"+s+"}", "<"+s+">", "'"+s+"'", "\""+s+"\"", "./"+s, "../"+s, "urn:uuid:"+s, "user:"+s, "group:"+s, s+s, s+" "+s, s+","+s)
	// Replaced
	for _, p := range [][2]string{{"\r\n", "\n"}, {"\n", "\r\n"}, {"\r", "\n"}, {"\n", "\r"}, {"\n", " "}, {"\n", ""}, {"\r\n", ""}, {"\r", ""}, {"\t", " "}, {" ", "\t"}, {" ", "  "}, {" ", ""}, {" ", "\u00a0"}, {" ", "_"}, {" ", "+"}, {" ", "-"},
		{"-", ""}, {"-", "_"}, {"-", "\u2013"}, {"-", "\u2010"}, {"'", "\u2019"}, {"\"", "\u201c"}, {"\"", "'"}, {"\"", "\\\""}, {"\\", "/"}, {"/", "\\"}, {"\\", "\\\\"}, {"/", "//"}, {".", ""}, {",", ";"}, {"@", "+tag@"},
		{"a", "\u0430"}, {"e", "\u0435"}, {"o", "0"}, {"l", "1"}, {"k", "\u212a"}, {"s", "\u017f"}, {"i", "\u0131"}, {"i", "\u0130"}, {"1", "\uff11"}, {"1", "\u0661"}, {"a", "\uff41"}, {"\uff11", "1"},
		{"\u00e9", "e\u0301"}, {"\u00e9", "e"}, {"\u00e9", "\u00c9"}, {"\u00df", "ss"}, {"\u00df", "\u1e9e"}, {"\u212a", "k"}, {"\u017f", "s"}, {"\u0130", "i\u0307"}, {"\u0131", "i"}, {"\ufeff", ""}, {"\u200d", ""}, {"\u200c", ""},
		{"\u00ad", ""}, {"\u200f", ""}, {"\ufe0f", ""}, {"\U0001f3fd", ""}, {"\x00", ""}, {"\u1112\u1161\u11ab", "\ud55c"}, {"\ud55c", "\u1112\u1161\u11ab"}, {"e\u0301\u0327", "e\u0327\u0301"}, {"e\u0301\u0327", "\u0229\u0301"},
		{"fi", "\ufb01"}, {"...", "\u2026"}, {"0", "O"}, {"Z", "+00:00"}, {"=", ":"}, {",", ""}, {"|", ","}} {
		add(strings.ReplaceAll(s, p[0], p[1]))
	}
	// Cut
	if len(rs) > 0 {
		add(string(rs[1:]), string(rs[:len(rs)-1]), string(rs[:mid]), string(rs[mid:]))
	}
	add(strings.TrimSpace(s), strings.Join(strings.Fields(s), " "), strings.Trim(s, "'\"#%/\\"), "")
	keep := func(f func(rune) bool) string {
		return strings.Map(func(r rune) rune {
			if f(r) {
				return r
			}
			return -1
		}, s)
	}
	add(keep(unicode.IsLetter), keep(unicode.IsPrint), keep(unicode.IsGraphic), keep(func(r rune) bool { return r < 0x80 }), keep(func(r rune) bool { return r >= ' ' }), keep(func(r rune) bool { return unicode.IsLetter(r) || unicode.IsDigit(r) }), keep(func(r rune) bool { return r < 0x10000 }))
	// Reordered
	back := append([]rune{}, rs...)
	for i, j := 0, len(back)-1; i < j; i, j = i+1, j-1 {
		back[i], back[j] = back[j], back[i]
	}
	add(string(back))
	words := strings.Split(s, " ")
	for i, j := 0, len(words)-1; i < j; i, j = i+1, j-1 {
		words[i], words[j] = words[j], words[i]
	}
	add(strings.Join(words, " "))
	// Encoded and decoded
	q := strconv.Quote(s)
	a := strconv.QuoteToASCII(s)
	add(q, a, q[1:len(q)-1], a[1:len(a)-1], html.EscapeString(s), html.UnescapeString(s), url.QueryEscape(s), url.PathEscape(s), base64.StdEncoding.EncodeToString([]byte(s)), base64.RawURLEncoding.EncodeToString([]byte(s)), hex.EncodeToString([]byte(s)))
	if x, err := url.QueryUnescape(s); err == nil {
		add(x)
	}
	if x, err := url.PathUnescape(s); err == nil {
		add(x)
	}
	if x, err := strconv.Unquote("\"" + s + "\""); err == nil {
		add(x)
	}
	// Long
	for _, n := range []int{16, 32, 64, 128, 255, 256, 1024} {
		add(s+strings.Repeat("k", n), s+strings.Repeat("k", n-1)+"1", strings.Repeat(" ", n)+s, s+strings.Repeat("\x00", n))
	}
	return out
}
