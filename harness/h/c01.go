// Package h holds the harness functions: each is executed symbolically by the
// engine and natively by the replay runner. Only the public API of the code
// under test is used.
package h

import (
	openapi "github.com/swaggest/openapi-go"

	"verif/harness/sym"
)

var httpMethods = []string{"get", "put", "post", "delete", "options", "head", "patch", "trace"}

func asciiLower(s string) string {
	b := []byte(s)
	for i, c := range b {
		// arithmetic instead of a branch: one path for all letters
		b[i] = lowerByte(c)
	}
	return string(b)
}

func lowerByte(c byte) byte {
	if c >= 'A' && c <= 'Z' {
		return c + 32
	}
	return c
}

// C01_Method: exactly the eight methods, in any case, are accepted.
func C01_Method() {
	m := sym.Str("method", sym.Choice("len", 9), "A-Za-z -_")
	lm, p, params, err := openapi.SanitizeMethodPath(m, "/x")
	is := make([]bool, len(httpMethods))
	for i, k := range httpMethods {
		is[i] = eqFoldLower(m, k)
	}
	sym.Assert(sym.Iff(err == nil, sym.Or(is...)), "a method is accepted iff it is one of the eight")
	if err == nil {
		for i, k := range httpMethods {
			sym.Assert(sym.Implies(is[i], lm == k), "accepted method is returned in lower case")
		}
		sym.Assert(p == "/x" && len(params) == 0, "path without placeholders unchanged")
		sym.Cover("accepted")
	} else {
		sym.Cover("rejected")
	}
}

// eqFoldLower compares m, in any letter case, with the lower case word k.
func eqFoldLower(m, k string) bool {
	if len(m) != len(k) {
		return false
	}
	cs := make([]bool, len(k))
	for i := 0; i < len(k); i++ {
		cs[i] = sym.Or(m[i] == k[i], m[i] == k[i]-32)
	}
	return sym.And(cs...)
}

// nameBytes are the printable bytes but colons and braces.
const nameBytes = " -9;-z|~"

// C01_Path: placeholder regexps are removed, names are returned in order, nothing else changes.
func C01_Path() {
	n := 1 + sym.Choice("segments", 3)
	if sym.Tier() > 0 {
		n += sym.Choice("more", 3)
	}
	pattern, clean := "", ""
	var names []string
	for i := 0; i < n; i++ {
		switch sym.Choice("kind", 5) {
		case 4:
			// letters beyond ASCII
			l := []string{"/\u00e9", "\u65e5"}[sym.Choice("rune", 2)]
			pattern += l + "{" + l + ":" + l + "}"
			clean += l + "{" + l + "}"
			names = append(names, l)
		case 0:
			l := "/" + sym.Str("lit", sym.Choice("litlen", 3), " -z|~")
			pattern += l
			clean += l
		case 1:
			nm := sym.Str("name", 1+sym.Choice("namelen", 2), nameBytes)
			pattern += "{" + nm + "}"
			clean += "{" + nm + "}"
			names = append(names, nm)
		case 2:
			nm := sym.Str("name", 1+sym.Choice("namelen", 2), nameBytes)
			re := sym.Str("regexp", 1+sym.Choice("relen", 3), " -z|~")
			pattern += "{" + nm + ":" + re + "}"
			clean += "{" + nm + "}"
			names = append(names, nm)
		case 3:
			nm := sym.Str("name", 1, nameBytes)
			re := sym.Str("regexp", 1, " -z|~")
			rep := sym.Str("repeat", 1+sym.Choice("replen", 2), "0-9,")
			tail := sym.Str("tail", sym.Choice("taillen", 2), " -z|~")
			pattern += "{" + nm + ":" + re + "{" + rep + "}" + tail + "}"
			clean += "{" + nm + "}"
			names = append(names, nm)
		}
	}
	m, got, params, err := openapi.SanitizeMethodPath("GET", pattern)
	sym.Assert(err == nil, "well-formed pattern is accepted")
	sym.Assert(m == "get", "method")
	sym.Observe("clean", got)
	sym.Assert(got == clean, "clean path is the pattern without placeholder regexps")
	sym.Assert(len(params) == len(names), "number of placeholders")
	for i := range names {
		sym.Assert(params[i] == names[i], "placeholder names in order of appearance")
	}
	_, again, params2, err := openapi.SanitizeMethodPath(m, got)
	sym.Assert(err == nil && again == got, "sanitizing is idempotent")
	sym.Assert(len(params2) == len(names), "idempotent placeholders")
	for i := range names {
		sym.Assert(params2[i] == names[i], "placeholder names kept by a second pass")
	}
	if len(names) > 1 {
		sym.Cover("several placeholders")
	}
}

// C01_MethodRune: a letter beyond ASCII is no letter of a method.
func C01_MethodRune() {
	k := httpMethods[sym.Choice("method", len(httpMethods))]
	pos := sym.Choice("position", len(k))
	// long s, Kelvin sign, e acute, full width G, T with stroke, dotless i, soft hyphen, byte order mark, invalid byte
	other := []string{"\u017f", "\u212a", "\u00e9", "\uff27", "\u0166", "\u0131", "\u00ad", "\ufeff", "\xff"}
	r := other[sym.Choice("rune", len(other))]
	b := make([]byte, len(k))
	for i := range b {
		upper := sym.Int("upper", 0, 1)
		b[i] = k[i] - byte(32*upper)
	}
	rest := string(b[pos+sym.Choice("instead", 2):])
	_, _, _, err := openapi.SanitizeMethodPath(string(b[:pos])+r+rest, "/x")
	sym.Assert(err != nil, "a method with a letter beyond ASCII is rejected")
}
