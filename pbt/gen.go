package main

import (
	"strings"
	"unicode"

	"pgregory.net/rapid"
)

// --- choices ------------------------------------------------------------------

var intGens [1025]*rapid.Generator[int]

func init() {
	all := make([]int, 1024)
	for i := range all {
		all[i] = i
	}
	for n := 1; n <= 1024; n++ {
		intGens[n] = rapid.SampledFrom(all[:n])
	}
}

// intn draws a number below n (n <= 1024). One draw of rapid favours small
// numbers; the sum of two, modulo n, is close to uniform and still shrinks to
// small numbers.
func intn(t *rapid.T, n int) int {
	if n <= 1 {
		return 0
	}
	if n <= 6 {
		return intGens[n].Draw(t, "n")
	}
	a := intGens[1024].Draw(t, "n")
	b := intGens[1024].Draw(t, "m")
	return (a + b*389) % n
}

// between draws a uniform number in [lo, hi].
func between(t *rapid.T, lo, hi int) int { return lo + intn(t, hi-lo+1) }

// chance is true in pct of 100 cases and shrinks to false.
func chance(t *rapid.T, pct int) bool { return intn(t, 100) >= 100-pct }

// pick chooses one; the first is the plainest.
func pick[X any](t *rapid.T, xs ...X) X { return xs[intn(t, len(xs))] }

func pickFrom[X any](t *rapid.T, xs []X) X { return xs[intn(t, len(xs))] }

// few draws a count from lo on: mostly a few more, now and then a dozen.
func few(t *rapid.T, lo int) int {
	if chance(t, 15) {
		return between(t, lo, lo+12)
	}
	return between(t, lo, lo+3)
}

// --- text ---------------------------------------------------------------------

var words = []string{
	"a", "b", "c", "key", "name", "x1", "foo-bar", "value", "v", "0", "42", "true", "host",
	"a.b", "a/b", "user@example", "one two", "%(a)s", "http", "A", "B", "Key", "NAME", "Value",
	"café", "日本", "ß", "É", "é", "Ω", "ω", "path/to", "50%", "$HOME", "(x)", "{y}", "<z>", "_", "--", "+", "!", "?", "*", "&", "^", ",", "x,y",
}

var oddChars = []string{
	"=", ":", "#", ";", "[", "]", "\"", "'", "`", "\\", " ", "  ", "\t", "-", "%", "(", ")", ",", ".", "|", "~", "/",
	"\"\"\"", " #", " ;", "\\#", "\\;", "\\\"", "\u00a0", "\u2003", "\u0085", "\x00", "\x01", "\x7f", "\xff", "\xfe", "\xc3", "\f", "\v", "\ufeff", "é", "日",
	"a", "b", "Z", "0", "s", "://", "$", "{", "1", "\r",
}

// word draws a simple word.
func word(t *rapid.T) string { return pickFrom(t, words) }

// odd draws a string of words and special characters, without line feeds.
func odd(t *rapid.T, maxParts int) string {
	n := intn(t, maxParts+1)
	var b strings.Builder
	for i := 0; i < n; i++ {
		p := ""
		if chance(t, 55) {
			p = pickFrom(t, oddChars)
		} else {
			p = word(t)
		}
		if chance(t, 4) {
			p = strings.Repeat(p, between(t, 2, 6))
		} else if chance(t, 2) {
			p = longText(t)
		}
		b.WriteString(p)
	}
	return b.String()
}

// anyText draws text that may have line breaks too.
func anyText(t *rapid.T, maxParts int) string {
	n := intn(t, maxParts+1)
	var b strings.Builder
	for i := 0; i < n; i++ {
		switch {
		case chance(t, 12):
			b.WriteString(pick(t, "\n", "\n\n", "\r\n", "\n "))
		case chance(t, 55):
			b.WriteString(pickFrom(t, oddChars))
		default:
			b.WriteString(word(t))
		}
	}
	return b.String()
}

func anyRune(s string, f func(rune) bool) bool { return strings.IndexFunc(s, f) >= 0 }

func trimmed(s string) bool { return strings.TrimSpace(s) == s }

func isSpaceByteStart(s string) bool {
	return s != "" && (s[0] == ' ' || s[0] == '\t' || s[0] == '\f' || s[0] == '\v' || s[0] == '\r' || s[0] == '\n')
}

func startsWithSpace(s string) bool {
	for _, r := range s {
		return unicode.IsSpace(r)
	}
	return false
}

// filler returns n bytes of plain text.
func filler(n int) string {
	const p = "lorem ipsum dolor sit amet 0123456789 "
	s := strings.Repeat(p, n/len(p)+1)[:n]
	return strings.TrimRight(s, " ") + "."
}

// bigSize draws a size around the buffer sizes the reader may use.
func bigSize(t *rapid.T) int {
	return pick(t, 4090, 4095, 4096, 4097, 5000, 8192, 20000, 65536, 70001, 130000) + intn(t, 3)
}

// --- load options ---------------------------------------------------------------

// valueOpts draws the options that change how values are read.
func valueOpts(t *rapid.T, o *Opts, pct int) {
	o.IgnoreContinuation = chance(t, pct)
	o.IgnoreInlineComment = chance(t, pct)
	o.SpaceBeforeInlineComment = chance(t, pct)
	o.UnescapeValueDoubleQuotes = chance(t, pct)
	o.UnescapeValueCommentSymbols = chance(t, pct)
	o.PreserveSurroundedQuote = chance(t, pct)
	if chance(t, pct) {
		o.KeyValueDelimiters = pick(t, S("="), S(":"), S("|"), S("=>"), S("~="), S(":=|"), S("/"), S(" "))
		if o.KeyValueDelimiters == " " {
			o.KeyValueDelimiters = "="
		}
	}
}

// structOpts draws the options that change sections and keys.
func structOpts(t *rapid.T, o *Opts, pct int) {
	switch {
	case chance(t, pct):
		o.Insensitive = true
	case chance(t, pct):
		o.InsensitiveSections = true
	case chance(t, pct):
		o.InsensitiveKeys = true
	}
	o.AllowBooleanKeys = chance(t, pct)
	o.SkipUnrecognizableLines = chance(t, pct)
	o.AllowShadows = chance(t, pct)
	o.AllowDuplicateShadowValues = o.AllowShadows && chance(t, 40)
	o.AllowNonUniqueSections = chance(t, pct)
	switch {
	case chance(t, pct):
		o.AllowNestedValues = true
	case chance(t, pct):
		o.AllowPythonMultilineValues = true
	}
	if chance(t, pct) {
		o.UnparseableSections = []S{"RAW", "COMMENTS"}
	}
	if chance(t, pct) {
		o.ChildSectionDelimiter = pick(t, S("/"), S("."), S("::"), S("-"))
	}
	if chance(t, 10) {
		o.ReaderBufferSize = pick(t, 1, 4096, 5000, 65536)
	}
	o.Debug = chance(t, 5)
	// Without meaning for a source that is there
	o.Loose = chance(t, 8)
}

// loadOpts draws a full set of options.
func loadOpts(t *rapid.T, pct int) Opts {
	var o Opts
	valueOpts(t, &o, pct)
	structOpts(t, &o, pct)
	return o
}

// --- soups ----------------------------------------------------------------------

var soupTokens = []string{
	"a", "b", "key", "=", ":", "[", "]", "[a]", "[b.c]", "[DEFAULT]", "[RAW]", "#", ";", "\"", "\"\"\"", "'", "`", "\\", "-", " ", "\t", "\f", "\v",
	"a=", "b=1", "a = x", "\"a\"=", "`k`=", "k : v", "# c", " ; c", " #c", "\\#", "\\;", "\\\"", "%(a)s", "%(b)s", "true", "\u00a0", "\u2003", "\x00", "\xff", "\xef\xbb\xbf", "\xfe\xff", "\r", "==", "|", "é", "K", "A",
}

// soup draws lines of tokens; much of it is not well-formed.
func soup(t *rapid.T, maxLines, maxTokens int) string {
	var b strings.Builder
	if chance(t, 5) {
		b.WriteString(pick(t, "\xef\xbb\xbf", "\xfe\xff", "\xff\xfe", "\xef\xbb", "\xef", "\xfe"))
	}
	n := intn(t, maxLines+1)
	for i := 0; i < n; i++ {
		if chance(t, 25) {
			b.WriteString(pick(t, " ", "\t", "  ", "\f", "\v", "\u00a0"))
		}
		if chance(t, 60) {
			// a likely line to start from
			b.WriteString(pick(t, "a=1", "[s]", "b=", "key = value", "[a]", "# c", "k=`x", "k=\"\"\"x", "k=\"x", "k=x\\", "`", "\"\"\"", "-=1", "flag", "k='q'", "k=\"q\"", "[DEFAULT]", "[RAW]"))
		}
		m := intn(t, maxTokens+1)
		for j := 0; j < m; j++ {
			b.WriteString(pickFrom(t, soupTokens))
		}
		if i < n-1 || !chance(t, 30) {
			b.WriteString(pick(t, "\n", "\n", "\n", "\r\n", "\\\n", "\n\n"))
		}
	}
	return b.String()
}
