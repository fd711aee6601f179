package edlisp

import (
	"regexp"
	"strings"
	"unicode/utf8"
)

// What is assumed about the library. Each axiom is executable: the replay
// harness also tries it on generated inputs.

//gover:axiom
func axIndex(s, sub string) bool {
	i := strings.Index(s, sub)
	return trig(i) && (i == -1 || 0 <= i && i+len(sub) <= len(s) && s[i:i+len(sub)] == sub)
}

//gover:axiom
func axLastIndex(s, sub string) bool {
	i := strings.LastIndex(s, sub)
	return trig(i) && (i == -1 || 0 <= i && i+len(sub) <= len(s) && s[i:i+len(sub)] == sub)
}

//gover:axiom
func axHasSuffix(s, suffix string) bool {
	ok := strings.HasSuffix(s, suffix)
	return trig(ok) && ok == (len(s) >= len(suffix) && s[len(s)-len(suffix):] == suffix)
}

//gover:axiom
func axHasPrefix(s, prefix string) bool {
	ok := strings.HasPrefix(s, prefix)
	return trig(ok) && ok == (len(s) >= len(prefix) && s[:len(prefix)] == prefix)
}

//gover:axiom
func axFind(re *regexp.Regexp, s string) bool {
	m := re.FindStringIndex(s)
	return trig(m) && (len(m) == 0 || len(m) == 2 && 0 <= m[0] && m[0] <= m[1] && m[1] <= len(s))
}

//gover:axiom
func axFindAll(re *regexp.Regexp, s string, i int) bool {
	all := re.FindAllStringIndex(s, -1)
	if i < 0 || i >= len(all) {
		return trig(all)
	}
	m := all[i]
	return trig(m) && len(m) == 2 && 0 <= m[0] && m[0] <= m[1] && m[1] <= len(s)
}

//gover:axiom
func axDecodeRune(s string) bool {
	_, n := utf8.DecodeRuneInString(s)
	return trig(n) && 0 <= n && n <= len(s) && n <= 4 && (n >= 1 || s == "")
}

//gover:axiom
func axSplit(s string) bool {
	lines := strings.Split(s, "\n")
	return trig(lines) && len(lines) >= 1 && len(lines) == newlines(s, len(s))+1 && linePos(lines, len(lines)) == len(s)+1
}

//gover:axiom
func axSplitLine(s string, n int) bool {
	lines := strings.Split(s, "\n")
	if n < 0 || n >= len(lines) {
		return true
	}
	return trig(linePos(lines, n)) && 0 <= linePos(lines, n) && linePos(lines, n)+len(lines[n]) <= len(s)
}
