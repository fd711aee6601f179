package parser

import (
	"io"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/dhamidi/texted/edlisp"
)

// What the library is assumed to do. The replay harness tries these, too.

//gover:axiom
func axUnquote(s string) bool {
	_, err := strconv.Unquote(s)
	return trig(err) && (err != nil || len(s) >= 2)
}

// lineReader stands for a bufio.Scanner that splits into lines: it delivers
// what lies between newline bytes, without a final carriage return, and gives
// up at a line that does not fit into its buffer of 65536 bytes.
type lineReader struct {
	text string
	pos  int
	line string
	fail error
}

//gover:model bufio.NewScanner
func modelNewScanner(r io.Reader) *lineReader {
	b, err := io.ReadAll(r)
	return &lineReader{text: string(b), fail: err}
}

//gover:model (*bufio.Scanner).Scan
func modelScan(l *lineReader) bool {
	l.line = ""
	if l.pos < 0 || l.pos >= len(l.text) {
		return false
	}
	end, next := lineEnd(l.text, l.pos)
	if end-l.pos >= maxLine {
		l.pos = len(l.text)
		l.fail = anyError()
		return false
	}
	l.line = noCR(l.text[l.pos:end])
	l.pos = next
	return true
}

//gover:model (*bufio.Scanner).Text
func modelText(l *lineReader) string { return l.line }

//gover:model (*bufio.Scanner).Err
func modelErr(l *lineReader) error { return l.fail }

const maxLine = 65536

// lineEnd: where the line at pos ends, and where the next one begins.
func lineEnd(s string, pos int) (int, int) {
	i := strings.Index(s[pos:], "\n")
	if i < 0 {
		return len(s), len(s)
	}
	return pos + i, pos + i + 1
}

func noCR(s string) string {
	if len(s) > 0 && s[len(s)-1] == '\r' {
		return s[:len(s)-1]
	}
	return s
}

func trig(v any) bool { return true }

func anyError() error { return io.ErrUnexpectedEOF }

// flush: a token that has begun is finished.
func flush(out []string, cur string) []string {
	if cur == "" {
		return out
	}
	return append(out, cur)
}

// tokens: the tokens of s from position i on, behind out; cur is the token
// that has begun, inside a quoted string if inQ, and behind a backslash there
// if esc. Spaces separate tokens and parentheses are tokens of their own,
// except inside a quoted string.
func tokens(s string, i int, cur string, inQ, esc bool, out []string) ([]string, bool) {
	if i < 0 || i >= len(s) {
		if inQ {
			return nil, false
		}
		return flush(out, cur), true
	}
	r, w := utf8.DecodeRuneInString(s[i:])
	if esc {
		return tokens(s, i+w, cur+string(r), inQ, false, out)
	}
	if r == '\\' {
		return tokens(s, i+w, cur+string(r), inQ, inQ, out)
	}
	if r == '"' {
		return tokens(s, i+w, cur+string(r), !inQ, false, out)
	}
	if !inQ && (r == '(' || r == ')') {
		return tokens(s, i+w, "", false, false, append(flush(out, cur), string(r)))
	}
	if !inQ && (r == ' ' || r == '\t' || r == '\n' || r == '\r') {
		return tokens(s, i+w, "", false, false, flush(out, cur))
	}
	return tokens(s, i+w, cur+string(r), inQ, false, out)
}

//gover:contract tokenize
//gover:prop C11
func specTokenize(line string) ([]string, bool) {
	return tokens(line, 0, "", false, false, nil)
}

// pieces: the commands of s from position i on, behind out; semicolons
// separate them except inside a quoted string.
func pieces(s string, i int, cur string, inQ, esc bool, out []string) []string {
	if i < 0 || i >= len(s) {
		return flush(out, cur)
	}
	r, w := utf8.DecodeRuneInString(s[i:])
	if esc {
		return pieces(s, i+w, cur+string(r), inQ, false, out)
	}
	if r == '\\' {
		return pieces(s, i+w, cur+string(r), inQ, inQ, out)
	}
	if r == '"' {
		return pieces(s, i+w, cur+string(r), !inQ, false, out)
	}
	if !inQ && r == ';' {
		return pieces(s, i+w, "", false, false, append(out, cur))
	}
	return pieces(s, i+w, cur+string(r), inQ, false, out)
}

//gover:contract splitOnSemicolons
//gover:prop C11
func specSplit(line string) []string { return pieces(line, 0, "", false, false, nil) }

// atom: what a token that is no parenthesis denotes.
func atom(t string) (edlisp.Value, bool) {
	if strings.HasPrefix(t, `"`) && strings.HasSuffix(t, `"`) {
		u, err := strconv.Unquote(t)
		if err != nil {
			return nil, false
		}
		return &edlisp.String{Value: u}, true
	}
	n, err := strconv.ParseFloat(t, 64)
	if err == nil {
		return &edlisp.Number{Value: n}, true
	}
	return &edlisp.Symbol{Name: t}, true
}

//gover:contract parseToken
//gover:prop C11
func specParseToken(token string) (edlisp.Value, bool) { return atom(token) }

// elems: the elements of a list from the i-th token up to its closing
// parenthesis, behind acc, and the position behind that.
func elems(ts []string, i int, acc []edlisp.Value) ([]edlisp.Value, int, bool) {
	if i < 0 || i >= len(ts) {
		return nil, i, false
	}
	if ts[i] == ")" {
		return acc, i + 1, true
	}
	if ts[i] == "(" {
		in, end, ok := elems(ts, i+1, nil)
		if !ok || end <= i+1 {
			return nil, i, false
		}
		return elems(ts, end, append(acc, &edlisp.List{Elements: in}))
	}
	v, ok := atom(ts[i])
	if !ok {
		return nil, i, false
	}
	return elems(ts, i+1, append(acc, v))
}

//gover:requires parseList
func preParseList(tokens []string, start int) bool { return start >= 0 }

//gover:requires parseTokens
func preParseTokens(tokens []string, start int) bool { return start >= 0 }

//gover:decreases parseTokens
func decParseTokens(tokens []string, start int) int { return 2*(len(tokens)-start) + 1 }

//gover:decreases parseList
func decParseList(tokens []string, start int) int { return 2*(len(tokens)-start) + 2 }

//gover:contract parseTokens
//gover:prop C11
func specParseTokens(tokens []string, start int) (edlisp.Value, int, bool) {
	if start < 0 || start >= len(tokens) || tokens[start] == ")" {
		return nil, start, false
	}
	if tokens[start] == "(" {
		in, end, ok := elems(tokens, start+1, nil)
		if !ok || end <= start+1 {
			return nil, start, false
		}
		return &edlisp.List{Elements: in}, end, true
	}
	v, ok := atom(tokens[start])
	return v, start + 1, ok
}

//gover:contract parseList
//gover:prop C11
func specParseList(tokens []string, start int) (edlisp.Value, int, bool) {
	in, end, ok := elems(tokens, start, nil)
	if !ok || end <= start {
		return nil, start, false
	}
	return &edlisp.List{Elements: in}, end, true
}

//gover:contract parseSExpression
//gover:prop C11
func specParseSExpression(line string) (edlisp.Value, bool) {
	ts, ok := tokens(line, 0, "", false, false, nil)
	if !ok {
		return nil, false
	}
	v, end, ok := specParseTokens(ts, 0)
	if !ok || end < len(ts) {
		return nil, false
	}
	return v, true
}

// words: the elements of a command line from the i-th token on, behind acc.
func words(ts []string, i int, acc []edlisp.Value) ([]edlisp.Value, bool) {
	if i < 0 || i >= len(ts) {
		return acc, true
	}
	v, end, ok := specParseTokens(ts, i)
	if !ok {
		return nil, false
	}
	return words(ts, end, append(acc, v))
}

//gover:contract parseShellLike
//gover:prop C11
func specParseShellLike(line string) (edlisp.Value, bool) {
	ts, ok := tokens(line, 0, "", false, false, nil)
	if !ok {
		return nil, false
	}
	es, ok := words(ts, 0, nil)
	if !ok {
		return nil, false
	}
	return &edlisp.List{Elements: es}, true
}

// command: what one command denotes.
func command(line string) (edlisp.Value, bool) {
	if strings.HasPrefix(line, "(") {
		return specParseSExpression(line)
	}
	return specParseShellLike(line)
}

//gover:contract parseLine
//gover:prop C11
func specParseLine(line string) (edlisp.Value, bool) { return command(line) }

// commands: the expressions of the commands from the k-th on, behind acc.
func commands(cs []string, k int, acc []edlisp.Value) ([]edlisp.Value, bool) {
	if k < 0 || k >= len(cs) {
		return acc, true
	}
	c := strings.TrimSpace(cs[k])
	if c == "" {
		return commands(cs, k+1, acc)
	}
	v, ok := command(c)
	if !ok {
		return nil, false
	}
	return commands(cs, k+1, append(acc, v))
}

// lines: the expressions of a script from position pos on, behind acc.
func lines(s string, pos int, acc []edlisp.Value) ([]edlisp.Value, bool) {
	if pos < 0 || pos >= len(s) {
		return acc, true
	}
	end, next := lineEnd(s, pos)
	if end-pos >= maxLine {
		return nil, false
	}
	line := strings.TrimLeftFunc(noCR(s[pos:end]), unicode.IsSpace)
	if line == "" {
		return lines(s, next, acc)
	}
	acc, ok := commands(pieces(line, 0, "", false, false, nil), 0, acc)
	if !ok {
		return nil, false
	}
	return lines(s, next, acc)
}

// ParsesLines: the program a script in the line-based format denotes, and
// whether it is well formed.
func ParsesLines(s string) ([]edlisp.Value, bool) { return lines(s, 0, nil) }

//gover:contract ParseReader
//gover:prop C11
func specParseReader(r io.Reader) ([]edlisp.Value, bool) { return ReadsLines(r) }

// ReadsLines: the program in the shell or the s-expression format a reader
// delivers.
func ReadsLines(r io.Reader) ([]edlisp.Value, bool) {
	b, err := io.ReadAll(r)
	if err != nil {
		return nil, false
	}
	return ParsesLines(string(b))
}

//gover:contract ParseString
//gover:prop C11
func specParseString(s string) ([]edlisp.Value, bool) { return ParsesLines(s) }

// ParsesSexp: a script of at most one expression, a token or a parenthesised
// one.
func ParsesSexp(s string) ([]edlisp.Value, bool) {
	t := strings.TrimSpace(s)
	if t == "" {
		return nil, true
	}
	var v edlisp.Value
	var ok bool
	if strings.HasPrefix(t, "(") {
		v, ok = specParseSExpression(t)
	} else {
		v, ok = specParseToken(t)
	}
	if !ok {
		return nil, false
	}
	return []edlisp.Value{v}, true
}

//gover:contract ParseSexp
//gover:prop C11
func specParseSexp(s string) ([]edlisp.Value, bool) { return ParsesSexp(s) }

//gover:contract ParseFormat
//gover:prop C11
func specParseFormat(format, input string) ([]edlisp.Value, bool) {
	switch format {
	case "shell":
		return ParsesLines(input)
	case "json":
		return ParsesJSON(input)
	}
	return ParsesSexp(input)
}
