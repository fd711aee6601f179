package writer

import (
	"encoding/json"
	"io"
	"strconv"

	"github.com/dhamidi/texted/edlisp"
)

// sink stands for any destination: it takes what it is given until there is
// no more room; then it reports an error, once. A program that carries on all
// the same is not told again.
type sink struct {
	text string
	room int
}

// again is the room there is after a failure.
const again = 1 << 40

// Sink is the state of a destination.
type Sink struct {
	Text string
	Room int
}

//gover:abs
func absSink(s *sink) Sink { return Sink{s.text, s.room} }

//gover:invariant
func invSink(s *sink) bool { return s.room >= 0 }

func (s *sink) Write(p []byte) (int, error) {
	if len(p) > s.room {
		n := s.room
		s.text += string(p[:n])
		s.room = again
		return n, io.ErrShortWrite
	}
	s.text += string(p)
	s.room -= len(p)
	return len(p), nil
}

func put(d Sink, text string) (Sink, bool) {
	if len(text) > d.Room {
		return Sink{d.Text + text[:d.Room], again}, false
	}
	return Sink{d.Text + text, d.Room - len(text)}, true
}

//gover:contract (*SExpWriter).WriteValue
//gover:prop C14
func specSExpWriteValue(w *SExpWriter, d Sink, v edlisp.Value) (Sink, bool) {
	return put(d, edlisp.Show(v))
}

// sexps writes the expressions from the i-th on, one to a line.
func sexps(d Sink, es []edlisp.Value, i int) (Sink, bool) {
	if i < 0 || i >= len(es) {
		return d, true
	}
	d, ok := put(d, edlisp.Show(es[i])+"\n")
	if !ok {
		return d, false
	}
	return sexps(d, es, i+1)
}

//gover:contract (*SExpWriter).Write
//gover:prop C14
func specSExpWrite(w *SExpWriter, d Sink, es []edlisp.Value) (Sink, bool) { return sexps(d, es, 0) }

// word spells an element of a line.
func word(v edlisp.Value) (string, bool) {
	switch w := v.(type) {
	case *edlisp.Symbol:
		return w.Name, true
	case *edlisp.String:
		return strconv.Quote(w.Value), true
	case *edlisp.Number:
		return edlisp.ShowNumber(w.Value), true
	}
	return "", false
}

// words spells the elements from the i-th on, with a blank before each but the
// first, behind acc.
func words(es []edlisp.Value, i int, acc string) (string, bool) {
	if i < 0 || i >= len(es) {
		return acc, true
	}
	w, ok := word(es[i])
	if !ok {
		return "", false
	}
	if i > 0 {
		acc += " "
	}
	return words(es, i+1, acc+w)
}

func line(v edlisp.Value) (string, bool) {
	l, ok := v.(*edlisp.List)
	if !ok {
		return "", false
	}
	return words(l.Elements, 0, "")
}

//gover:contract (*ShellWriter).valueToToken
//gover:prop C14
func specValueToToken(w *ShellWriter, v edlisp.Value) (string, bool) { return word(v) }

//gover:contract (*ShellWriter).valueToShellString
//gover:prop C14
func specValueToShellString(w *ShellWriter, v edlisp.Value) (string, bool) { return line(v) }

//gover:contract (*ShellWriter).WriteValue
//gover:prop C14
func specShellWriteValue(w *ShellWriter, d Sink, v edlisp.Value) (Sink, bool) {
	s, ok := line(v)
	if !ok {
		return d, false
	}
	return put(d, s)
}

// lines writes the expressions from the i-th on, one to a line.
func lines(d Sink, es []edlisp.Value, i int) (Sink, bool) {
	if i < 0 || i >= len(es) {
		return d, true
	}
	s, ok := line(es[i])
	if !ok {
		return d, false
	}
	d, ok = put(d, s+"\n")
	if !ok {
		return d, false
	}
	return lines(d, es, i+1)
}

//gover:contract (*ShellWriter).Write
//gover:prop C14
func specShellWrite(w *ShellWriter, d Sink, es []edlisp.Value) (Sink, bool) { return lines(d, es, 0) }

// tree is the JSON value of an expression.
func tree(v edlisp.Value) (any, bool) {
	switch w := v.(type) {
	case *edlisp.List:
		vs, ok := trees(w.Elements, 0, []any{})
		if !ok {
			return nil, false
		}
		return vs, true
	case *edlisp.Symbol:
		return w.Name, true
	case *edlisp.String:
		return w.Value, true
	case *edlisp.Number:
		return w.Value, true
	}
	return nil, false
}

// trees: the JSON values of the elements from the i-th on, behind acc.
func trees(es []edlisp.Value, i int, acc []any) ([]any, bool) {
	if i < 0 || i >= len(es) {
		return acc, true
	}
	v, ok := tree(es[i])
	if !ok {
		return nil, false
	}
	return trees(es, i+1, append(acc, v))
}

//gover:contract (*JSONWriter).valueToJSON
//gover:prop C14
func specValueToJSON(w *JSONWriter, v edlisp.Value) (any, bool) { return tree(v) }

// jsonText is how the json package spells a value, if it can.
//
//gover:uninterpreted
func jsonText(v any) (string, bool) {
	b, err := json.Marshal(v)
	return string(b), err == nil
}

// jsonEncoder stands for a json.Encoder.
type jsonEncoder struct{ w io.Writer }

//gover:model encoding/json.NewEncoder
func modelNewEncoder(w io.Writer) *jsonEncoder { return &jsonEncoder{w} }

//gover:model (*encoding/json.Encoder).Encode
func modelEncode(e *jsonEncoder, v any) error {
	s, ok := jsonText(v)
	if !ok {
		return io.ErrShortBuffer
	}
	_, err := e.w.Write([]byte(s + "\n"))
	return err
}

func putJSON(d Sink, v edlisp.Value) (Sink, bool) {
	t, ok := tree(v)
	if !ok {
		return d, false
	}
	s, ok := jsonText(t)
	if !ok {
		return d, false
	}
	return put(d, s+"\n")
}

//gover:contract (*JSONWriter).WriteValue
//gover:prop C14
func specJSONWriteValue(w *JSONWriter, d Sink, v edlisp.Value) (Sink, bool) { return putJSON(d, v) }

// arrays writes the expressions from the i-th on, one to a line.
func arrays(d Sink, es []edlisp.Value, i int) (Sink, bool) {
	if i < 0 || i >= len(es) {
		return d, true
	}
	d, ok := putJSON(d, es[i])
	if !ok {
		return d, false
	}
	return arrays(d, es, i+1)
}

//gover:contract (*JSONWriter).Write
//gover:prop C14
func specJSONWrite(w *JSONWriter, d Sink, es []edlisp.Value) (Sink, bool) { return arrays(d, es, 0) }

// Written is a destination after the expressions have been written to it in
// the given format, and whether that worked.
func Written(d Sink, es []edlisp.Value, format string) (Sink, bool) {
	switch format {
	case "shell":
		return lines(d, es, 0)
	case "sexp":
		return sexps(d, es, 0)
	case "json":
		return arrays(d, es, 0)
	}
	return d, false
}

// Writes reports whether a single value can be written in the given format
// to a destination that takes everything.
func Writes(v edlisp.Value, format string) bool {
	switch format {
	case "shell":
		_, ok := word(v)
		return ok
	case "sexp":
		return true
	case "json":
		t, ok := tree(v)
		if !ok {
			return false
		}
		_, ok = jsonText(t)
		return ok
	}
	return false
}
