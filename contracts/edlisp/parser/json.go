package parser

import (
	"encoding/json"
	"io"

	"github.com/dhamidi/texted/edlisp"
)

// jsonStream: the JSON values a stream of text holds up to the first thing
// that is not one, and the error met there; err is what the stream reports at
// its end, nil for an ordinary end.
//
//gover:uninterpreted
func jsonStream(text string, err error) ([]any, error) {
	d := json.NewDecoder(&textThenError{text, err})
	var out []any
	for {
		var v any
		if err := d.Decode(&v); err != nil {
			return out, err
		}
		out = append(out, v)
	}
}

type textThenError struct {
	text string
	err  error
}

func (r *textThenError) Read(p []byte) (int, error) {
	if r.text == "" {
		if r.err == nil {
			return 0, io.EOF
		}
		return 0, r.err
	}
	n := copy(p, r.text)
	r.text = r.text[n:]
	return n, nil
}

//gover:axiom
func axStream(text string, err error) bool {
	_, end := jsonStream(text, err)
	return trig(end) && end != nil
}

// jsonDecoder stands for a json.Decoder.
type jsonDecoder struct {
	vals []any
	pos  int
	end  error
}

//gover:model encoding/json.NewDecoder
func modelNewDecoder(r io.Reader) *jsonDecoder {
	b, err := io.ReadAll(r)
	vals, end := jsonStream(string(b), err)
	return &jsonDecoder{vals: vals, end: end}
}

//gover:model (*encoding/json.Decoder).Decode
func modelDecode(d *jsonDecoder, v any) error {
	if d.pos < 0 || d.pos >= len(d.vals) {
		return d.end
	}
	p := v.(*any)
	*p = d.vals[d.pos]
	d.pos++
	return nil
}

// item: the value an element of a command other than its name denotes.
func item(v any) (edlisp.Value, bool) {
	switch v := v.(type) {
	case string:
		return &edlisp.String{Value: v}, true
	case float64:
		return &edlisp.Number{Value: v}, true
	case []any:
		return array(v)
	}
	return nil, false
}

// array: the list an array denotes; it starts with a string, the name.
func array(vs []any) (edlisp.Value, bool) {
	if len(vs) == 0 {
		return &edlisp.List{}, true
	}
	name, ok := vs[0].(string)
	if !ok {
		return nil, false
	}
	es, ok := items(vs, 1, []edlisp.Value{&edlisp.Symbol{Name: name}})
	if !ok {
		return nil, false
	}
	return &edlisp.List{Elements: es}, true
}

// items: the values of the elements from the i-th on, behind acc.
func items(vs []any, i int, acc []edlisp.Value) ([]edlisp.Value, bool) {
	if i < 0 || i >= len(vs) {
		return acc, true
	}
	v, ok := item(vs[i])
	if !ok {
		return nil, false
	}
	return items(vs, i+1, append(acc, v))
}

// top: what a value at the top of a stream denotes.
func top(v any) (edlisp.Value, bool) {
	switch v := v.(type) {
	case string:
		return &edlisp.Symbol{Name: v}, true
	case float64:
		return &edlisp.Number{Value: v}, true
	case []any:
		return array(v)
	}
	return nil, false
}

//gover:contract convertJSONItem
//gover:prop C15
func specConvertJSONItem(v any) (edlisp.Value, bool) { return item(v) }

//gover:contract convertJSONArray
//gover:prop C15
func specConvertJSONArray(vs []any) (edlisp.Value, bool) { return array(vs) }

//gover:contract convertJSONValue
//gover:prop C15
func specConvertJSONValue(v any) (edlisp.Value, bool) { return top(v) }

// valid: what a script may hold below its top.
func valid(v any) bool {
	switch v := v.(type) {
	case string:
		return true
	case float64:
		return true
	case []any:
		return validArray(v)
	}
	return false
}

func validArray(vs []any) bool {
	if len(vs) == 0 {
		return true
	}
	if _, ok := vs[0].(string); !ok {
		return false
	}
	return allValid(vs, 1)
}

func allValid(vs []any, i int) bool {
	if i < 0 || i >= len(vs) {
		return true
	}
	return valid(vs[i]) && allValid(vs, i+1)
}

//gover:contract validateJSONValue
//gover:prop C15
func specValidateJSONValue(v any, isTopLevel bool) bool {
	if vs, ok := v.([]any); ok {
		return validArray(vs)
	}
	return !isTopLevel && valid(v)
}

//gover:contract ValidateJSONFormat
//gover:prop C15
func specValidateJSONFormat(v any) bool {
	vs, ok := v.([]any)
	return ok && validArray(vs)
}

// calls: the program an array of commands denotes, from the i-th on.
func calls(vs []any, i int, acc []edlisp.Value) ([]edlisp.Value, bool) {
	if i < 0 || i >= len(vs) {
		return acc, true
	}
	if !specValidateJSONFormat(vs[i]) {
		return nil, false
	}
	v, ok := top(vs[i])
	if !ok {
		return nil, false
	}
	return calls(vs, i+1, append(acc, v))
}

// ParsesJSON: the program a script in the JSON format denotes, and whether it
// is well formed.
func ParsesJSON(s string) ([]edlisp.Value, bool) {
	var vs []any
	if json.Unmarshal([]byte(s), &vs) != nil {
		return nil, false
	}
	return calls(vs, 0, nil)
}

//gover:contract ParseJSONString
//gover:prop C15
func specParseJSONString(s string) ([]edlisp.Value, bool) { return ParsesJSON(s) }

// tops: the values of a stream from the i-th on, behind acc.
func tops(vs []any, i int, acc []edlisp.Value) ([]edlisp.Value, bool) {
	if i < 0 || i >= len(vs) {
		return acc, true
	}
	v, ok := top(vs[i])
	if !ok {
		return nil, false
	}
	return tops(vs, i+1, append(acc, v))
}

//gover:contract ParseJSONReader
//gover:prop C15
func specParseJSONReader(r io.Reader) ([]edlisp.Value, bool) { return ReadsJSON(r) }

// ReadsJSON: the program a stream of JSON values denotes.
func ReadsJSON(r io.Reader) ([]edlisp.Value, bool) {
	b, err := io.ReadAll(r)
	return DecodesJSON(string(b), err)
}

// DecodesJSON: the program a text holds as a stream of JSON values; err is
// what reading the text ended with.
func DecodesJSON(text string, err error) ([]edlisp.Value, bool) {
	vs, end := jsonStream(text, err)
	if end != io.EOF {
		return nil, false
	}
	return tops(vs, 0, nil)
}
