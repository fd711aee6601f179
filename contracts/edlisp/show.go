package edlisp

import (
	"fmt"
	"strconv"
)

// Show is how a value is spelled in a program.
//
//gover:stringer
func Show(v Value) string {
	switch w := v.(type) {
	case *String:
		return strconv.Quote(w.Value)
	case *Number:
		return ShowNumber(w.Value)
	case *Symbol:
		return w.Name
	case *List:
		return "(" + showFrom(w.Elements, 0, "") + ")"
	}
	return ""
}

// ShowNumber spells whole numbers without a fraction or an exponent.
func ShowNumber(f float64) string {
	if f == float64(int(f)) {
		return fmt.Sprintf("%.0f", f)
	}
	return fmt.Sprintf("%g", f)
}

// showFrom spells the elements from the i-th on, with a blank before each but
// the first, behind acc.
func showFrom(es []Value, i int, acc string) string {
	if i < 0 || i >= len(es) {
		return acc
	}
	if i > 0 {
		acc += " "
	}
	return showFrom(es, i+1, acc+Show(es[i]))
}

// what showFrom puts behind acc does not depend on acc
//
//gover:lemma induct
func lemShowFrom(es []Value, i int, acc string) bool {
	s := showFrom(es, i, acc)
	return trig(s) && s == acc+showFrom(es, i, "")
}

//gover:measure lemShowFrom
func measShowFrom(es []Value, i int, acc string) int { return len(es) - i }

//gover:hyp lemShowFrom
func hypShowFrom0(es []Value, i int, acc string) ([]Value, int, string) {
	if i > 0 {
		acc += " "
	}
	return es, i + 1, acc + Show(es[i])
}

//gover:hyp lemShowFrom
func hypShowFrom1(es []Value, i int, acc string) ([]Value, int, string) {
	if i > 0 {
		return es, i + 1, " " + Show(es[i])
	}
	return es, i + 1, Show(es[i])
}

//gover:contract (*String).String
//gover:prop C14
func specStringString(str *String) string { return strconv.Quote(str.Value) }

//gover:contract (*Number).String
//gover:prop C14
func specNumberString(num *Number) string { return ShowNumber(num.Value) }

//gover:contract (*Symbol).String
//gover:prop C14
func specSymbolString(sym *Symbol) string { return sym.Name }

//gover:contract (*List).String
//gover:prop C14
func specListString(list *List) string {
	return "(" + showFrom(list.Elements, 0, "") + ")"
}
