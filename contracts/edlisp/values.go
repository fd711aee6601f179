package edlisp

// equalValues is structural equality: same kind and equal contents.
func equalValues(a, b Value) bool {
	switch v := a.(type) {
	case nil:
		return b == nil
	case *String:
		w, ok := b.(*String)
		return ok && v.Value == w.Value
	case *Number:
		w, ok := b.(*Number)
		return ok && v.Value == w.Value
	case *Symbol:
		w, ok := b.(*Symbol)
		return ok && v.Name == w.Name
	case *List:
		w, ok := b.(*List)
		return ok && len(v.Elements) == len(w.Elements) && equalFrom(v.Elements, w.Elements, 0)
	}
	return false
}

// equalFrom: the elements from i on are pairwise equal.
func equalFrom(a, b []Value, i int) bool {
	if i < 0 || i >= len(a) || i >= len(b) {
		return true
	}
	return equalValues(a[i], b[i]) && equalFrom(a, b, i+1)
}

//gover:contract Equal nowf
//gover:prop C16
func specEqual(aOrNil, bOrNil Value) bool { return equalValues(aOrNil, bOrNil) }

//gover:contract (*List).Len inline nowf
//gover:prop C16
func specListLen(list *List) int { return len(list.Elements) }

//gover:contract (*List).IsEmpty inline nowf
//gover:prop C16
func specListIsEmpty(list *List) bool { return len(list.Elements) == 0 }

//gover:contract (*List).First inline nowf
//gover:prop C16
func specListFirst(list *List) (vOrNil Value) {
	if len(list.Elements) == 0 {
		return nil
	}
	return list.Elements[0]
}

//gover:contract (*List).Rest inline nowf
//gover:prop C16
func specListRest(list *List) *List {
	if len(list.Elements) == 0 {
		return &List{Elements: []Value{}}
	}
	return &List{Elements: list.Elements[1:]}
}

//gover:contract (*List).Append inline nowf
//gover:prop C16
func specListAppend(list *List, element Value) *List {
	return &List{Elements: append(list.Elements[:len(list.Elements):len(list.Elements)], element)}
}

//gover:contract (*List).Get inline nowf
//gover:prop C16
func specListGet(list *List, index int) (vOrNil Value) {
	if index < 0 || index >= len(list.Elements) {
		return nil
	}
	return list.Elements[index]
}

//gover:contract NewList inline nowf
//gover:prop C16
func specNewList(elements []Value) *List { return &List{Elements: elements} }

//gover:contract NewEmptyList inline nowf
//gover:prop C16
func specNewEmptyList() *List { return &List{Elements: []Value{}} }

//gover:contract NewString inline nowf
//gover:prop C16
func specNewString(value string) *String { return &String{Value: value} }

//gover:contract NewSymbol inline nowf
//gover:prop C16
func specNewSymbol(name string) *Symbol { return &Symbol{Name: name} }

//gover:contract NewNumber inline nowf
//gover:prop C16
func specNewNumber(value float64) *Number { return &Number{Value: value} }

//gover:contract NewIntNumber inline nowf
//gover:prop C16
func specNewIntNumber(value int) *Number { return &Number{Value: float64(value)} }

//gover:contract (*Number).Float inline nowf
//gover:prop C16
func specNumberFloat(n *Number) float64 { return n.Value }
