package main

import (
	"encoding/json"
	"go/token"
	"go/types"
	"io"
	"math/big"
	"reflect"
	"strings"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
)

type externFn func(x *Exec, st *State, i ssa.Value, ps token.Pos, args []SV, fn *ssa.Function) []SV

var externs map[string]externFn

func init() {
	externs = map[string]externFn{}
	for _, b := range []string{"strings.Builder", "bytes.Buffer"} {
		p := "(*" + b + ")."
		rd := func(x *Exec, st *State, args []SV, ps token.Pos) *Term {
			v := x.load(st, args[0], builderType, ps)
			t, ok := v.(*Term)
			if !ok {
				unsup("builder content %T", v)
			}
			return t
		}
		externs[p+"String"] = func(x *Exec, st *State, i ssa.Value, ps token.Pos, args []SV, fn *ssa.Function) []SV {
			return []SV{rd(x, st, args, ps)}
		}
		externs[p+"Len"] = func(x *Exec, st *State, i ssa.Value, ps token.Pos, args []SV, fn *ssa.Function) []SV {
			return []SV{SLen(rd(x, st, args, ps))}
		}
		externs[p+"Reset"] = func(x *Exec, st *State, i ssa.Value, ps token.Pos, args []SV, fn *ssa.Function) []SV {
			x.store(st, args[0], TEmpty(SStr), builderType, ps)
			return []SV{}
		}
		externs[p+"Grow"] = func(x *Exec, st *State, i ssa.Value, ps token.Pos, args []SV, fn *ssa.Function) []SV {
			x.emit(st, "bounds", "Grow argument is not negative", ps, Le(TInt(0), args[1].(*Term)), "safety")
			return []SV{}
		}
		externs[p+"Cap"] = func(x *Exec, st *State, i ssa.Value, ps token.Pos, args []SV, fn *ssa.Function) []SV {
			return []SV{AppR("builder.cap", SInt, big0, maxLen, rd(x, st, args, ps))}
		}
		wr := func(x *Exec, st *State, ps token.Pos, args []SV, s *Term) {
			x.store(st, args[0], SCat(rd(x, st, args, ps), s), builderType, ps)
		}
		externs[p+"WriteString"] = func(x *Exec, st *State, i ssa.Value, ps token.Pos, args []SV, fn *ssa.Function) []SV {
			s := args[1].(*Term)
			wr(x, st, ps, args, s)
			return []SV{SLen(s), ErrNil}
		}
		externs[p+"Write"] = func(x *Exec, st *State, i ssa.Value, ps token.Pos, args []SV, fn *ssa.Function) []SV {
			s := x.peekTerm(st, args[1], types.NewSlice(types.Typ[types.Uint8]))
			wr(x, st, ps, args, s)
			return []SV{SLen(s), ErrNil}
		}
		externs[p+"WriteByte"] = func(x *Exec, st *State, i ssa.Value, ps token.Pos, args []SV, fn *ssa.Function) []SV {
			wr(x, st, ps, args, SUnit(SStr, args[1].(*Term)))
			return []SV{ErrNil}
		}
		externs[p+"WriteRune"] = func(x *Exec, st *State, i ssa.Value, ps token.Pos, args []SV, fn *ssa.Function) []SV {
			s := x.runeStr(st, args[1].(*Term))
			wr(x, st, ps, args, s)
			return []SV{SLen(s), ErrNil}
		}
	}
	newErr := func(x *Exec, st *State, i ssa.Value, ps token.Pos, args []SV, fn *ssa.Function) []SV {
		if st.spec {
			unsup("error construction in a specification")
		}
		e := TVar(x.freshName("err"), SErr)
		st.assume(Not(Eq(e, ErrNil)))
		return []SV{e}
	}
	externs["fmt.Errorf"] = newErr
	externs["errors.New"] = newErr
	externs["fmt.Sprintf"] = sprintf
	externs["fmt.Sprint"] = sprintf
	nop := func(x *Exec, st *State, i ssa.Value, ps token.Pos, args []SV, fn *ssa.Function) []SV { return []SV{} }
	for _, n := range []string{"(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock", "(*sync.Mutex).Lock", "(*sync.Mutex).Unlock"} {
		externs[n] = nop
	}
	externs["regexp.MustCompile"] = func(x *Exec, st *State, i ssa.Value, ps token.Pos, args []SV, fn *ssa.Function) []SV {
		p := args[0].(*Term)
		e := App("regexp.Compile#1", SErr, p)
		x.emit(st, "panic", "pattern compiles", ps, Eq(e, ErrNil), "safety")
		return []SV{App("regexp.Compile#0", opaqueSort("P_regexp.Regexp"), p)}
	}
	for _, m := range []string{"FindStringIndex", "FindAllStringIndex", "MatchString", "ReplaceAllString", "FindString", "ReplaceAllLiteralString", "FindStringSubmatchIndex", "FindAllString"} {
		m := m
		externs["(*regexp.Regexp)."+m] = func(x *Exec, st *State, i ssa.Value, ps token.Pos, args []SV, fn *ssa.Function) []SV {
			h := args[0].(*Term)
			if h.Op == "app" && h.S == "regexp.Compile#0" {
				x.emit(st, "nil", "regular expression compiled", ps, Eq(App("regexp.Compile#1", SErr, h.Args[0]), ErrNil), "safety")
			}
			x.e.trust("library function (*regexp.Regexp)." + m + " behaves as a pure total function of its arguments")
			var ts []*Term
			for k, a := range args {
				ts = append(ts, x.term(st, a, sigParam(fn, k)))
			}
			return x.ufResults("(*regexp.Regexp)."+m, fn.Signature.Results(), ts)
		}
	}
	for _, n := range []string{"unicode/utf8.DecodeRuneInString", "unicode/utf8.DecodeRune"} {
		externs[n] = func(x *Exec, st *State, i ssa.Value, ps token.Pos, args []SV, fn *ssa.Function) []SV {
			s := x.peekTerm(st, args[0], sigParam(fn, 0))
			some := st.decide(Lt(TInt(0), SLen(s)))
			p := TInt(0)
			// decoding at a position of a text is decoding the rest of it
			if s.Op == "ssub" && s.Args[2] == SLen(s.Args[0]) {
				s, p = s.Args[0], s.Args[1]
			}
			rn, w := runeAt(s, p)
			return []SV{Ite(some, rn, TInt(0xFFFD)), Ite(some, w, TInt(0))}
		}
	}
	externs["reflect.ValueOf"] = func(x *Exec, st *State, i ssa.Value, ps token.Pos, args []SV, fn *ssa.Function) []SV {
		return []SV{App("reflect.ValueOf", opaqueSort("ReflectValue"), x.term(st, args[0], sigParam(fn, 0)))}
	}
	externs["(reflect.Value).Kind"] = func(x *Exec, st *State, i ssa.Value, ps token.Pos, args []SV, fn *ssa.Function) []SV {
		v, ok := args[0].(*Term)
		if !ok {
			unsup("kind of %T", args[0])
		}
		k := AppR("reflect.Kind", SInt, big0, big.NewInt(26), v)
		if v.Op == "app" && v.S == "reflect.ValueOf" {
			a := v.Args[0]
			for c, r := range map[string]reflect.Kind{"ANil": reflect.Invalid, "AStr": reflect.String, "AFlt": reflect.Float64, "ABool": reflect.Bool, "ASeq": reflect.Slice, "AMap": reflect.Map} {
				st.assume(Implies(Is(c, a), Eq(k, TInt(int64(r)))))
			}
		}
		return []SV{k}
	}
	externs["encoding/json.Unmarshal"] = jsonUnmarshal
	externs["sort.Slice"] = sortSlice
	externs["sort.SliceStable"] = sortSlice
	externs["strings.NewReader"] = func(x *Exec, st *State, i ssa.Value, ps token.Pos, args []SV, fn *ssa.Function) []SV {
		return []SV{App("strings.NewReader", opaqueSort("P_strings.Reader"), args[0].(*Term))}
	}
	externs["io.ReadAll"] = func(x *Exec, st *State, i ssa.Value, ps token.Pos, args []SV, fn *ssa.Function) []SV {
		v := args[0]
		if iv, ok := v.(IfaceV); ok {
			v = iv.v
		}
		r, ok := v.(*Term)
		if !ok {
			unsup("reading from %T", v)
		}
		if r.Op == "app" && r.S == "strings.NewReader" {
			return []SV{r.Args[0], ErrNil}
		}
		if stdFile(args[0]) == "os.Stdin" {
			_, d := x.worldField(st, "Source")
			t, er := sourceRead(d)
			return []SV{t, er}
		}
		x.e.trust("a reader is read only once, and what it delivers does not depend on when it is read")
		return []SV{App("reader.text", SStr, r), App("reader.err", SErr, r)}
	}
}

var builderType = types.NewNamed(types.NewTypeName(token.NoPos, types.NewPackage("strings", "strings"), "Builder", nil), types.NewStruct(nil, nil), nil)

// sprintf: strings, numbers and values are written out; anything else is an
// uninterpreted function of the verb and the argument.
func sprintf(x *Exec, st *State, i ssa.Value, ps token.Pos, args []SV, fn *ssa.Function) []SV {
	if fn.Name() == "Sprint" {
		return []SV{x.sprint(st, x.variadic(st, args[0]), false)}
	}
	return []SV{x.format(st, args[0].(*Term), x.variadic(st, args[1]))}
}

// variadic: the arguments behind the dots.
func (x *Exec) variadic(st *State, a SV) []SV {
	switch s := a.(type) {
	case SliceV:
		if arr, ok := st.mem[s.reg].val.(*ArrV); ok {
			return arr.e
		}
	case *nilSlice:
		return nil
	case *Term:
		if s.Op == "sempty" {
			return nil
		}
	}
	unsup("variadic arguments: %T", a)
	return nil
}

func (x *Exec) sprint(st *State, as []SV, ln bool) *Term {
	out := TEmpty(SStr)
	wasStr := true
	for k, a := range as {
		iv, _ := a.(IfaceV)
		isStr := iv.typ != nil && isStringType(iv.typ)
		if k > 0 && (ln || !isStr && !wasStr) {
			out = SCat(out, TLit(" "))
		}
		out = SCat(out, x.fmtOne(st, "v", a))
		wasStr = isStr
	}
	if ln {
		out = SCat(out, TLit("\n"))
	}
	return out
}

func isStringType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func (x *Exec) format(st *State, f *Term, as []SV) *Term {
	if !f.isStrConst() {
		return x.formatAny(st, "fmt.Sprintf", append([]SV{f}, as...))
	}
	s := strOf(f)
	out := TEmpty(SStr)
	n := 0
	for len(s) > 0 {
		k := strings.IndexByte(s, '%')
		if k < 0 {
			k = len(s)
		}
		out = SCat(out, TLit(s[:k]))
		if s = s[k:]; s == "" {
			break
		}
		e := 1
		for e < len(s) && strings.IndexByte("0123456789.+-# ", s[e]) >= 0 {
			e++
		}
		if e == len(s) {
			return x.formatAny(st, "fmt.Sprintf:"+strOf(f), as)
		}
		if s[e] == '%' && e == 1 {
			out = SCat(out, TLit("%"))
			s = s[e+1:]
			continue
		}
		if s[e] >= 0x80 || s[e] == '*' || s[e] == '[' || n >= len(as) {
			return x.formatAny(st, "fmt.Sprintf:"+strOf(f), as)
		}
		out = SCat(out, x.fmtOne(st, s[1:e+1], as[n]))
		n++
		s = s[e+1:]
	}
	if n != len(as) {
		return x.formatAny(st, "fmt.Sprintf:"+strOf(f), as)
	}
	return out
}

func (x *Exec) formatAny(st *State, name string, as []SV) *Term {
	var ts []*Term
	for _, a := range as {
		if t, ok := a.(*Term); ok {
			ts = append(ts, t)
			continue
		}
		ts = append(ts, x.fmtArg(st, a))
	}
	// the shape of the argument list is part of the function name
	sh := ""
	for _, t := range ts {
		sh += "," + t.Sort.Name
	}
	x.e.trust("library function fmt.Sprintf/Sprint behaves as a pure total function of format and arguments")
	return App(name+sh, SStr, ts...)
}

// fmtOne renders one argument.
func (x *Exec) fmtOne(st *State, verb string, a SV) *Term {
	t := x.fmtArg(st, a)
	plain := true // a type whose values fmt prints by kind
	if iv, ok := a.(IfaceV); ok {
		if n, ok := iv.typ.(*types.Named); ok && n.NumMethods() > 0 {
			plain = false
		}
	}
	switch {
	case t.Sort == SVal && (verb == "v" || verb == "s") && x.e.stringer != nil:
		x.e.trust("fmt renders a value by its String method")
		return x.e.evalSpec(x.e.stringer, []SV{t}, st)[0].(*Term)
	case t.Sort == SStr && plain && (verb == "v" || verb == "s"):
		return t
	case t.Sort == SStr && plain && verb == "q":
		return App("strconv.Quote", SStr, t)
	case t.Sort == SInt && plain && (verb == "v" || verb == "d"):
		return App("strconv.Itoa", SStr, t)
	}
	x.e.trust("library function fmt.Sprintf/Sprint behaves as a pure total function of format and arguments")
	return App("fmt.%"+verb+","+t.Sort.Name, SStr, t)
}

// writeTo recognises the library functions that format their arguments and
// hand the text to a writer in one piece.
func (x *Exec) writeTo(st *State, name string, args []SV) (*Term, *ssa.Function, bool) {
	switch name {
	case "fmt.Fprint", "fmt.Fprintf", "fmt.Fprintln", "io.WriteString":
	default:
		return nil, nil, false
	}
	iv, ok := args[0].(IfaceV)
	if !ok {
		return nil, nil, false
	}
	m := x.e.prog.LookupMethod(iv.typ, nil, "Write")
	if m == nil {
		return nil, nil, false
	}
	var s *Term
	switch name {
	case "fmt.Fprint":
		s = x.sprint(st, x.variadic(st, args[1]), false)
	case "fmt.Fprintln":
		s = x.sprint(st, x.variadic(st, args[1]), true)
	case "fmt.Fprintf":
		s = x.format(st, args[1].(*Term), x.variadic(st, args[2]))
	case "io.WriteString":
		if types.NewMethodSet(iv.typ).Lookup(nil, "WriteString") != nil {
			m = x.e.prog.LookupMethod(iv.typ, nil, "WriteString")
		}
		s = args[1].(*Term)
	}
	x.e.trust("fmt.Fprint, Fprintf and Fprintln format their arguments and write the text in one piece")
	return s, m, true
}

func (x *Exec) fmtArg(st *State, v SV) *Term {
	iv, ok := v.(IfaceV)
	if !ok {
		if t, ok := v.(*Term); ok {
			if t.Op == "mk" && t.S == "AVal" {
				return t.Args[0]
			}
			return t
		}
		unsup("format argument %T", v)
	}
	if isErrorType(iv.typ) {
		return x.errTerm(st, iv)
	}
	return x.term(st, iv.v, iv.typ)
}

var purePkgs = []string{"strings.", "strconv.", "unicode.", "unicode/utf8.", "path/filepath.", "regexp.Compile", "regexp.QuoteMeta", "math.", "(*regexp.Regexp).", "encoding/json.Valid", "(error).Error", "bytes.", "(*github.com/spf13/cobra.Command).Flags", "(*github.com/spf13/pflag.FlagSet).GetString", "(github.com/mark3labs/mcp-go/mcp.CallToolRequest).", "github.com/mark3labs/mcp-go/mcp.NewToolResult"}

func pureExtern(name string) bool {
	switch name {
	case "strings.NewReader", "strings.Map", "strings.TrimLeftFunc":
		return name == "strings.TrimLeftFunc"
	case "path/filepath.Glob", "path/filepath.Walk", "strings.NewReplacer":
		return false
	}
	for _, p := range purePkgs {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

// ---------- files and standard streams ----------
//
// The outside world is an object in memory region worldReg whose type is the
// contracts' World. Its components are interfaces (World.Disk and so on), so
// they are opaque; reading and writing are uninterpreted functions of them.

const worldReg = -1 << 40

func (x *Exec) initWorld(st *State, c *Contract) {
	t := c.Spec.Signature.Params().At(0).Type()
	st.mem[worldReg] = &Region{typ: t, val: x.freshVal(st, t, "world"), name: "world"}
}

func (x *Exec) worldVal(st *State, t types.Type) SV {
	r := st.mem[worldReg]
	if r == nil {
		unsup("a function with outside effects is called by one whose contract has none")
	}
	return r.val
}

func (x *Exec) setWorld(st *State, v SV) {
	x.noteWrite(st, worldReg)
	c := *st.mem[worldReg]
	c.val = v
	st.mem[worldReg] = &c
}

// worldField finds a component of the world by its type's name.
func (x *Exec) worldField(st *State, name string) (int, *Term) {
	r := st.mem[worldReg]
	if r == nil {
		unsup("outside effects in a function whose contract has none")
	}
	u := r.typ.Underlying().(*types.Struct)
	for i := 0; i < u.NumFields(); i++ {
		n := typeName(u.Field(i).Type())
		if n[strings.LastIndex(n, ".")+1:] == name {
			return i, r.val.(*StructV).f[i].(*Term)
		}
	}
	unsup("the world has no %s", name)
	return 0, nil
}

// worldSlot finds a component of the world by its type.
func (x *Exec) worldSlot(st *State, t types.Type) (int, types.Type) {
	if r := st.mem[worldReg]; r != nil {
		u := r.typ.Underlying().(*types.Struct)
		for i := 0; i < u.NumFields(); i++ {
			if types.Identical(u.Field(i).Type(), t) {
				return i, t
			}
		}
	}
	unsup("the world has no %s", t)
	return 0, nil
}

func (x *Exec) setWorldField(st *State, i int, t *Term) { x.setWorldSlot(st, i, t) }

func (x *Exec) setWorldSlot(st *State, i int, t SV) {
	o := st.mem[worldReg].val.(*StructV)
	n := &StructV{typ: o.typ, f: append([]SV{}, o.f...)}
	n.f[i] = t
	x.setWorld(st, n)
}

func diskRead(d, name *Term) (*Term, *Term) {
	return App("disk.read", SStr, d, name), App("disk.readErr", SErr, d, name)
}

func diskWrite(d, name, data *Term) (*Term, *Term) {
	return App("disk.write", d.Sort, d, name, data), App("disk.writeErr", SErr, d, name, data)
}

func streamWrite(d, data *Term) (*Term, *Term) {
	return App("stream.write", d.Sort, d, data), App("stream.writeErr", SErr, d, data)
}

func sourceRead(d *Term) (*Term, *Term) {
	return App("source.read", SStr, d), App("source.readErr", SErr, d)
}

// ioMethod handles the methods of the world's components in specifications.
func ioMethod(x *Exec, st *State, i *ssa.Call, recv SV, m string, args []SV) []SV {
	r, ok := recv.(*Term)
	if !ok || !st.spec {
		return nil
	}
	n := typeName(i.Call.Value.Type())
	switch n[strings.LastIndex(n, ".")+1:] + "." + m {
	case "Disk.Read":
		t, e := diskRead(r, args[0].(*Term))
		return []SV{t, e}
	case "Disk.Write":
		d, e := diskWrite(r, args[0].(*Term), args[1].(*Term))
		return []SV{d, e}
	case "Stream.Write":
		d, e := streamWrite(r, args[0].(*Term))
		return []SV{d, e}
	case "Source.ReadAll":
		t, e := sourceRead(r)
		return []SV{t, e}
	}
	return nil
}

// stdFile recognises os.Stdin, os.Stdout and os.Stderr.
func stdFile(v SV) string {
	if iv, ok := v.(IfaceV); ok {
		v = iv.v
	}
	if t, ok := v.(*Term); ok && t.Op == "var" && strings.HasPrefix(t.S, "os.Std") {
		return t.S
	}
	return ""
}

func (x *Exec) writeStdout(st *State, s *Term) []SV {
	k, d := x.worldField(st, "Stream")
	nd, er := streamWrite(d, s)
	x.setWorldField(st, k, nd)
	return []SV{SLen(s), er}
}

var bytesT = types.NewSlice(types.Typ[types.Uint8])

func (x *Exec) worldOp(st *State, i ssa.Value, ps token.Pos, name string, args []SV, fn *ssa.Function) ([]SV, bool) {
	switch name {
	case "os.ReadFile", "io/ioutil.ReadFile":
		_, d := x.worldField(st, "Disk")
		t, er := diskRead(d, args[0].(*Term))
		return []SV{t, er}, true
	case "os.WriteFile", "io/ioutil.WriteFile":
		k, d := x.worldField(st, "Disk")
		nd, er := diskWrite(d, args[0].(*Term), x.peekTerm(st, args[1], bytesT))
		x.setWorldField(st, k, nd)
		return []SV{er}, true
	case "(*os.File).WriteString", "(*os.File).Write", "io.WriteString":
		if stdFile(args[0]) == "os.Stdout" {
			return x.writeStdout(st, x.peekTerm(st, args[1], sigParam(fn, 1))), true
		}
		if stdFile(args[0]) == "os.Stderr" {
			return []SV{x.freshVal(st, types.Typ[types.Int], "n"), TVar(x.freshName("err"), SErr)}, true
		}
	case "fmt.Print", "fmt.Fprint":
		rest := args
		std := "os.Stdout"
		if name == "fmt.Fprint" {
			std = stdFile(args[0])
			rest = args[1:]
		}
		if s, ok := rest[0].(SliceV); ok && std == "os.Stdout" {
			if a, ok := st.mem[s.reg].val.(*ArrV); ok && len(a.e) == 1 {
				if t := x.fmtArg(st, a.e[0]); t.Sort == SStr {
					return x.writeStdout(st, t), true
				}
			}
		}
		if std != "" {
			return x.diagnostic(st), true
		}
	case "fmt.Printf", "fmt.Println":
		return x.diagnostic(st), true
	case "fmt.Fprintf", "fmt.Fprintln":
		if stdFile(args[0]) != "" {
			return x.diagnostic(st), true
		}
	}
	return nil, false
}

// diagnostic: formatted messages are not part of the modelled output.
func (x *Exec) diagnostic(st *State) []SV {
	x.e.trust("formatted messages on the standard streams (fmt.Printf and the like) have no effect on files")
	return []SV{x.freshVal(st, types.Typ[types.Int], "n"), TVar(x.freshName("err"), SErr)}
}

// sortSlice sorts a slice of known length when every comparison is decided and
// the comparison is a strict total order on the elements, so that there is
// only one sorted arrangement.
func sortSlice(x *Exec, st *State, i ssa.Value, ps token.Pos, args []SV, fn *ssa.Function) []SV {
	v := args[0]
	if iv, ok := v.(IfaceV); ok {
		v = iv.v
	}
	if n, ok := v.(*nilSlice); ok {
		_ = n
		return []SV{}
	}
	less, ok := args[1].(ClosV)
	s, ok2 := v.(SliceV)
	if !ok || !ok2 {
		unsup("sort.Slice of %T", v)
	}
	arr, ok := st.mem[s.reg].val.(*ArrV)
	if t, isT := st.mem[s.reg].val.(*Term); isT && seqConstLen(t) >= 0 {
		et := s.typ.Underlying().(*types.Slice).Elem()
		arr, ok = &ArrV{typ: types.NewArray(et, int64(seqConstLen(t)))}, true
		for k := 0; k < seqConstLen(t); k++ {
			arr.e = append(arr.e, x.fromTerm(et, SAt(t, TInt(int64(k)))))
		}
	}
	if !ok || !s.lo.isInt() || !s.n.isInt() || s.lo.I.Sign() != 0 || s.n.I.Int64() != int64(len(arr.e)) {
		unsup("sort.Slice of a slice of unknown length")
	}
	n := len(arr.e)
	el := append([]SV{}, arr.e...)
	set := func() {
		x.noteWrite(st, s.reg)
		c := *st.mem[s.reg]
		c.val = &ArrV{typ: arr.typ, e: append([]SV{}, el...)}
		st.mem[s.reg] = &c
	}
	cmp := func(a, b int) bool {
		r := x.pureCall(st, less, []SV{TInt(int64(a)), TInt(int64(b))})
		t, ok := r[0].(*Term)
		if !ok || !st.decide(t).isConst() {
			unsup("sort.Slice with an undecided comparison")
		}
		return st.decide(t) == TTrue
	}
	for a := 1; a < n; a++ {
		for b := a; b > 0 && cmp(b, b-1); b-- {
			el[b], el[b-1] = el[b-1], el[b]
			set()
		}
	}
	for a := 0; a < n; a++ {
		for b := a + 1; b < n; b++ {
			if !cmp(a, b) || cmp(b, a) {
				unsup("sort.Slice with elements that compare equal")
			}
		}
	}
	return []SV{}
}

// pureCall evaluates a function without effects.
func (x *Exec) pureCall(st *State, f ClosV, args []SV) []SV {
	fr := &Frame{fn: f.fn, env: map[ssa.Value]SV{}, blk: f.fn.Blocks[0], cuts: map[*ssa.BasicBlock]*Cut{}, visits: map[*ssa.BasicBlock]int{}}
	for k, p := range f.fn.Params {
		fr.env[p] = args[k]
	}
	for k, p := range f.fn.FreeVars {
		fr.env[p] = f.binds[k]
	}
	n := st.clone()
	n.fr = append(n.fr, fr)
	low := x.joinLow
	x.joinLow = int(atomic.LoadInt64(&regCounter))
	defer func() {
		x.joinLow = low
		if r := recover(); r != nil {
			if _, ok := r.(joinFail); ok {
				unsup("effects in a function argument")
			}
			panic(r)
		}
	}()
	r := x.run(n, &handler{base: len(n.fr), join: true})
	if r == nil {
		unsup("function argument does not return")
	}
	return r
}

// jsonUnmarshal decodes a text into an empty []any variable.
func jsonUnmarshal(x *Exec, st *State, i ssa.Value, ps token.Pos, args []SV, fn *ssa.Function) []SV {
	s := x.peekTerm(st, args[0], bytesT)
	iv, ok := args[1].(IfaceV)
	if !ok {
		unsup("decoding into %T", args[1])
	}
	p, ok := iv.typ.Underlying().(*types.Pointer)
	if !ok || sortOf(p.Elem()) != SAnys {
		unsup("decoding into %s", iv.typ)
	}
	if old := x.peekTerm(st, x.load(st, iv.v, p.Elem(), ps), p.Elem()); old != TEmpty(SAnys) {
		unsup("decoding into a variable that is not empty")
	}
	x.e.trust("json.Unmarshal into an empty []any is a function of the text, and so is whether it fails")
	x.store(st, iv.v, x.fromTerm(p.Elem(), App("json.array", SAnys, s)), p.Elem(), ps)
	return []SV{App("json.array.err", SErr, s)}
}

// anyConst is the term for a decoded JSON value.
func anyConst(v any) *Term {
	switch v := v.(type) {
	case nil:
		return Mk("ANil")
	case string:
		return Mk("AStr", TLit(v))
	case float64:
		return Mk("AFlt", fltConst(v))
	case bool:
		return Mk("ABool", TBool(v))
	case []any:
		return Mk("ASeq", anysConst(v))
	}
	return Mk("AMap", TSmp(opaqueSort("AnyMap"), "map"))
}

func anysConst(vs []any) *Term {
	r := TEmpty(SAnys)
	for _, v := range vs {
		r = SCat(r, SUnit(SAnys, anyConst(v)))
	}
	return r
}

// foldJSON evaluates the JSON library on constants.
func foldJSON(name string, args []*Term) *Term {
	switch name {
	case "json.array", "json.array.err":
		var vs []any
		err := json.Unmarshal([]byte(strOf(args[0])), &vs)
		if name == "json.array" {
			return anysConst(vs)
		}
		if err != nil {
			return TSmp(SErr, "json")
		}
		return ErrNil
	case "spec.writer.gover_jsonText#0", "spec.writer.gover_jsonText#1":
		v, ok := anyOfConst(args[0])
		if !ok {
			return nil
		}
		b, err := json.Marshal(v)
		if strings.HasSuffix(name, "#0") {
			return TLit(string(b))
		}
		return TBool(err == nil)
	case "spec.parser.gover_jsonStream#0", "spec.parser.gover_jsonStream#1":
		d := json.NewDecoder(strings.NewReader(strOf(args[0])))
		var vs []any
		var end *Term
		for end == nil {
			var v any
			switch err := d.Decode(&v); err {
			case nil:
				vs = append(vs, v)
			case io.EOF:
				end = ErrEOF
				if args[1] != ErrNil {
					end = args[1]
				}
			default:
				end = TSmp(SErr, "json")
				if args[1] != ErrNil {
					return nil
				}
			}
		}
		if strings.HasSuffix(name, "#0") {
			return anysConst(vs)
		}
		return end
	}
	return nil
}

// anyOfConst is the JSON value a constant term denotes.
func anyOfConst(t *Term) (any, bool) {
	if t.Op != "mk" {
		return nil, false
	}
	switch t.S {
	case "ANil":
		return nil, true
	case "AStr":
		return strOf(t.Args[0]), true
	case "AFlt":
		return parseFlt(t.Args[0].S), true
	case "ABool":
		return t.Args[0] == TTrue, true
	case "ASeq":
		vs := []any{}
		es, ok := seqElems(t.Args[0])
		if !ok {
			return nil, false
		}
		for _, e := range es {
			v, ok := anyOfConst(e)
			if !ok {
				return nil, false
			}
			vs = append(vs, v)
		}
		return vs, true
	}
	return nil, false
}

func seqElems(t *Term) ([]*Term, bool) {
	switch t.Op {
	case "sempty":
		return nil, true
	case "sunit":
		return t.Args[:1], true
	case "scat":
		var out []*Term
		for _, a := range t.Args {
			es, ok := seqElems(a)
			if !ok {
				return nil, false
			}
			out = append(out, es...)
		}
		return out, true
	}
	return nil, false
}
