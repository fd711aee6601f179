package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// globalValue evaluates a package variable that is assigned exactly once, by
// its initialiser.
func (e *Engine) globalValue(x *Exec, st *State, g *ssa.Global) SV {
	if e.nStores[g] != 1 {
		unsup("package variable %s is not assigned exactly once", g.Name())
	}
	s := e.inits[g]
	if s.Parent().Name() != "init" {
		unsup("package variable %s is assigned outside initialisation", g.Name())
	}
	return e.initValue(x, st, s.Val, 0)
}

func (e *Engine) allocReg(a *ssa.Alloc) int {
	e.globMu.Lock()
	defer e.globMu.Unlock()
	if r, ok := e.allocIDs[a]; ok {
		return r
	}
	e.allocIDs[a] = -1 - len(e.allocIDs)
	return e.allocIDs[a]
}

func (e *Engine) initValue(x *Exec, st *State, v ssa.Value, d int) SV {
	if d > 20 {
		unsup("initialiser too deep")
	}
	switch i := v.(type) {
	case *ssa.Const:
		return x.constVal(i)
	case *ssa.Function:
		return ClosV{fn: i}
	case *ssa.Global:
		return GlobPtr{g: i}
	case *ssa.Alloc:
		r := e.allocReg(i)
		if st.mem[r] == nil {
			t := i.Type().Underlying().(*types.Pointer).Elem()
			val := x.zero(t)
			// field initialisers
			for _, ref := range *i.Referrers() {
				if fa, ok := ref.(*ssa.FieldAddr); ok {
					for _, r2 := range *fa.Referrers() {
						if s, ok := r2.(*ssa.Store); ok && s.Addr == fa {
							sv := val.(*StructV)
							n := &StructV{typ: sv.typ, f: append([]SV{}, sv.f...)}
							n.f[fa.Field] = e.initValue(x, st, s.Val, d+1)
							val = n
						}
					}
				}
			}
			st.mem[r] = &Region{typ: t, val: val, frozen: true}
		}
		return Ptr{reg: r}
	case *ssa.MakeInterface:
		return IfaceV{typ: i.X.Type(), v: e.initValue(x, st, i.X, d+1)}
	case *ssa.ChangeInterface:
		return e.initValue(x, st, i.X, d+1)
	case *ssa.UnOp:
		if g, ok := i.X.(*ssa.Global); ok {
			return e.globalValue(x, st, g)
		}
	case *ssa.Call:
		if f := i.Call.StaticCallee(); f != nil {
			if h := externs[f.String()]; h != nil {
				var args []SV
				for _, a := range i.Call.Args {
					args = append(args, e.initValue(x, st, a, d+1))
				}
				return h(x, st, i, i.Pos(), args, f)[0]
			}
		}
	}
	unsup("initialiser %T of a package variable", v)
	return nil
}
