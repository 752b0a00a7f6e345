package main

import (
	"go/constant"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// isNamed reports whether t (or what it points to) is the named type pkgSuffix.name.
func isNamed(t types.Type, full string) bool {
	n := namedOf(t)
	if n == nil || n.Obj().Pkg() == nil {
		return false
	}
	return n.Obj().Pkg().Path()+"."+n.Obj().Name() == full
}

func isByteSlice(t types.Type) bool {
	s, ok := types.Unalias(t).Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := types.Unalias(s.Elem()).Underlying().(*types.Basic)
	return ok && b.Kind() == types.Byte
}

func mp(s string) string { return modPath + "/" + s }

// Elems resolves the elements of a slice term built from a literal or variadic array.
func (x *X) Elems(t *Term) ([]*Term, bool) {
	return x.elems(x.St, t)
}

func (s *Sim) elems(st *State, t *Term) ([]*Term, bool) {
	if t.IsConst() && t.S == "nil" {
		return nil, true
	}
	switch t.Op {
	case "sl":
		if t.A[0].Op == "new" && t.A[1] == nil && t.A[2] == nil {
			n, err := strconv.Atoi(t.A[0].S)
			if err != nil {
				return nil, false
			}
			var out []*Term
			for i := 0; i < n; i++ {
				a := s.ts.mk("ia", "", "", t.A[0], s.ts.IntConst(int64(i)))
				if c, ok := st.mem[a.key]; ok {
					out = append(out, s.load(st, a, nil, nil))
					_ = c
				} else {
					// fields stored one by one
					out = append(out, s.structAt(st, a))
				}
			}
			return out, true
		}
	case "app":
		a, ok := s.elems(st, t.A[0])
		if !ok {
			return nil, false
		}
		b, ok := s.elems(st, t.A[1])
		if !ok {
			return nil, false
		}
		return append(append([]*Term(nil), a...), b...), true
	case "mslice":
		if n, ok := t.A[0].Int(); ok && n == 0 {
			return nil, true
		}
	}
	return nil, false
}

// structAt assembles a struct from separately stored fields.
func (s *Sim) structAt(st *State, a *Term) *Term {
	base := s.ts.mk("ld", "", "", a)
	for _, c := range st.mem {
		if c.addr.Op == "fa" && c.addr.A[0] == a {
			base = s.ts.SetField(base, c.addr.S, c.val)
		}
	}
	return base
}

// flattenApp splits app(app(base,p1),p2) into base and parts, down to stop.
func flattenApp(t, stop *Term) (base *Term, parts []*Term) {
	if t.Op == "app" && t != stop {
		b, p := flattenApp(t.A[0], stop)
		return b, append(p, t.A[1])
	}
	return t, nil
}

// bytesConst is the constant byte content of a term appended to a byte slice.
func (x *X) bytesConst(t *Term) (string, bool) {
	if s, ok := t.Str(); ok {
		return s, true
	}
	el, ok := x.Elems(t)
	if !ok {
		return "", false
	}
	var b strings.Builder
	for _, e := range el {
		n, ok := e.Int()
		if !ok {
			return "", false
		}
		b.WriteByte(byte(n))
	}
	return b.String(), true
}

func isLine(t *Term) bool {
	return t.Is("call", "(*bufio.Scanner).Bytes", "(*bufio.Scanner).Text")
}

// linePrefix recognises a condition that is true exactly when some line starts with a constant.
func linePrefix(c *Term) (line *Term, prefix string, ok bool) {
	switch c.Op {
	case "eq":
		a, b := c.A[0], c.A[1]
		if a.Op == "sl" && a.A[1] == nil {
			if s, isS := b.Str(); isS {
				if n, isN := a.A[2].Int(); a.A[2] != nil && isN && int(n) == len(s) {
					return a.A[0], s, true
				}
			}
		}
		if a.Op == "el" {
			if i, isN := a.A[1].Int(); isN && i == 0 {
				if n, isN := b.Int(); isN && n > 0 && n < 256 {
					return a.A[0], string([]byte{byte(n)}), true
				}
			}
		}
	case "call":
		if c.S == "bytes.HasPrefix" || c.S == "strings.HasPrefix" {
			if s, isS := c.A[1].Str(); isS {
				return c.A[0], s, true
			}
		}
	}
	return nil, "", false
}

// storeType is the static type of a stored value.
func storeType(e *Event) types.Type {
	switch i := e.Ins.(type) {
	case *ssa.Store:
		return i.Val.Type()
	case *ssa.MapUpdate:
		return i.Value.Type()
	case *ssa.Send:
		return i.X.Type()
	}
	return nil
}

// errNonNil reports whether the last result of a return is known to be a non-nil error.
func errKnown(x *X, e *Event) (nonNil, known bool) {
	if len(e.Args) == 0 {
		return false, true
	}
	last := e.Args[len(e.Args)-1]
	v, ok := x.IsNil(last)
	return !v, ok
}

func isErrType(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() == nil && n.Obj().Name() == "error"
}

// lastIsErr reports whether the function's last result is an error.
func lastIsErr(f *ssa.Function) bool {
	r := f.Signature.Results()
	return r.Len() > 0 && isErrType(r.At(r.Len()-1).Type())
}

// transitively reports whether fn or a function it can reach statically inside the scope satisfies pred.
func (p *Prog) transitively(fn *ssa.Function, pred func(f *ssa.Function, ins ssa.Instruction) bool) bool {
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function) bool
	visit = func(f *ssa.Function) bool {
		if f == nil || seen[f] || f.Blocks == nil || !inScopePkg(fnPkgPath(f)) {
			return false
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if pred(f, ins) {
					return true
				}
				switch i := ins.(type) {
				case ssa.CallInstruction:
					if visit(i.Common().StaticCallee()) {
						return true
					}
				}
				var ops []*ssa.Value
				for _, o := range ins.Operands(ops) {
					if o == nil || *o == nil {
						continue
					}
					if g, ok := (*o).(*ssa.Function); ok && visit(g) {
						return true
					}
				}
				if mc, ok := ins.(*ssa.MakeClosure); ok && visit(mc.Fn.(*ssa.Function)) {
					return true
				}
			}
		}
		return false
	}
	return visit(fn)
}

func isChanOp(f *ssa.Function, ins ssa.Instruction) bool {
	switch i := ins.(type) {
	case *ssa.Send, *ssa.Select:
		return true
	case *ssa.UnOp:
		return i.Op.String() == "<-"
	case ssa.CallInstruction:
		if b, ok := i.Common().Value.(*ssa.Builtin); ok && b.Name() == "close" {
			return true
		}
	}
	return false
}

// baseOf strips struct updates.
func (x *X) baseOf(t *Term) *Term {
	for t.Op == "st" {
		t = t.A[0]
	}
	return t
}

func chanElem(t *Term) types.Type {
	if t == nil || t.V == nil {
		return types.Typ[types.Invalid]
	}
	if c, ok := types.Unalias(t.V.Type()).Underlying().(*types.Chan); ok {
		return c.Elem()
	}
	return types.Typ[types.Invalid]
}

// staticType is the static type of the map in a map event.
func (t *Term) staticType(e *Event) types.Type {
	switch i := e.Ins.(type) {
	case *ssa.MapUpdate:
		return i.Map.Type()
	case *ssa.Lookup:
		return i.X.Type()
	}
	return types.Typ[types.Invalid]
}

// isPartsTerm: t is the current value of one of the named map fields of the receiver.
func (x *X) isPartsTerm(t *Term, fields map[string]bool) bool {
	for f := range fields {
		a := x.ts.mk("fa", f, "", x.ParamTerm(0))
		if c, ok := x.St.mem[a.key]; ok && c.val == t {
			return true
		}
		if t.Op == "f" && t.S == f {
			return true
		}
	}
	return false
}

func constStr(c *ssa.Const) string {
	if c.Value != nil && c.Value.Kind() == constant.String {
		return constant.StringVal(c.Value)
	}
	return ""
}
