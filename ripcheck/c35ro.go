package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// graphReadOnly: what the graph holds is only changed by the package that builds it.
func (c *Ctx) graphReadOnly() {
	p := c.p
	f := p.NewFlow()
	f.Content = true
	keep := func(t types.Type) bool {
		switch u := types.Unalias(t).Underlying().(type) {
		case *types.Slice:
			b, ok := types.Unalias(u.Elem()).Underlying().(*types.Basic)
			return ok && b.Kind() == types.String
		case *types.Map, *types.Tuple, *types.Pointer:
			return true
		}
		return false
	}
	f.Stop = func(v ssa.Value) bool {
		if pt, ok := types.Unalias(v.Type()).Underlying().(*types.Pointer); ok {
			e := pt.Elem()
			if b, ok := types.Unalias(e).Underlying().(*types.Basic); ok && b.Kind() == types.String {
				return false // element address
			}
			return !keep(e)
		}
		return !keep(v.Type())
	}
	graph := mp("ripsrc/parentsgraph")
	for _, fn := range p.Fns {
		if fnPkgPath(fn) == graph {
			continue
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				switch i := ins.(type) {
				case *ssa.UnOp:
					if fa, ok := i.X.(*ssa.FieldAddr); ok && i.Op == token.MUL && isNamed(deref(fa.X.Type()), graph+".Graph") && isStringsMap(i.Type()) {
						c.Count("reads of the graph", 1)
						f.Add(i, nil)
					}
				case *ssa.Field:
					if isNamed(i.X.Type(), graph+".Graph") && isStringsMap(i.Type()) {
						c.Count("reads of the graph", 1)
						f.Add(i, nil)
					}
				}
			}
		}
	}
	f.Run()
	bad := func(fn *ssa.Function, pos token.Pos, what string) {
		c.Violate("graph changed in "+fnName(fn), pos, "%s: the parents or children that the commit graph holds change", what)
	}
	for _, fn := range p.Fns {
		if fnPkgPath(fn) == graph {
			continue
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				switch i := ins.(type) {
				case *ssa.Store:
					if ia, ok := i.Addr.(*ssa.IndexAddr); ok && f.Vals[ia.X] {
						bad(fn, i.Pos(), "an element of a list of the graph is replaced")
					}
				case *ssa.MapUpdate:
					if f.Vals[i.Map] {
						bad(fn, i.Pos(), "an entry of the graph is set")
					}
				case ssa.CallInstruction:
					cc := i.Common()
					if bi, ok := cc.Value.(*ssa.Builtin); ok {
						switch bi.Name() {
						case "delete", "copy", "clear":
							if f.Vals[cc.Args[0]] {
								bad(fn, instrPos(i), bi.Name()+" is applied to a part of the graph")
							}
						case "append":
							if s, ok := cc.Args[0].(*ssa.Slice); ok && s.High != nil && s.Max == nil && f.Vals[s] {
								bad(fn, instrPos(i), "elements are appended in the middle of a list of the graph")
							}
						}
						continue
					}
					if len(p.Callees(i)) > 0 || !mutatingExtern(calleeName(cc)) {
						continue
					}
					for _, a := range cc.Args {
						if mi, ok := a.(*ssa.MakeInterface); ok {
							a = mi.X
						}
						if ct, ok := a.(*ssa.ChangeType); ok {
							a = ct.X
						}
						if f.Vals[a] {
							bad(fn, instrPos(i), calleeName(cc)+" is applied to a list of the graph")
						}
					}
				}
			}
		}
	}
	c.Min("reads of the graph", 1)
}
