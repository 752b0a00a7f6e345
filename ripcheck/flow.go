package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Flow is a flow-insensitive, interprocedural, field-based forward propagation of values.
type Flow struct {
	p          *Prog
	Containers bool                                         // storing into a slice, map or channel marks the container
	Content    bool                                         // reading from a marked container or struct marks the result
	Pass       func(call ssa.CallInstruction, arg int) bool // marked argument of a call outside the scope marks its result
	Stop       func(v ssa.Value) bool
	Vals       map[ssa.Value]bool
	From       map[ssa.Value]ssa.Value
	Rets       map[*ssa.Function]map[int]bool
	fields     map[string]bool
	globals    map[*ssa.Global]bool
	work       []ssa.Value
}

func (p *Prog) NewFlow() *Flow {
	return &Flow{p: p, Vals: map[ssa.Value]bool{}, From: map[ssa.Value]ssa.Value{}, Rets: map[*ssa.Function]map[int]bool{}, fields: map[string]bool{}, globals: map[*ssa.Global]bool{}}
}

type progIndex struct {
	fieldAddrs map[string][]ssa.Value // FieldAddr and Field instructions per Type.field
	globLoads  map[*ssa.Global][]ssa.Value
	bindings   map[*ssa.FreeVar][]ssa.Value
	freeOf     map[ssa.Value][]*ssa.FreeVar
	callers    map[*ssa.Function][]ssa.CallInstruction
	recvs      map[string][]ssa.Value    // receives per channel element type
	ptrLoads   map[ssa.Value][]ssa.Value // loads through a pointer variable, per variable pointed to
}

var indexes = map[*Prog]*progIndex{}

func (p *Prog) Index() *progIndex {
	if x := indexes[p]; x != nil {
		return x
	}
	x := &progIndex{fieldAddrs: map[string][]ssa.Value{}, globLoads: map[*ssa.Global][]ssa.Value{}, bindings: map[*ssa.FreeVar][]ssa.Value{},
		freeOf: map[ssa.Value][]*ssa.FreeVar{}, callers: map[*ssa.Function][]ssa.CallInstruction{}, recvs: map[string][]ssa.Value{}, ptrLoads: map[ssa.Value][]ssa.Value{}}
	indexes[p] = x
	for _, fn := range p.Fns {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				switch i := ins.(type) {
				case *ssa.FieldAddr:
					k := fieldKeyOf(i.X.Type(), i.Field)
					x.fieldAddrs[k] = append(x.fieldAddrs[k], i)
				case *ssa.Field:
					k := fieldKeyOf(i.X.Type(), i.Field)
					x.fieldAddrs[k] = append(x.fieldAddrs[k], i)
				case *ssa.UnOp:
					if g, ok := i.X.(*ssa.Global); ok && i.Op == token.MUL {
						x.globLoads[g] = append(x.globLoads[g], i)
					}
					if i.Op == token.ARROW {
						if c, ok := types.Unalias(i.X.Type()).Underlying().(*types.Chan); ok {
							k := types.TypeString(c.Elem(), nil)
							x.recvs[k] = append(x.recvs[k], i)
						}
					}
				case *ssa.MakeClosure:
					f := i.Fn.(*ssa.Function)
					for n, bv := range i.Bindings {
						x.bindings[f.FreeVars[n]] = append(x.bindings[f.FreeVars[n]], bv)
						x.freeOf[bv] = append(x.freeOf[bv], f.FreeVars[n])
					}
				}
				if ci, ok := ins.(ssa.CallInstruction); ok {
					for _, f := range p.Callees(ci) {
						x.callers[f] = append(x.callers[f], ci)
					}
				}
			}
		}
	}
	for _, fn := range p.Fns {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if u, ok := ins.(*ssa.UnOp); ok && u.Op == token.MUL {
					switch u.X.(type) {
					case *ssa.UnOp, *ssa.Parameter, *ssa.Phi:
						for _, r := range p.ptrRoots(u.X, x) {
							x.ptrLoads[r] = append(x.ptrLoads[r], u)
						}
					}
				}
			}
		}
	}
	return x
}

// ptrRoots are the local variables a pointer held in a variable, parameter or phi may point to.
func (p *Prog) ptrRoots(v ssa.Value, idx *progIndex) []ssa.Value {
	var out []ssa.Value
	seen := map[ssa.Value]bool{}
	var back func(v ssa.Value)
	back = func(v ssa.Value) {
		if seen[v] || len(seen) > 200 {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Alloc:
			out = append(out, x)
		case *ssa.FreeVar:
			for _, b := range p.bindingsOf(x) {
				back(b)
			}
		case *ssa.Phi:
			for _, e := range x.Edges {
				back(e)
			}
		case *ssa.ChangeType:
			back(x.X)
		case *ssa.Parameter:
			for i, prm := range x.Parent().Params {
				if prm == x {
					for _, ci := range idx.callers[x.Parent()] {
						if a := ci.Common().Args; i < len(a) && !ci.Common().IsInvoke() {
							back(a[i])
						}
					}
				}
			}
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return
			}
			switch x.X.(type) {
			case *ssa.Alloc, *ssa.FreeVar:
				for _, c := range p.sameCell(x.X) {
					if c.Referrers() == nil {
						continue
					}
					for _, r := range *c.Referrers() {
						if st, ok := r.(*ssa.Store); ok && st.Addr == c {
							back(st.Val)
						}
					}
				}
			}
		}
	}
	back(v)
	return out
}

// Callees are the in-scope functions a call may run: static callee, closures stored in the called variable,
// and for interface calls every in-scope method of that name with the same signature.
func (p *Prog) Callees(ci ssa.CallInstruction) []*ssa.Function {
	c := ci.Common()
	if c.IsInvoke() {
		var out []*ssa.Function
		for _, f := range p.Fns {
			if f.Name() == c.Method.Name() && f.Signature.Recv() != nil && f.Parent() == nil {
				if it, ok := types.Unalias(c.Value.Type()).Underlying().(*types.Interface); ok && types.Implements(f.Signature.Recv().Type(), it) {
					out = append(out, f)
				}
			}
		}
		return out
	}
	if f := c.StaticCallee(); f != nil {
		if f.Blocks != nil && p.FnInScope(f) {
			return []*ssa.Function{f}
		}
		return nil
	}
	var out []*ssa.Function
	seen := map[ssa.Value]bool{}
	var back func(v ssa.Value)
	cellStores := func(a ssa.Value) {
		roots := []ssa.Value{a}
		if fv, ok := a.(*ssa.FreeVar); ok {
			roots = append(roots, p.bindingsOf(fv)...)
		}
		for _, r := range roots {
			for _, u := range p.sameCell(r) {
				if u.Referrers() == nil {
					continue
				}
				for _, ref := range *u.Referrers() {
					if st, ok := ref.(*ssa.Store); ok && st.Addr == u {
						back(st.Val)
					}
				}
			}
		}
	}
	back = func(v ssa.Value) {
		if seen[v] {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Function:
			if x.Blocks != nil && p.FnInScope(x) {
				out = append(out, x)
			}
		case *ssa.MakeClosure:
			out = append(out, x.Fn.(*ssa.Function))
		case *ssa.Phi:
			for _, e := range x.Edges {
				back(e)
			}
		case *ssa.ChangeType:
			back(x.X)
		case *ssa.UnOp:
			if x.Op == token.MUL {
				switch x.X.(type) {
				case *ssa.Alloc, *ssa.FreeVar:
					cellStores(x.X)
				}
			}
		case *ssa.FreeVar:
			for _, b := range p.bindingsOf(x) {
				back(b)
			}
		case *ssa.Parameter:
			fn := x.Parent()
			for i, prm := range fn.Params {
				if prm != x {
					continue
				}
				for _, cs := range p.staticCallers()[fn] {
					if a := cs.Common().Args; i < len(a) {
						back(a[i])
					}
				}
			}
		}
	}
	back(c.Value)
	return out
}

var staticCallers = map[*Prog]map[*ssa.Function][]ssa.CallInstruction{}

// staticCallers: the calls that name each function.
func (p *Prog) staticCallers() map[*ssa.Function][]ssa.CallInstruction {
	m := staticCallers[p]
	if m != nil {
		return m
	}
	m = map[*ssa.Function][]ssa.CallInstruction{}
	staticCallers[p] = m
	for _, fn := range p.Fns {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if ci, ok := ins.(ssa.CallInstruction); ok {
					if f := ci.Common().StaticCallee(); f != nil {
						m[f] = append(m[f], ci)
					}
				}
			}
		}
	}
	return m
}

func (p *Prog) bindingsOf(fv *ssa.FreeVar) []ssa.Value {
	var out []ssa.Value
	fn := fv.Parent()
	idx := -1
	for i, f := range fn.FreeVars {
		if f == fv {
			idx = i
		}
	}
	par := fn.Parent()
	if par == nil || idx < 0 {
		return nil
	}
	for _, b := range par.Blocks {
		for _, ins := range b.Instrs {
			if mc, ok := ins.(*ssa.MakeClosure); ok && mc.Fn == ssa.Value(fn) {
				out = append(out, mc.Bindings[idx])
			}
		}
	}
	return out
}

// sameCell lists the values that denote the same captured variable: its alloc and all free variables bound to it.
func (p *Prog) sameCell(v ssa.Value) []ssa.Value {
	seen := map[ssa.Value]bool{}
	var out []ssa.Value
	var rec func(v ssa.Value)
	rec = func(v ssa.Value) {
		if seen[v] {
			return
		}
		seen[v] = true
		out = append(out, v)
		if fv, ok := v.(*ssa.FreeVar); ok {
			for _, b := range p.bindingsOf(fv) {
				rec(b)
			}
		}
		if v.Referrers() == nil {
			return
		}
		for _, ref := range *v.Referrers() {
			if mc, ok := ref.(*ssa.MakeClosure); ok {
				for i, b := range mc.Bindings {
					if b == v {
						rec(mc.Fn.(*ssa.Function).FreeVars[i])
					}
				}
			}
		}
	}
	rec(v)
	return out
}

func (f *Flow) Add(v, from ssa.Value) {
	if v == nil || f.Vals[v] {
		return
	}
	if _, ok := v.(*ssa.Const); ok {
		return
	}
	if f.Stop != nil && f.Stop(v) {
		return
	}
	f.Vals[v] = true
	f.From[v] = from
	f.work = append(f.work, v)
}

// markCell marks what is read back from the place addr denotes.
func (f *Flow) markCell(addr, from ssa.Value) {
	idx := f.p.Index()
	switch a := addr.(type) {
	case *ssa.Alloc, *ssa.FreeVar:
		for _, c := range f.p.sameCell(a) {
			if c.Referrers() == nil {
				continue
			}
			for _, r := range *c.Referrers() {
				if u, ok := r.(*ssa.UnOp); ok && u.Op == token.MUL && u.X == c {
					f.Add(u, from)
				}
			}
		}
		for _, c := range f.p.sameCell(a) {
			for _, l := range idx.ptrLoads[c] {
				f.Add(l, from)
			}
		}
		if f.Content {
			f.Add(a, from)
		}
	case *ssa.FieldAddr:
		k := fieldKeyOf(a.X.Type(), a.Field)
		if f.fields[k] {
			return
		}
		f.fields[k] = true
		for _, fa := range idx.fieldAddrs[k] {
			if _, ok := fa.(*ssa.Field); ok {
				f.Add(fa, from)
				continue
			}
			for _, r := range *fa.Referrers() {
				if u, ok := r.(*ssa.UnOp); ok && u.Op == token.MUL {
					f.Add(u, from)
				}
			}
		}
	case *ssa.Global:
		if f.globals[a] {
			return
		}
		f.globals[a] = true
		for _, l := range idx.globLoads[a] {
			f.Add(l, from)
		}
	case *ssa.IndexAddr:
		if f.Containers {
			f.markContainer(a.X, from)
		}
	case *ssa.Parameter:
		f.Add(a, from)
		for i, pr := range a.Parent().Params {
			if pr == a {
				for _, ci := range idx.callers[a.Parent()] {
					if i < len(ci.Common().Args) {
						f.markCell(ci.Common().Args[i], from)
					}
				}
			}
		}
	default:
		f.Add(addr, from)
		for _, r := range f.p.ptrRoots(addr, idx) {
			if r != addr {
				f.markCell(r, from)
			}
		}
	}
}

// markContainer marks a slice, map or array value and the variable it came from.
func (f *Flow) markContainer(v, from ssa.Value) {
	f.Add(v, from)
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op == token.MUL {
			f.markCell(x.X, from)
		}
	case *ssa.Slice:
		f.markContainer(x.X, from)
	case *ssa.Alloc:
		f.Add(x, from)
	}
}

func (f *Flow) Run() {
	idx := f.p.Index()
	for len(f.work) > 0 {
		v := f.work[len(f.work)-1]
		f.work = f.work[:len(f.work)-1]
		if fn := v.Parent(); fn != nil && !f.p.FnInScope(fn) {
			continue
		}
		if v.Referrers() == nil {
			continue
		}
		for _, r := range *v.Referrers() {
			switch i := r.(type) {
			case *ssa.Phi, *ssa.ChangeType, *ssa.ChangeInterface, *ssa.MakeInterface, *ssa.Convert, *ssa.Slice, *ssa.TypeAssert, *ssa.MultiConvert:
				f.Add(i.(ssa.Value), v)
			case *ssa.Extract:
				if f.Rets == nil {
					continue
				}
				if _, ok := v.(*ssa.Call); ok && f.p.callsScope(v.(*ssa.Call)) {
					continue // handled per result index
				}
				f.Add(i, v)
			case *ssa.UnOp:
				if f.Content && i.Op == token.MUL {
					f.Add(i, v)
				}
			case *ssa.Field, *ssa.FieldAddr, *ssa.Index, *ssa.IndexAddr, *ssa.Lookup, *ssa.Range, *ssa.Next:
				if f.Content {
					if ix, ok := i.(*ssa.IndexAddr); ok && ix.X != v {
						continue
					}
					f.Add(i.(ssa.Value), v)
				}
			case *ssa.Store:
				if i.Val == v {
					f.markCell(i.Addr, v)
				}
			case *ssa.MapUpdate:
				if f.Containers && (i.Value == v || i.Key == v) {
					f.markContainer(i.Map, v)
				}
			case *ssa.Send:
				if f.Containers && i.X == v {
					if c, ok := types.Unalias(i.Chan.Type()).Underlying().(*types.Chan); ok {
						for _, rv := range idx.recvs[types.TypeString(c.Elem(), nil)] {
							if u, ok := rv.(*ssa.UnOp); ok && u.CommaOk {
								for _, ex := range *u.Referrers() {
									if e, ok := ex.(*ssa.Extract); ok && e.Index == 0 {
										f.Add(e, v)
									}
								}
								continue
							}
							f.Add(rv, v)
						}
					}
				}
			case *ssa.MakeClosure:
				for n, b := range i.Bindings {
					if b == v {
						fv := i.Fn.(*ssa.Function).FreeVars[n]
						if _, isCell := v.(*ssa.Alloc); isCell && !f.Content {
							continue
						}
						f.Add(fv, v)
					}
				}
			case *ssa.Return:
				fn := i.Parent()
				if f.Rets[fn] == nil {
					f.Rets[fn] = map[int]bool{}
				}
				for n, rv := range i.Results {
					if rv != v {
						continue
					}
					f.Rets[fn][n] = true
					for _, ci := range idx.callers[fn] {
						cv, ok := ci.(*ssa.Call)
						if !ok {
							continue
						}
						if len(i.Results) == 1 {
							f.Add(cv, v)
							continue
						}
						for _, ex := range *cv.Referrers() {
							if e, ok := ex.(*ssa.Extract); ok && e.Index == n {
								f.Add(e, v)
							}
						}
					}
				}
			case ssa.CallInstruction:
				c := i.Common()
				if b, ok := c.Value.(*ssa.Builtin); ok {
					cv, _ := i.(*ssa.Call)
					switch b.Name() {
					case "append":
						if c.Args[0] == v || f.Containers && sharesElems(c.Args[0].Type()) {
							if cv != nil {
								f.Add(cv, v)
							}
						}
					case "copy":
						if f.Containers && c.Args[1] == v && sharesElems(c.Args[0].Type()) {
							f.markContainer(c.Args[0], v)
						}
					}
					continue
				}
				cs := f.p.Callees(i)
				for _, callee := range cs {
					off := 0
					if c.IsInvoke() {
						off = 1
						if c.Value == v {
							f.Add(callee.Params[0], v)
						}
					}
					for n, a := range c.Args {
						if a == v && n+off < len(callee.Params) {
							f.Add(callee.Params[n+off], v)
						}
					}
				}
				if len(cs) == 0 && f.Pass != nil {
					if cv, ok := i.(*ssa.Call); ok {
						for n, a := range c.Args {
							if a == v && f.Pass(i, n) {
								f.Add(cv, v)
							}
						}
						if c.IsInvoke() && c.Value == v && f.Pass(i, -1) {
							f.Add(cv, v)
						}
					}
				}
			}
		}
	}
}

func (p *Prog) callsScope(c *ssa.Call) bool { return len(p.Callees(c)) > 0 }

// sharesElems: copying elements of this slice type copies references.
func sharesElems(t types.Type) bool {
	s, ok := types.Unalias(t).Underlying().(*types.Slice)
	if !ok {
		return true
	}
	_, basic := types.Unalias(s.Elem()).Underlying().(*types.Basic)
	return !basic
}
