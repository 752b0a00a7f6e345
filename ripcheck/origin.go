package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Leaf is where a value may come from: kind, the value, and the access path left to resolve.
type Leaf struct {
	kind string // alloc mkslice mkmap append const conv | heap extern param global recv func
	v    ssa.Value
	path string
}

// fresh: an object created for this use, not one read from shared memory.
func (l Leaf) fresh() bool {
	if l.path != "" {
		return false
	}
	switch l.kind {
	case "alloc", "mkslice", "mkmap", "append", "const", "conv":
		return true
	}
	return false
}

type originQuery struct {
	p    *Prog
	seen map[string]bool
	out  []Leaf
	open func(t types.Type) bool // types whose fields may be followed through pointers
	n    int
}

// Origins follows a value backwards to the objects it may denote. Access paths are built of
// "*" (what a pointer points to), ".f" (field) and "[" (element).
func (p *Prog) Origins(v ssa.Value, path string, open func(t types.Type) bool) []Leaf {
	q := &originQuery{p: p, seen: map[string]bool{}, open: open}
	q.rec(v, path)
	return q.out
}

func (q *originQuery) leaf(kind string, v ssa.Value, path string) {
	q.out = append(q.out, Leaf{kind, v, path})
}

func cutField(path string) (f, rest string) {
	i := 1
	for i < len(path) && path[i] != '.' && path[i] != '*' && path[i] != '[' {
		i++
	}
	return path[1:i], path[i:]
}

func vkey(v ssa.Value) string {
	if in, ok := v.(ssa.Instruction); ok && in.Parent() != nil {
		return in.Parent().String() + "|" + v.Name()
	}
	if v.Parent() != nil {
		return v.Parent().String() + "|" + v.Name()
	}
	return v.Name()
}

func (q *originQuery) rec(v ssa.Value, path string) {
	q.n++
	if q.n > 20000 || len(path) > 60 {
		q.leaf("heap", v, path)
		return
	}
	k := vkey(v) + " " + path
	if _, isC := v.(*ssa.Const); !isC {
		if q.seen[k] {
			return
		}
		q.seen[k] = true
	}
	switch x := v.(type) {
	case *ssa.Const:
		q.leaf("const", v, "")
	case *ssa.Alloc:
		if path == "" {
			q.leaf("alloc", v, "")
			return
		}
		pt := x.Type().Underlying().(*types.Pointer).Elem()
		if q.escapes(x) && !(q.open != nil && q.open(pt)) {
			q.leaf("heap", v, path)
			return
		}
		if path[0] == '*' {
			n := len(q.out)
			for _, c := range q.aliases(x) {
				q.contents(c, path[1:])
			}
			if len(q.out) == n {
				q.leaf("const", v, "")
			}
			return
		}
		q.leaf("heap", v, path)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			q.rec(x.X, "*"+path)
		} else if x.Op == token.ARROW {
			q.leaf("recv", v, path)
		} else {
			q.leaf("const", v, "")
		}
	case *ssa.FieldAddr:
		st := structOf(x.X.Type())
		if path != "" && path[0] == '*' {
			q.rec(x.X, "*."+st.Field(x.Field).Name()+path[1:])
		} else {
			q.rec(x.X, "")
		}
	case *ssa.Field:
		q.rec(x.X, "."+structOf(x.X.Type()).Field(x.Field).Name()+path)
	case *ssa.IndexAddr:
		_, isPtr := x.X.Type().Underlying().(*types.Pointer)
		switch {
		case path != "" && path[0] == '*' && isPtr:
			q.rec(x.X, "*["+path[1:])
		case path != "" && path[0] == '*':
			q.rec(x.X, "["+path[1:])
		default:
			q.rec(x.X, "")
		}
	case *ssa.Index:
		q.rec(x.X, "["+path)
	case *ssa.Lookup:
		q.rec(x.X, "["+path)
	case *ssa.Extract:
		switch t := x.Tuple.(type) {
		case *ssa.Call:
			q.call(t, x.Index, path)
		case *ssa.Lookup:
			q.rec(t.X, "["+path)
		case *ssa.TypeAssert:
			q.rec(t.X, path)
		case *ssa.Next:
			if r, ok := t.Iter.(*ssa.Range); ok {
				q.rec(r.X, "["+path)
			} else {
				q.leaf("heap", v, path)
			}
		default:
			q.leaf("recv", v, path)
		}
	case *ssa.Call:
		q.call(x, 0, path)
	case *ssa.MakeMap:
		if path == "" {
			q.leaf("mkmap", v, "")
		} else {
			q.leaf("heap", v, path)
		}
	case *ssa.MakeSlice:
		if path == "" {
			q.leaf("mkslice", v, "")
			return
		}
		n := len(q.out)
		if path[0] == '[' {
			for _, c := range q.aliases(x) {
				q.elems(c, path[1:])
			}
		}
		if len(q.out) == n {
			q.leaf("const", v, "")
		}
	case *ssa.Slice:
		if _, isPtr := x.X.Type().Underlying().(*types.Pointer); isPtr {
			if path != "" && path[0] == '[' {
				q.rec(x.X, "*"+path)
			} else {
				q.rec(x.X, "")
			}
			return
		}
		q.rec(x.X, path)
	case *ssa.Phi:
		for _, e := range x.Edges {
			q.rec(e, path)
		}
	case *ssa.Convert:
		from, to := x.X.Type().Underlying(), x.Type().Underlying()
		_, fb := from.(*types.Basic)
		_, tb := to.(*types.Basic)
		if fb != tb {
			q.leaf("conv", v, "")
		} else {
			q.rec(x.X, path)
		}
	case *ssa.ChangeType:
		q.rec(x.X, path)
	case *ssa.ChangeInterface:
		q.rec(x.X, path)
	case *ssa.MakeInterface:
		q.rec(x.X, path)
	case *ssa.TypeAssert:
		q.rec(x.X, path)
	case *ssa.Parameter:
		cs := q.p.Index().callers[x.Parent()]
		idx := -1
		for i, pr := range x.Parent().Params {
			if pr == x {
				idx = i
			}
		}
		if len(cs) == 0 {
			q.leaf("param", v, path)
			return
		}
		for _, ci := range cs {
			a := ci.Common().Args
			i := idx
			if ci.Common().IsInvoke() {
				i--
				if i < 0 {
					q.rec(ci.Common().Value, path)
					continue
				}
			}
			if i < len(a) {
				q.rec(a[i], path)
			}
		}
	case *ssa.FreeVar:
		bs := q.p.bindingsOf(x)
		if len(bs) == 0 {
			q.leaf("param", v, path)
		}
		for _, b := range bs {
			q.rec(b, path)
		}
	case *ssa.Global:
		q.leaf("global", v, path)
	case *ssa.Function, *ssa.MakeClosure:
		q.leaf("func", v, path)
	case *ssa.BinOp:
		q.leaf("const", v, "")
	default:
		q.leaf("heap", v, path)
	}
}

func (q *originQuery) call(c *ssa.Call, res int, path string) {
	if b, ok := c.Call.Value.(*ssa.Builtin); ok {
		if b.Name() == "append" {
			if path == "" {
				q.rec(c.Call.Args[0], "")
				q.leaf("append", c, "")
				return
			}
			for _, a := range c.Call.Args {
				q.rec(a, path)
			}
			return
		}
		q.leaf("const", c, "")
		return
	}
	cs := q.p.Callees(c)
	if len(cs) == 0 {
		q.leaf("extern", c, path)
		return
	}
	for _, f := range cs {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if r, ok := ins.(*ssa.Return); ok && res < len(r.Results) {
					q.rec(r.Results[res], path)
				}
			}
		}
	}
}

// aliases of a locally created object: the value itself and everywhere the reference flows by assignment and calls.
func (q *originQuery) aliases(v ssa.Value) []ssa.Value {
	return q.p.aliasesOf(v)
}

var aliasMemo = map[ssa.Value][]ssa.Value{}

func (p *Prog) aliasesOf(v ssa.Value) []ssa.Value {
	if a, ok := aliasMemo[v]; ok {
		return a
	}
	f := p.NewFlow()
	f.Add(v, nil)
	f.Run()
	var out []ssa.Value
	for a := range f.Vals {
		out = append(out, a)
	}
	if al, ok := v.(*ssa.Alloc); ok {
		have := map[ssa.Value]bool{}
		for _, a := range out {
			have[a] = true
		}
		for _, c := range p.sameCell(al) {
			if !have[c] {
				out = append(out, c)
			}
		}
	}
	aliasMemo[v] = out
	return out
}

// contents: everything stored at the place addr denotes, below path.
func (q *originQuery) contents(addr ssa.Value, path string) {
	if addr.Referrers() == nil {
		return
	}
	for _, r := range *addr.Referrers() {
		switch i := r.(type) {
		case *ssa.Store:
			if i.Addr == addr {
				q.rec(i.Val, path)
			}
		case *ssa.FieldAddr:
			if path != "" && path[0] == '.' {
				f, rest := cutField(path)
				if structOf(i.X.Type()).Field(i.Field).Name() == f {
					q.contents(i, rest)
				}
			}
		case *ssa.IndexAddr:
			if i.X == addr && path != "" && path[0] == '[' {
				q.contents(i, path[1:])
			}
		case *ssa.Slice:
			if path != "" && path[0] == '[' {
				q.elems(i, path[1:])
			}
		case ssa.CallInstruction:
			if len(q.p.Callees(i)) == 0 {
				if _, isB := i.Common().Value.(*ssa.Builtin); !isB {
					for _, a := range i.Common().Args {
						if a == addr {
							if cv, ok := i.(*ssa.Call); ok {
								q.leaf("extern", cv, path)
							}
						}
					}
				}
			}
		}
	}
}

func (q *originQuery) elems(sl ssa.Value, path string) {
	if sl.Referrers() == nil {
		return
	}
	for _, r := range *sl.Referrers() {
		switch i := r.(type) {
		case *ssa.IndexAddr:
			if i.X == sl {
				q.contents(i, path)
			}
		case *ssa.Slice:
			q.elems(i, path)
		case *ssa.Call:
			if b, ok := i.Call.Value.(*ssa.Builtin); ok && b.Name() == "copy" && i.Call.Args[0] == sl {
				q.rec(i.Call.Args[1], "["+path)
			}
		}
	}
}

// escapes: the address of the variable is stored, returned or put into an interface.
func (q *originQuery) escapes(a *ssa.Alloc) bool {
	for _, c := range q.p.sameCell(a) {
		if c.Referrers() == nil {
			continue
		}
		for _, r := range *c.Referrers() {
			switch i := r.(type) {
			case *ssa.Store:
				if i.Val == c {
					return true
				}
			case *ssa.Return, *ssa.MakeInterface, *ssa.Send, *ssa.MapUpdate, *ssa.Phi, *ssa.ChangeType:
				return true
			case ssa.CallInstruction:
				return true
			}
		}
	}
	return false
}

// ---- reachability between instructions of one function ----

// reaches: control can flow from just after a to b without passing through cut.
func reaches(a, b ssa.Instruction, cut ssa.Instruction) bool {
	type pos struct {
		b *ssa.BasicBlock
		i int
	}
	idx := func(in ssa.Instruction) pos {
		for i, x := range in.Block().Instrs {
			if x == in {
				return pos{in.Block(), i}
			}
		}
		return pos{in.Block(), 0}
	}
	start := idx(a)
	seen := map[*ssa.BasicBlock]bool{}
	var run func(bl *ssa.BasicBlock, from int) bool
	run = func(bl *ssa.BasicBlock, from int) bool {
		for i := from; i < len(bl.Instrs); i++ {
			if bl.Instrs[i] == b {
				return true
			}
			if cut != nil && bl.Instrs[i] == cut {
				return false
			}
		}
		for _, s := range bl.Succs {
			if !seen[s] {
				seen[s] = true
				if run(s, 0) {
					return true
				}
			}
		}
		return false
	}
	return run(start.b, start.i+1)
}
