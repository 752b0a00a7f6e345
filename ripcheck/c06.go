package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	tBlame = modPath + "/ripsrc/history3/incblame.Blame"
	tLine  = modPath + "/ripsrc/history3/incblame.Line"
)

func frozenType(t types.Type) bool {
	n, _ := types.Unalias(t).(*types.Named)
	return n != nil && n.Obj().Pkg() != nil && (n.Obj().Pkg().Path()+"."+n.Obj().Name() == tBlame || n.Obj().Pkg().Path()+"."+n.Obj().Name() == tLine)
}

// isLinesType: a slice of *incblame.Line.
func isLinesType(t types.Type) bool {
	s, ok := types.Unalias(t).Underlying().(*types.Slice)
	if !ok {
		return false
	}
	p, ok := types.Unalias(s.Elem()).Underlying().(*types.Pointer)
	return ok && isNamed(p, tLine)
}

// frozenRoot: the part of a store address that decides whose object is written.
// It returns the pointer, slice or map value that has to be fresh.
func frozenRoot(addr ssa.Value) (root ssa.Value, what string) {
	for {
		switch a := addr.(type) {
		case *ssa.FieldAddr:
			if frozenType(deref(a.X.Type())) {
				return a.X, "field " + structOf(a.X.Type()).Field(a.Field).Name() + " of a " + namedOf(a.X.Type()).Obj().Name()
			}
			addr = a.X
		case *ssa.IndexAddr:
			if isLinesType(a.X.Type()) {
				return a.X, "line list element"
			}
			if _, ok := a.X.Type().Underlying().(*types.Slice); ok {
				if isByteSlice(a.X.Type()) {
					return a.X, "byte"
				}
				if s := a.X.Type().Underlying().(*types.Slice); frozenType(s.Elem()) {
					return nil, ""
				}
				return nil, ""
			}
			addr = a.X
		default:
			if p, ok := addr.Type().Underlying().(*types.Pointer); ok && frozenType(p.Elem()) {
				return addr, "whole " + namedOf(p.Elem()).Obj().Name()
			}
			if p, ok := addr.Type().Underlying().(*types.Pointer); ok && isLinesType(p.Elem()) {
				return nil, ""
			}
			return nil, ""
		}
	}
}

func deref(t types.Type) types.Type {
	if p, ok := types.Unalias(t).Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

type mutation struct {
	ins  ssa.Instruction
	root ssa.Value
	what string
}

func runC06(c *Ctx) {
	p := c.p
	var muts []mutation
	add := func(ins ssa.Instruction, root ssa.Value, what string) {
		muts = append(muts, mutation{ins, root, what})
	}
	rowMaps, fileMaps := map[ssa.Value]bool{}, map[ssa.Value]bool{}
	for _, fn := range p.Fns {
		c.Saw(fn)
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				switch i := ins.(type) {
				case *ssa.Store:
					if r, w := frozenRoot(i.Addr); r != nil {
						add(i, r, w)
					}
				case *ssa.MapUpdate:
					if isRepoMap(i.Map.Type()) {
						c.Count("recorded rows", 1)
						for _, l := range p.Origins(i.Value, "", frozenType) {
							if l.kind != "mkmap" {
								c.Violate("row "+fnName(fn), i.Pos(), "the map stored as a commit's state is not created for it (%s): two commits would share one file list", leafStr(p, l))
								continue
							}
							rowMaps[l.v] = true
						}
					}
				case ssa.CallInstruction:
					cc := i.Common()
					if bi, ok := cc.Value.(*ssa.Builtin); ok {
						switch bi.Name() {
						case "append", "copy":
							if isLinesType(cc.Args[0].Type()) || isByteSlice(cc.Args[0].Type()) {
								add(i, cc.Args[0], "target of "+bi.Name())
							}
						}
						continue
					}
					if len(p.Callees(i)) > 0 {
						continue
					}
					name := calleeName(cc)
					if !mutatingExtern(name) {
						continue
					}
					for _, a := range cc.Args {
						v := a
						if mi, ok := a.(*ssa.MakeInterface); ok {
							v = mi.X
						}
						if isLinesType(v.Type()) || isByteSlice(v.Type()) {
							add(i, v, "argument of "+name)
						}
					}
				}
				if st, ok := ins.(*ssa.Store); ok && isBlameMap(st.Val.Type()) && !isRepoMap(st.Val.Type()) {
					if fa, ok := st.Addr.(*ssa.FieldAddr); ok && fieldIs(fa, "Files") {
						for _, l := range p.Origins(st.Val, "", frozenType) {
							if l.kind == "const" {
								continue
							}
							if l.kind != "mkmap" {
								c.Violate("result files "+fnName(fn), st.Pos(), "the file map of a result is not created for it (%s): the caller would see later changes", leafStr(p, l))
								continue
							}
							fileMaps[l.v] = true
						}
						c.Count("result file maps", 1)
					}
				}
			}
		}
	}
	for v := range rowMaps {
		if fileMaps[v] {
			c.Violate("shared map "+fnName(v.Parent()), v.Pos(), "the same map is the commit's recorded state and the result handed out")
		}
	}
	for _, m := range muts {
		fn := m.ins.Parent()
		isBytes := isByteSlice(m.root.Type())
		c.Count("writes", 1)
		for _, l := range p.Origins(m.root, "", frozenType) {
			if isBytes {
				// only memory of recorded lines matters
				if strings.Contains(l.path, ".Line") && lineBytes(p, l) {
					c.Violate("bytes "+fnName(fn)+" "+m.what, instrPos(m.ins), "%s writes into the text of a recorded line (%s)", m.what, leafStr(p, l))
				}
				continue
			}
			if !l.fresh() {
				c.Violate("write "+fnName(fn)+" "+m.what, instrPos(m.ins), "%s is written in an object that was not created here (%s): blame that is already recorded changes", m.what, leafStr(p, l))
				continue
			}
			if a, ok := l.v.(*ssa.Alloc); ok {
				c.published(m, a)
			}
		}
	}
	c.rowWrites()
	c.Min("writes", 12)
	c.Min("recorded rows", 2)
	c.Min("result file maps", 2)
}

func lineBytes(p *Prog, l Leaf) bool {
	// the path ends in the field Line of an incblame.Line
	return strings.HasSuffix(l.path, ".Line") || strings.Contains(l.path, ".Line[")
}

func fieldIs(fa *ssa.FieldAddr, name string) bool {
	return structOf(fa.X.Type()).Field(fa.Field).Name() == name
}

func leafStr(p *Prog, l Leaf) string {
	s := l.kind
	if l.v != nil {
		s += " at " + p.Pos(l.v.Pos())
	}
	if l.path != "" {
		s += " path " + l.path
	}
	return s
}

func mutatingExtern(name string) bool {
	for _, pre := range []string{"sort.", "slices.", "math/rand.", "(*math/rand.Rand).", "golang.org/x/exp/slices."} {
		if strings.HasPrefix(name, pre) {
			switch strings.TrimPrefix(name, pre) {
			case "Contains", "Index", "IndexFunc", "Equal", "Clone", "Compare", "BinarySearch", "Search", "SliceIsSorted", "IsSorted":
				return false
			}
			return true
		}
	}
	switch name {
	case "io.ReadFull", "io.ReadAtLeast", "encoding/hex.Encode", "encoding/hex.Decode", "strconv.AppendInt":
		return true
	}
	return strings.HasSuffix(name, ").Read")
}

// published: no write to a fresh object once a reference to it was recorded or sent.
func (c *Ctx) published(m mutation, a *ssa.Alloc) {
	fn := a.Parent()
	var pubs []ssa.Instruction
	for _, al := range c.p.aliasesOf(a) {
		if al.Referrers() == nil || al.Parent() != fn {
			continue
		}
		for _, r := range *al.Referrers() {
			switch i := r.(type) {
			case *ssa.MapUpdate:
				if i.Value == al {
					pubs = append(pubs, i)
				}
			case *ssa.Send:
				if i.X == al {
					pubs = append(pubs, i)
				}
			}
		}
	}
	if len(pubs) == 0 {
		return
	}
	var at []ssa.Instruction
	if m.ins.Parent() == fn {
		at = append(at, m.ins)
	} else {
		// calls in fn that hand the object to the function that writes it
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				ci, ok := ins.(ssa.CallInstruction)
				if !ok {
					continue
				}
				passes := false
				for _, arg := range ci.Common().Args {
					for _, al := range c.p.aliasesOf(a) {
						if arg == al {
							passes = true
						}
					}
				}
				if !passes {
					continue
				}
				for _, f := range c.p.Callees(ci) {
					if f == m.ins.Parent() || c.p.transitively(f, func(g *ssa.Function, _ ssa.Instruction) bool { return g == m.ins.Parent() }) {
						at = append(at, ci)
					}
				}
			}
		}
	}
	for _, pb := range pubs {
		for _, w := range at {
			if reaches(pb, w, a) {
				c.Violate("write after publication "+fnName(fn)+" "+m.what, instrPos(w), "%s is written after the object was recorded at %s", m.what, c.p.Pos(instrPos(pb)))
			}
		}
	}
}

// rowWrites: files are only ever stored into, or removed from, the row that the current step created.
func (c *Ctx) rowWrites() {
	p := c.p
	for _, fn := range p.Fns {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				var m ssa.Value
				switch i := ins.(type) {
				case *ssa.MapUpdate:
					m = i.Map
				case ssa.CallInstruction:
					if bi, ok := i.Common().Value.(*ssa.Builtin); ok && bi.Name() == "delete" {
						m = i.Common().Args[0]
					}
				}
				if m == nil || !isBlameMap(m.Type()) || isRepoMap(m.Type()) {
					continue
				}
				c.Count("file map writes", 1)
				for _, key := range p.rowKeys(m) {
					if key == nil {
						continue
					}
					if !p.keyCreatedHere(key, map[ssa.Value]bool{}) {
						c.Violate("row write "+fnName(fn), instrPos(ins), "a file is stored in or removed from the recorded state of a commit that this step did not create (%s)", p.Pos(key.Pos()))
					}
				}
			}
		}
	}
}

// rowKeys lists the commit keys of the repository rows a file map value may be; nil entries are fresh maps.
func (p *Prog) rowKeys(m ssa.Value) (out []ssa.Value) {
	seen := map[ssa.Value]bool{}
	var rec func(v ssa.Value)
	rec = func(v ssa.Value) {
		if seen[v] {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Lookup:
			if isRepoMap(x.X.Type()) {
				out = append(out, x.Index)
			}
		case *ssa.Extract:
			if l, ok := x.Tuple.(*ssa.Lookup); ok {
				rec(l)
			} else if cl, ok := x.Tuple.(*ssa.Call); ok {
				for _, f := range p.Callees(cl) {
					p.eachReturn(f, x.Index, rec)
				}
			} else if nx, ok := x.Tuple.(*ssa.Next); ok {
				if r, ok := nx.Iter.(*ssa.Range); ok && isRepoMap(r.X.Type()) {
					for _, rf := range *nx.Referrers() {
						if e, ok := rf.(*ssa.Extract); ok && e.Index == 1 {
							out = append(out, e)
							return
						}
					}
					out = append(out, nx)
				}
			}
		case *ssa.Call:
			for _, f := range p.Callees(x) {
				p.eachReturn(f, 0, rec)
			}
		case *ssa.Phi:
			for _, e := range x.Edges {
				rec(e)
			}
		case *ssa.Parameter:
			for _, ci := range p.Index().callers[x.Parent()] {
				for i, pr := range x.Parent().Params {
					if pr == x && i < len(ci.Common().Args) {
						rec(ci.Common().Args[i])
					}
				}
			}
		case *ssa.UnOp:
			for _, cell := range p.sameCell(x.X) {
				if cell.Referrers() == nil {
					continue
				}
				if _, ok := cell.(*ssa.FieldAddr); ok {
					continue
				}
				for _, r := range *cell.Referrers() {
					if st, ok := r.(*ssa.Store); ok && st.Addr == cell {
						rec(st.Val)
					}
				}
			}
		}
	}
	rec(m)
	return
}

func (p *Prog) eachReturn(f *ssa.Function, i int, fn func(v ssa.Value)) {
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			if r, ok := ins.(*ssa.Return); ok && i < len(r.Results) {
				fn(r.Results[i])
			}
		}
	}
}

// symOf names a value by what it is (parameter, field of parameter, result field) so that two reads of it compare equal.
func (p *Prog) symOf(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.UnOp:
		return p.symOf(x.X) + "^"
	case *ssa.FieldAddr:
		return p.symOf(x.X) + "." + structOf(x.X.Type()).Field(x.Field).Name()
	case *ssa.Field:
		return p.symOf(x.X) + "." + structOf(x.X.Type()).Field(x.Field).Name()
	case *ssa.Alloc:
		// a parameter kept in a local cell is that parameter
		var only ssa.Value
		n := 0
		for _, r := range *x.Referrers() {
			if st, ok := r.(*ssa.Store); ok && st.Addr == x {
				only = st.Val
				n++
			}
		}
		if n == 1 {
			if _, ok := only.(*ssa.Parameter); ok {
				return "&" + p.symOf(only)
			}
		}
	}
	return fmt.Sprintf("%s/%s", v.Parent(), v.Name())
}

// keyCreatedHere: the key is one for which the same function (or every caller, for a parameter) stores a new row.
func (p *Prog) keyCreatedHere(key ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[key] {
		return true
	}
	seen[key] = true
	fn := key.Parent()
	sym := p.symOf(key)
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			switch i := ins.(type) {
			case *ssa.MapUpdate:
				if isRepoMap(i.Map.Type()) && p.symOf(i.Key) == sym {
					return true
				}
			case ssa.CallInstruction:
				for _, f := range p.Callees(i) {
					for n, a := range i.Common().Args {
						if p.symOf(a) == sym && n < len(f.Params) && p.createsRow(f, f.Params[n]) {
							return true
						}
					}
				}
			}
		}
	}
	if pr, ok := key.(*ssa.Parameter); ok {
		cs := p.Index().callers[fn]
		if len(cs) == 0 {
			return false
		}
		for _, ci := range cs {
			for n, q := range fn.Params {
				if q == pr && n < len(ci.Common().Args) && !p.keyCreatedHere(ci.Common().Args[n], seen) {
					return false
				}
			}
		}
		return true
	}
	return false
}

func (p *Prog) createsRow(f *ssa.Function, key *ssa.Parameter) bool {
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			switch i := ins.(type) {
			case *ssa.MapUpdate:
				if isRepoMap(i.Map.Type()) && i.Key == ssa.Value(key) {
					return true
				}
			}
		}
	}
	return false
}

func init() {
	register("C06", "Effect analysis: every store through a Blame or Line pointer, into a line list, and every append/copy/sort whose target may be a recorded line list or line text must go to an object created by the current computation (interprocedural origins of the written object), and not after a reference to it was recorded or sent; the rows of the state and the file maps of results are separate new maps, and files are only stored in the row of the commit being processed.", runC06)
}
