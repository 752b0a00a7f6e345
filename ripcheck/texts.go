package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const gitBlamePkg = "ripsrc/gitblame2"

// changesText: the function returns another text than (a part of) its argument
// for some texts.
func changesText(call *ssa.Call) bool {
	f := call.Call.StaticCallee()
	if f == nil || f.Pkg == nil {
		return false
	}
	switch f.Pkg.Pkg.Path() {
	case "strings", "bytes":
		switch n := f.Name(); n {
		case "Trim", "TrimLeft", "TrimRight":
			if s, ok := constText(call.Call.Args[1]); ok && s == "\"" {
				return false // the quotes around a name
			}
			return true
		case "TrimSpace", "TrimFunc", "TrimLeftFunc", "TrimRightFunc", "Replace", "ReplaceAll", "ToLower", "ToUpper", "Title", "ToTitle", "Map", "ToValidUTF8", "Fields", "FieldsFunc", "Repeat":
			return true
		}
	case "path", "path/filepath":
		return true
	case "regexp":
		return strings.HasPrefix(f.Name(), "Replace")
	}
	return false
}

// textChange walks back from a text to what it was made from, within the
// function, and returns a call on the way that changes texts.
func textChange(v ssa.Value) *ssa.Call {
	seen := map[ssa.Value]bool{}
	var rec func(v ssa.Value) *ssa.Call
	rec = func(v ssa.Value) *ssa.Call {
		if v == nil || seen[v] {
			return nil
		}
		seen[v] = true
		switch i := v.(type) {
		case *ssa.Call:
			if changesText(i) {
				return i
			}
			if b, ok := i.Call.Value.(*ssa.Builtin); ok && b.Name() != "append" {
				return nil
			}
			f := i.Call.StaticCallee()
			if f != nil && f.Pkg != nil && strings.HasPrefix(f.Pkg.Pkg.Path(), modPath) {
				// a helper: what it returns
				for _, b := range f.Blocks {
					for _, ins := range b.Instrs {
						if r, ok := ins.(*ssa.Return); ok {
							for _, o := range r.Results {
								if isTextual(o.Type()) {
									if c := rec(o); c != nil {
										return c
									}
								}
							}
						}
					}
				}
			}
			for _, a := range i.Call.Args {
				if isTextual(a.Type()) {
					if c := rec(a); c != nil {
						return c
					}
				}
			}
		case *ssa.Phi:
			for _, e := range i.Edges {
				if c := rec(e); c != nil {
					return c
				}
			}
		case *ssa.Convert:
			return rec(i.X)
		case *ssa.ChangeType:
			return rec(i.X)
		case *ssa.Slice:
			return rec(i.X)
		case *ssa.Extract:
			return rec(i.Tuple)
		case *ssa.UnOp:
			if i.Op == token.MUL {
				return rec(i.X)
			}
		case *ssa.IndexAddr:
			return rec(i.X)
		case *ssa.Index:
			return rec(i.X)
		case *ssa.Alloc:
			for _, r := range *i.Referrers() {
				if st, ok := r.(*ssa.Store); ok && st.Addr == ssa.Value(i) && isTextual(st.Val.Type()) {
					if c := rec(st.Val); c != nil {
						return c
					}
				}
			}
		}
		return nil
	}
	return rec(v)
}

func isTextual(t types.Type) bool {
	switch u := types.Unalias(t).Underlying().(type) {
	case *types.Basic:
		return u.Info()&types.IsString != 0
	case *types.Slice:
		return isByteSlice(u) || isTextual(u.Elem())
	case *types.Pointer:
		return isTextual(u.Elem())
	}
	return false
}

// blameTexts: the lines that git blame printed reach the caller as printed,
// each with the hash it was printed with, and one for each.
func (c *Ctx) blameTexts() {
	n := 0
	for _, fn := range c.p.Fns {
		if !libraryFn(fn) || fnPkgPath(fn) == mp(blamePkg) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				st, ok := ins.(*ssa.Store)
				if !ok {
					continue
				}
				owner, name, ok := fieldOfAddr(st.Addr)
				if !ok || !isTextual(st.Val.Type()) {
					continue
				}
				blameLine := isNamed(owner, mp(blamePkg)+".Line") && (name == "Line" || name == "Commit") && fnPkgPath(fn) == mp(processPkg)
				gitLine := fnPkgPath(fn) == mp(gitBlamePkg) && (name == "CommitHash" || name == "Content")
				if !blameLine && !gitLine {
					continue
				}
				n++
				if k := textChange(st.Val); k != nil {
					c.Violate("changed "+name+" in "+fnName(fn), instrPos(ins), "the %s of a line that git blame printed goes through %s, which changes some texts", name, k.Call.StaticCallee().String())
				}
				if i := otherElement(st.Val); i != nil {
					c.Violate("other "+name+" in "+fnName(fn), instrPos(ins), "the %s of a line that git blame printed is taken from another line", name)
				}
			}
		}
	}
	c.Count("texts of git blame", n)
	c.Min("texts of git blame", 2)
}

// otherElement: a value read from the field of an element of a list with a
// computed index.
func otherElement(v ssa.Value) ssa.Value {
	for {
		switch i := v.(type) {
		case *ssa.Convert:
			v = i.X
			continue
		case *ssa.ChangeType:
			v = i.X
			continue
		case *ssa.Phi:
			for _, e := range i.Edges {
				if o := otherElement(e); o != nil && e != v {
					return o
				}
			}
			return nil
		case *ssa.UnOp:
			fa, ok := i.X.(*ssa.FieldAddr)
			if !ok {
				return nil
			}
			ia, ok := fa.X.(*ssa.IndexAddr)
			if !ok {
				if u, isU := fa.X.(*ssa.UnOp); isU {
					ia, ok = u.X.(*ssa.IndexAddr)
				}
			}
			if !ok {
				return nil
			}
			if b, isB := ia.Index.(*ssa.BinOp); isB && (b.Op == token.SUB || b.Op == token.ADD) {
				if _, isPhi := b.X.(*ssa.Phi); isPhi && b.Op == token.ADD {
					return nil // the index of a loop
				}
				return ia
			}
			return nil
		}
		return nil
	}
}

// headerTexts: paths and positions of a patch are read from the header as they
// are printed.
func (c *Ctx) headerTexts(declFn, ctxFn func(*ssa.Function) bool) {
	for _, fn := range c.p.Fns {
		if fnPkgPath(fn) != mp(blamePkg) {
			continue
		}
		root := fn
		for root.Parent() != nil {
			root = root.Parent()
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				switch i := ins.(type) {
				case *ssa.Return:
					if !declFn(root) {
						continue
					}
					for _, o := range i.Results {
						if !isTextual(o.Type()) {
							continue
						}
						c.Count("paths of declarations", 1)
						if k := textChange(o); k != nil {
							c.Violate("path changed in "+fnName(root), instrPos(ins), "a path of the first line of a patch goes through %s, which changes some paths", k.Call.StaticCallee().String())
						}
					}
				case *ssa.Call:
					f := i.Call.StaticCallee()
					if f == nil || f.Pkg == nil || !ctxFn(root) {
						continue
					}
					if p := f.Pkg.Pkg.Path(); (p == "strings" || p == "bytes") && strings.HasPrefix(f.Name(), "LastIndex") {
						c.Violate("hunk header from its end in "+fnName(root), instrPos(ins), "the positions of a hunk are looked for from the end of the line, which is any text of the file")
					}
				case *ssa.Store:
					owner, name, ok := fieldOfAddr(i.Addr)
					if !ok || !isNamed(owner, mp(blamePkg)+".HunkLocation") || name != "Offset" && name != "Lines" {
						continue
					}
					c.Count("positions of hunks", 1)
					if b := arithmetic(i.Val, i.Addr); b != nil {
						c.Violate("position changed in "+fnName(root), instrPos(ins), "the %s of a hunk is not the number git printed", name)
					}
				}
			}
		}
	}
}

// arithmetic: an operation that the number v is the result of.
func arithmetic(v ssa.Value, _ ssa.Value) ssa.Value {
	seen := map[ssa.Value]bool{}
	var rec func(v ssa.Value) ssa.Value
	rec = func(v ssa.Value) ssa.Value {
		if seen[v] {
			return nil
		}
		seen[v] = true
		switch i := v.(type) {
		case *ssa.BinOp:
			return i
		case *ssa.Phi:
			for _, e := range i.Edges {
				if o := rec(e); o != nil {
					return o
				}
			}
		case *ssa.Convert:
			return rec(i.X)
		}
		return nil
	}
	return rec(v)
}
