package main

import (
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C35", "Every path of the parser of the commit log (--pretty=format:%H@%P) over every line git can print, the line in hand being a text of constants and holes for the hashes (no parent, one, two, three, five, thirteen): for each line exactly one entry is made, under the commit's hash, with the hashes of all its parents in order, and no other entry is made or removed; the table is returned only at the end of the input. Every path that sets the graph: its parents are that table (or the one given), complete before the children are derived; the children are derived from it such that each (parent, commit) pair is entered exactly once.", runC35)
}

func isStringsMap(t types.Type) bool {
	m, ok := types.Unalias(t).Underlying().(*types.Map)
	if !ok || !isString(m.Key()) {
		return false
	}
	s, ok := types.Unalias(m.Elem()).Underlying().(*types.Slice)
	return ok && isString(s.Elem())
}

func runC35(c *Ctx) {
	const parsePkg = graphPkg + "/parentsp"
	n := 0
	parsers := map[*ssa.Function]bool{}
	for _, fn := range c.p.Fns {
		if fnPkgPath(fn) != mp(parsePkg) || !exportedFn(fn) || fn.Parent() != nil {
			continue
		}
		if r := fn.Signature.Results(); r.Len() != 2 || !isStringsMap(r.At(0).Type()) {
			continue
		}
		n++
		parsers[fn] = true
		c.parents(fn, parsePkg)
	}
	if n == 0 {
		c.Violate("no parser", 0, "no exported function of %s makes a table of parents", parsePkg)
	}
	c.Min("entries made", 1)
	c.Min("tables returned", 1)
	graphChildren(c)
	c.graphs(parsers)
	c.graphReadOnly()
}

func (c *Ctx) parents(fn *ssa.Function, pkg string) {
	h := hex
	type kind struct {
		text    string
		parents []string
	}
	kinds := map[string]*kind{
		"0": {h(1) + "@", nil},
		"1": {h(1) + "@" + h(2), []string{h(2)}},
		"2": {h(1) + "@" + h(2) + " " + h(3), []string{h(2), h(3)}},
		"3": {h(1) + "@" + h(2) + " " + h(3) + " " + h(4), []string{h(2), h(3), h(4)}},
	}
	for _, n := range []int{5, 13} {
		k := &kind{text: h(1) + "@"}
		for i := 0; i < n; i++ {
			k.parents = append(k.parents, h(2+i))
		}
		k.text += strings.Join(k.parents, " ")
		kinds[strconv.Itoa(n)] = k
	}
	r := &Rule{Name: "parents", NoLoads: true, MaxState: 100000, WantSlice: true}
	r.Inline = func(x *X, f *ssa.Function, call ssa.CallInstruction) bool { return fnPkgPath(f) == mp(pkg) }
	sh := func(x *X) *shapes {
		s := &shapes{x, "\x00"}
		if k := kinds[x.Get("line")]; k != nil && x.Get("in") != "" {
			s.line = k.text
		}
		return s
	}
	// listOf is the list of texts a term stands for.
	var listOf func(x *X, t *Term) ([]string, bool)
	listOf = func(x *X, t *Term) ([]string, bool) {
		if x.HasTag("dirty", t) {
			return nil, false
		}
		for _, f := range x.St.facts {
			if f.t.Op == "tag" && f.t.A[0] == t && strings.HasPrefix(f.t.S, "list:") {
				if f.t.S == "list:" {
					return nil, true
				}
				return strings.Split(f.t.S[5:], "\x1f"), true
			}
		}
		if zeroTerm(t) || x.freshList(t) {
			return nil, true
		}
		if v, ok := sh(x).eval(unwrapConv(t)); ok {
			switch {
			case v.K == 'p' && v.S == "nil":
				return nil, true
			case v.K == 'l':
				var out []string
				for _, e := range v.L {
					out = append(out, e.S)
				}
				return out, true
			}
		}
		if el, ok := x.Elems(t); ok {
			var out []string
			for _, e := range el {
				s, ok := sh(x).str(unwrapConv(e))
				if !ok {
					return nil, false
				}
				out = append(out, s)
			}
			return out, true
		}
		return nil, false
	}
	full := func(k *kind, l []string) bool {
		if len(l) != len(k.parents) {
			return false
		}
		for i := range l {
			if l[i] != k.parents[i] {
				return false
			}
		}
		return true
	}
	endLine := func(x *X, e *Event) {
		if x.Get("in") != "" && x.Get("made") != "1" {
			x.Violate("commit lost", e.Pos(), "a commit of the log may get no entry with all its parents")
			x.Stop()
		}
		x.Set("made", "")
		x.Set("in", "")
	}
	r.OnEvent = func(x *X, e *Event) {
		switch e.Kind {
		case EvIter:
			if e.IKind != "scan" {
				// a list that is known is gone through element by element
				l, ok := listOf(x, e.Coll)
				if !ok || e.IKind != "slice" {
					return
				}
				i := len(x.Get("ix:" + e.Coll.key))
				if e.Taken != (i < len(l)) {
					x.Stop()
					return
				}
				x.Set("v:"+x.ts.mk("el", "", "", e.Coll, e.Elem).key, "")
				if e.Taken {
					x.Set("ix:"+e.Coll.key, strings.Repeat("i", i+1))
					x.Set("v:"+x.ts.mk("el", "", "", e.Coll, e.Elem).key, avS(l[i]).enc())
				} else {
					x.Set("ix:"+e.Coll.key, "")
				}
				return
			}
			endLine(x, e)
			if !e.Taken {
				x.Set("line", "")
				x.Set("done", "1")
				return
			}
			var alts []Auto
			for i := range kinds {
				a := x.St.auto.clone()
				a["line"], a["in"] = i, "1"
				delete(a, "made")
				alts = append(alts, a)
			}
			x.Split(alts)
		case EvBranch:
			if v, ok := sh(x).cond(e.Cond); ok && v != e.Taken {
				x.Stop()
			}
		case EvPanic:
			if x.Get("in") != "" {
				x.Violate("panic", e.Pos(), "a line that git can print is rejected")
			}
		case EvAppend:
			if ci, isV := e.Ins.(*ssa.Call); !isV || types.TypeString(ci.Type().Underlying(), nil) != "[]string" {
				return
			}
			a, ok := listOf(x, e.Args[0])
			b, ok2 := listOf(x, e.Args[1])
			if ok && ok2 && len(a)+len(b) <= 13 {
				x.Tag("list:"+strings.Join(append(append([]string(nil), a...), b...), "\x1f"), e.Res)
			}
		case EvMapSet:
			if !isStringsMap(mapType(e)) {
				return
			}
			k := kinds[x.Get("line")]
			if x.Get("in") == "" || k == nil {
				x.Violate("entry", e.Pos(), "an entry of the table of parents is made that no line of the log stands for")
				return
			}
			c.Count("entries made", 1)
			key, ok := sh(x).str(unwrapConv(e.Key))
			if !ok || key != hex(1) {
				x.Violate("commit", e.Pos(), "the parents are entered under something else than the hash of the commit")
				return
			}
			l, ok := listOf(x, e.Val)
			if !ok || !full(k, l) {
				x.Set("made", "bad")
				return
			}
			x.Set("made", "1")
			x.Retag("T", e.Map)
		case EvStore:
			st, ok := e.Ins.(*ssa.Store)
			if !ok || !isString(st.Val.Type()) || e.Addr == nil || e.Addr.Op != "ia" {
				return
			}
			if _, ok := st.Addr.(*ssa.IndexAddr).X.Type().Underlying().(*types.Slice); ok {
				x.Tag("dirty", e.Addr.A[0])
				if x.Get("made") == "1" {
					x.Set("made", "bad")
				}
			}
		case EvMapDel:
			x.Violate("entry removed", e.Pos(), "an entry of the table of parents is removed")
		case EvReturn:
			if nn, known := errKnown(x, e); known && nn {
				return
			}
			if x.Get("done") != "1" {
				x.Violate("not read", e.Pos(), "a table of parents is returned as complete though the log was not read to its end")
				return
			}
			c.Count("tables returned", 1)
			t := e.Args[0]
			if !x.HasTag("T", t) && !(t.Op == "mmap" && len(x.Tagged("T")) == 0) {
				x.Violate("table", e.Pos(), "the table returned is not the one that was filled")
			}
		}
	}
	c.Sim("parser of parents "+fnName(fn), fn, r, nil)
}

// graphs: the paths on which exported functions set the graph.
func (c *Ctx) graphs(parsers map[*ssa.Function]bool) {
	sets := func(f *ssa.Function) bool {
		return c.p.transitively(f, func(g *ssa.Function, _ ssa.Instruction) bool {
			return fnPkgPath(g) == mp(graphPkg) && writesField(g, "Children")
		})
	}
	n := 0
	for _, fn := range c.p.Fns {
		if fnPkgPath(fn) != mp(graphPkg) || !exportedFn(fn) || fn.Parent() != nil || !sets(fn) {
			continue
		}
		n++
		given := func(x *X) *Term {
			for i, p := range fn.Params {
				if isStringsMap(p.Type()) {
					return x.ParamTerm(i)
				}
			}
			return nil
		}
		deriving := func(f *ssa.Function) bool {
			return fnPkgPath(f) == mp(graphPkg) && writesField(f, "Children")
		}
		r := &Rule{Name: "graph", MaxState: 50000}
		r.Inline = func(x *X, f *ssa.Function, call ssa.CallInstruction) bool {
			return fnPkgPath(f) == mp(graphPkg) && !deriving(f)
		}
		right := func(x *X, v *Term) bool {
			v = unwrapConv(v)
			if g := given(x); g != nil {
				return v == g
			}
			return x.HasTag("parsed", v)
		}
		check := func(x *X, v *Term, e *Event) {
			c.Count("tables of parents set", 1)
			if !right(x, v) {
				x.Violate("parents", e.Pos(), "the graph gets other parents than the table that was read or given")
				return
			}
			x.Set("parents", "1")
			x.Set("children", "")
		}
		r.OnEvent = func(x *X, e *Event) {
			switch e.Kind {
			case EvCall:
				k, ok := e.Ins.(*ssa.Call)
				if !ok {
					return
				}
				f := k.Call.StaticCallee()
				switch {
				case f != nil && parsers[f]:
					x.Retag("parsed", x.ts.mk("x", "0", "", e.Res))
				case f != nil && deriving(f):
					c.Count("children derived", 1)
					if x.Get("parents") != "1" {
						x.Violate("order", e.Pos(), "the children are derived before the parents are known")
					}
					x.Set("children", "1")
				}
			case EvStore:
				st, ok := e.Ins.(*ssa.Store)
				if !ok || !isStringsMap(storeType(e)) {
					return
				}
				switch _, name, _ := fieldOfAddr(st.Addr); name {
				case "Parents":
					check(x, e.Val, e)
				case "Children":
					x.Set("children", "1")
				}
			case EvMapSet:
				if isStringsMap(mapType(e)) {
					x.Violate("entry", e.Pos(), "an entry of the graph is changed outside its parser and the derivation of the children")
				}
			case EvReturn:
				if nn, known := errKnown(x, e); lastIsErr(fn) && known && nn {
					return
				}
				c.Count("graphs made", 1)
				if x.Get("parents") != "1" || x.Get("children") != "1" {
					x.Violate("incomplete", e.Pos(), "a graph is given out whose parents or children were not set")
				}
			}
		}
		c.Sim("graph "+fnName(fn), fn, r, nil)
	}
	c.Count("functions that set the graph", n)
	c.Min("functions that set the graph", 2)
	c.Min("graphs made", 2)
}
