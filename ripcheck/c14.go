package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C14", "Property simulation of the history processor: after the result of a commit was computed, and before the next one or a successful return, one loop over the parents of exactly that commit "+
		"counts each parent once and hands a parent to the unloader only when its count is compared to its number of children; simulation of the unloader (first in, first out, at least 1000 kept); "+
		"simulation of the function that derives the children from the parents; and an effect rule: recorded state is deleted nowhere else, the counters are written nowhere else.", runC14)
}

// isGraphRow: t is graph.<field>[h].
func isGraphRow(t *Term, field string) (h *Term, ok bool) {
	if t.Op == "lk" && t.A[0].Op == "f" && t.A[0].S == field {
		return t.A[1], true
	}
	return nil, false
}

func isUnloadFn(f *ssa.Function) bool {
	if f == nil || fnPkgPath(f) != mp(repoPkg) || f.Signature.Recv() == nil {
		return false
	}
	return isNamed(f.Signature.Recv().Type(), mp(repoPkg)+".Unloader") && f.Signature.Params().Len() == 1 && isString(f.Signature.Params().At(0).Type())
}

func isIntMap(t types.Type) bool {
	m, ok := types.Unalias(t).Underlying().(*types.Map)
	if !ok || !isString(m.Key()) {
		return false
	}
	b, ok := types.Unalias(m.Elem()).Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func runC14(c *Ctx) {
	fn := c.Must(processPkg, "Process.Run")
	if fn == nil {
		return
	}
	isProducer := func(f *ssa.Function) bool {
		return f != nil && f.Signature.Results().Len() > 0 && isNamed(f.Signature.Results().At(0).Type(), mp(processPkg)+".Result")
	}
	produced, loops, counts, unloads := map[ssa.Instruction]bool{}, map[ssa.Instruction]bool{}, map[ssa.Instruction]bool{}, map[ssa.Instruction]bool{}
	counters := map[string]bool{} // fields that hold the counts
	counterFns := map[*ssa.Function]bool{}
	relevant := func(f *ssa.Function, ins ssa.Instruction) bool {
		switch i := ins.(type) {
		case *ssa.MapUpdate:
			return isIntMap(i.Map.Type())
		case ssa.CallInstruction:
			sc := i.Common().StaticCallee()
			return isProducer(sc) || isUnloadFn(sc)
		case *ssa.Field:
			return structOf(i.X.Type()).Field(i.Field).Name() == "Children"
		case *ssa.FieldAddr:
			return structOf(i.X.Type()).Field(i.Field).Name() == "Children"
		}
		return false
	}
	r := &Rule{Name: "trim", NoLoads: true}
	r.Inline = func(x *X, f *ssa.Function, call ssa.CallInstruction) bool {
		return fnPkgPath(f) == mp(processPkg) && !isProducer(f) && c.p.transitively(f, relevant)
	}
	lost := func(x *X, what string) {
		if x.Get("lost") == "" {
			x.Set("lost", what)
		}
	}
	r.OnEvent = func(x *X, e *Event) {
		switch e.Kind {
		case EvCall:
			switch {
			case isProducer(e.Fn):
				produced[e.Ins] = true
				if x.Get("pend") == "1" {
					lost(x, "a processed commit is not counted towards its parents")
				}
				var h *Term
				for i, q := range e.Fn.Params {
					if isNamed(q.Type(), mp(parserPkg)+".Commit") && !isPartsMap(q.Type()) {
						h = x.ts.Field(e.Args[i], "Hash")
					} else if isString(q.Type()) && h == nil {
						h = e.Args[i]
					}
				}
				if h == nil {
					x.Violate("hash", e.Pos(), "cannot tell which commit is processed")
					return
				}
				x.Set("pend", "1")
				x.Retag("hash", h)
				if e.Res != nil { // the result is labelled with the hash of its commit (C01)
					x.Tag("hash", x.ts.Field(x.ts.mk("x", "0", "", e.Res), "Commit"))
				}
			case isUnloadFn(e.Fn):
				unloads[e.Ins] = true
				p := e.Args[1]
				if x.Get("el") == "" || !x.HasTag("el", p) {
					x.Violate("unload target", e.Pos(), "a commit is unloaded that is not the parent just counted")
					return
				}
				if x.Get("el") != "counted" {
					x.Violate("unload uncounted", e.Pos(), "a parent is unloaded before the processed commit was counted for it")
					return
				}
				ok := x.Get("full") == "1"
				if !ok {
					x.Violate("unload too early", e.Pos(), "a parent is unloaded although its count of processed children is not known to have reached its number of children")
				}
				x.Set("el", "unloaded")
			}
		case EvIter:
			h, ok := isGraphRow(e.Coll, "Parents")
			if !ok || e.IKind == "chan" || e.IKind == "scan" {
				return
			}
			if x.Get("el") == "open" && x.HasTag("elcoll", e.Coll) {
				lost(x, "a parent of a processed commit is not counted")
			}
			was := x.Get("el")
			x.Untag("el")
			x.Untag("cnt")
			x.Untag("cntrow")
			x.Set("el", "")
			x.Set("full", "")
			// only loops that count are trim loops: decided when the first count happens
			if e.Taken {
				x.Set("el", "open")
				if was == "" {
					x.Set("trimming", "")
				}
				x.Retag("elcoll", e.Coll)
				x.Retag("el", x.ts.mk("el", "", "", e.Coll, e.Elem))
				loops[e.Ins] = true
				return
			}
			x.Untag("elcoll")
			if e.IKind == "part" {
				lost(x, "not all parents of a processed commit are counted")
				return
			}
			if x.HasTag("hash", h) && x.Get("pend") == "1" {
				x.Set("pend", "")
			} else if was == "counted" || was == "unloaded" {
				if x.HasTag("hash", h) {
					x.Violate("counted twice", e.Pos(), "a processed commit is counted more than once towards its parents")
				} else {
					x.Violate("counted wrongly", e.Pos(), "a commit is counted towards its parents that is not the one just processed")
				}
			}
		case EvBranch:
			if x.Get("el") != "counted" {
				return
			}
			isKids := func(t *Term) bool {
				if t.Op != "len" {
					return false
				}
				h, is := isGraphRow(t.A[0], "Children")
				return is && x.HasTag("el", h)
			}
			isCnt := func(t *Term) bool { return x.HasTag("cnt", t) || x.HasTag("cntrow", t) }
			if len(e.Cond.A) != 2 {
				return
			}
			a, b := e.Cond.A[0], e.Cond.A[1]
			if e.Cond.Op == "eq" && e.Taken && (isCnt(a) && isKids(b) || isCnt(b) && isKids(a)) || e.Cond.Op == "lt" && !e.Taken && isCnt(a) && isKids(b) {
				x.Set("full", "1")
			}
		case EvLookup:
			if x.Get("el") == "counted" && isIntMap(mapType(e)) && x.HasTag("el", e.Key) {
				x.Tag("cntrow", e.Res)
			}
		case EvMapSet:
			if !isIntMap(mapType(e)) {
				return
			}
			fl := fieldOfMap(e.Ins.(*ssa.MapUpdate).Map)
			if fl == "" && (x.Get("el") == "" || !x.HasTag("el", e.Key)) {
				return
			}
			counts[e.Ins] = true
			if fl != "" {
				counters[fl] = true
			}
			counterFns[x.Fn()] = true
			if x.Get("el") == "" || !x.HasTag("el", e.Key) {
				x.Violate("count target", e.Pos(), "the count of processed children is changed for a commit that is not a parent of the processed one")
				return
			}
			if x.Get("el") != "open" {
				x.Violate("counted again", e.Pos(), "one child is counted more than once for a parent")
			}
			v := e.Val
			if !(v.Op == "b" && v.S == "+" && v.A[1].IsConst() && v.A[1].S == "1" && v.A[0].Op == "lk" && v.A[0].A[0] == e.Map && v.A[0].A[1] == e.Key) {
				x.Violate("count value", e.Pos(), "the count of processed children is not increased by one")
			}
			x.Set("el", "counted")
			x.Tag("cnt", v)
		case EvStore:
			if rootedAt(e.Addr, x.ParamTerm(0)) && isIntMap(storeType(e)) {
				if len(counts) > 0 && e.Addr.Op == "fa" && x.Get("started") == "1" {
					x.Violate("counts reset", e.Pos(), "the counts of processed children are replaced while commits are processed")
				}
			}
		case EvReturn:
			if nn, known := errKnown(x, e); known && nn {
				return
			}
			if x.Get("pend") == "1" {
				lost(x, "a processed commit is not counted towards its parents")
			}
			if w := x.Get("lost"); w != "" {
				x.Violate("lost: "+w, e.Pos(), "processing can end without error although "+w)
			}
		}
		if e.Kind == EvCall && isProducer(e.Fn) {
			x.Set("started", "1")
		}
	}
	c.Sim("history processor", fn, r, nil)
	for n, m := range map[string]map[ssa.Instruction]bool{"calls computing the result of a commit": produced, "loops counting a commit towards its parents": loops, "count updates": counts, "unload calls": unloads} {
		c.Count(n, len(m))
		c.Min(n, 1)
	}
	// the counters are written only there, recorded state is deleted only by the unloader
	nDel := 0
	for _, f := range c.p.Fns {
		if !libraryFn(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				switch i := ins.(type) {
				case *ssa.MapUpdate:
					if fa := fieldOfMap(i.Map); fa != "" && counters[fa] && fnPkgPath(f) == mp(processPkg) && isIntMap(i.Map.Type()) && !counterFns[f] {
						c.Violate("counts changed in "+fnName(f), ins.Pos(), "the counts of processed children are changed outside the loop over the parents of a processed commit")
					}
				case ssa.CallInstruction:
					bi, ok := i.Common().Value.(*ssa.Builtin)
					if !ok || bi.Name() != "delete" && bi.Name() != "clear" {
						continue
					}
					t := i.Common().Args[0].Type()
					if isRepoMap(t) {
						nDel++
						r := outermost(f).Signature.Recv()
						if r == nil || !isNamed(r.Type(), mp(repoPkg)+".Unloader") {
							c.Violate("state deleted in "+fnName(f), ins.Pos(), "the recorded state of a commit is deleted outside the unloader")
						}
					}
					if fa := fieldOfMap(i.Common().Args[0]); fa != "" && counters[fa] && isIntMap(t) {
						c.Violate("counts deleted in "+fnName(f), ins.Pos(), "counts of processed children are deleted")
					}
					if fa := fieldOfMap(i.Common().Args[0]); (fa == "Parents" || fa == "Children") && fnPkgPath(f) != mp(graphPkg) {
						c.Violate("graph changed in "+fnName(f), ins.Pos(), "the commit graph is changed outside its package")
					}
				}
			}
		}
	}
	c.Count("deletions of recorded state", nDel)
	c.Min("deletions of recorded state", 1)
	c14Unloader(c)
	graphChildren(c)
}

const graphPkg = "ripsrc/parentsgraph"

// fieldOfMap: the struct field a map value is loaded from.
func fieldOfMap(v ssa.Value) string {
	if u, ok := v.(*ssa.UnOp); ok {
		if fa, ok := u.X.(*ssa.FieldAddr); ok {
			return structOf(fa.X.Type()).Field(fa.Field).Name()
		}
	}
	if f, ok := v.(*ssa.Field); ok {
		return structOf(f.X.Type()).Field(f.Field).Name()
	}
	return ""
}

// c14Unloader: a candidate is only discarded when at least 1000 later ones are waiting, oldest first.
func c14Unloader(c *Ctx) {
	var fns []*ssa.Function
	for _, f := range c.p.Fns {
		if isUnloadFn(f) && f.Parent() == nil && exportedFn(f) {
			fns = append(fns, f)
		}
	}
	c.Count("unloader entry points", len(fns))
	c.Min("unloader entry points", 1)
	for _, fn := range fns {
		dels, pushes := map[ssa.Instruction]bool{}, map[ssa.Instruction]bool{}
		r := &Rule{Name: "unload", NoLoads: true, Inline: func(x *X, f *ssa.Function, call ssa.CallInstruction) bool { return fnPkgPath(f) == mp(repoPkg) }}
		end := func(x *X, which string, pos *Event) {
			if s := x.Get("side"); s != "" && s != which {
				x.Violate("order", pos.Pos(), "candidates are not discarded in the order they were added")
			}
			x.Set("side", which)
		}
		r.OnEvent = func(x *X, e *Event) {
			switch e.Kind {
			case EvCall:
				switch e.Name {
				case "(*container/list.List).PushFront", "(*container/list.List).PushBack":
					pushes[e.Ins] = true
					if e.Args[1] != x.ParamTerm(1) {
						x.Violate("candidate", e.Pos(), "the candidate recorded is not the commit handed to the unloader")
					}
					if x.Get("pushed") == "1" {
						x.Violate("candidate twice", e.Pos(), "a candidate is recorded twice")
					}
					x.Set("pushed", "1")
					end(x, strings.TrimPrefix(e.Name, "(*container/list.List).Push"), e)
					x.Untag("len")
				case "(*container/list.List).Len":
					x.Tag("len", e.Res)
				case "(*container/list.List).Front", "(*container/list.List).Back":
					x.Tag("last", e.Res)
					end(x, map[string]string{"Front": "Back", "Back": "Front"}[strings.TrimPrefix(e.Name, "(*container/list.List).")], e)
				case "(*container/list.List).Remove":
					if x.HasTag("last", e.Args[1]) {
						x.Tag("val", e.Res)
						x.Set("removed", "1")
					} else {
						x.Violate("removed", e.Pos(), "another candidate than the oldest one is dropped")
					}
				case "(*container/list.List).Init":
					x.Violate("removed", e.Pos(), "candidates are dropped without being discarded")
				}
			case EvBranch:
				for _, t := range x.Tagged("len") {
					if lo, _, has, _ := x.ts.bounds(t, x.St.facts); has && lo >= 1001 {
						x.Set("big", "1")
					}
				}
			case EvMapDel:
				if !isRepoMap(mapType(e)) {
					return
				}
				dels[e.Ins] = true
				k := e.Key
				src := k.Op == "f" && k.S == "Value" && x.HasTag("last", k.A[0]) || x.HasTag("val", k)
				if !src {
					x.Violate("discarded", e.Pos(), "the commit discarded is not the oldest candidate")
				}
				if x.Get("big") != "1" || x.Get("pushed") != "1" {
					x.Violate("kept", e.Pos(), "a candidate is discarded although fewer than 1000 later ones may be waiting")
				}
				if x.Get("deleted") == "1" {
					x.Violate("kept", e.Pos(), "more than one candidate is discarded per call")
				}
				x.Set("deleted", "1")
			case EvReturn:
				if x.Get("deleted") == "1" && x.Get("removed") != "1" {
					x.Violate("not dropped", e.Pos(), "a discarded commit stays in the list of candidates")
				}
			}
		}
		c.Sim("unloader", fn, r, nil)
		c.Count("deletions in the unloader", len(dels))
		c.Min("deletions in the unloader", 1)
		c.Count("candidates recorded", len(pushes))
		c.Min("candidates recorded", 1)
	}
}

// graphChildren: every (parent, commit) pair of the parent table is entered exactly once in the table of children.
func graphChildren(c *Ctx) {
	n := 0
	for _, f := range c.p.Fns {
		if fnPkgPath(f) != mp(graphPkg) || f.Parent() != nil || !writesField(f, "Children") {
			continue
		}
		n++
		apps := map[ssa.Instruction]bool{}
		outer, inner := map[ssa.Instruction]bool{}, map[ssa.Instruction]bool{}
		r := &Rule{Name: "children", NoLoads: true, Inline: func(x *X, f *ssa.Function, call ssa.CallInstruction) bool {
			return fnPkgPath(f) == mp(graphPkg)
		}}
		isPar := func(t *Term) bool { return t.Op == "f" && t.S == "Parents" }
		lost := func(x *X, what string) {
			if x.Get("lost") == "" {
				x.Set("lost", what)
			}
		}
		r.OnEvent = func(x *X, e *Event) {
			switch e.Kind {
			case EvIter:
				byKeys := e.IKind == "slice" && x.HasTag("keys", e.Coll)
				switch {
				case e.IKind == "map" && isPar(e.Coll) || byKeys:
					// a loop that came before the first entry may have had another purpose
					if id := fnName(x.Fn()) + "." + itoa(e.Ins.Block().Index); x.Get("loop") != id {
						if x.Get("added") == "" {
							x.Set("lost", "")
							x.Set("c", "")
							x.Set("done", "")
						}
						x.Set("loop", id)
					}
					if x.Get("c") == "open" {
						lost(x, "a commit")
					}
					if x.Get("key") == "open" {
						x.Set("keyslost", "1")
					}
					x.Set("key", "")
					if e.Taken {
						outer[e.Ins] = true
						x.Set("c", "open")
						if byKeys {
							x.Retag("c", x.ts.mk("el", "", "", e.Coll, e.Elem))
						} else {
							x.Set("key", "open")
							x.Retag("c", e.Elem)
						}
					} else {
						x.Set("c", "")
						if !byKeys || x.Get("keyslost") == "" {
							x.Set("done", "1")
						}
					}
				case (e.IKind == "slice" || e.IKind == "back" || e.IKind == "part") && (e.Coll.Op == "mval" && isPar(e.Coll.A[0]) || e.Coll.Op == "lk" && isPar(e.Coll.A[0]) && x.HasTag("c", e.Coll.A[1])):
					if x.Get("p") == "open" {
						lost(x, "a parent")
					}
					if e.IKind == "part" {
						lost(x, "a parent")
					}
					inner[e.Ins] = true
					if e.Taken {
						x.Set("p", "open")
						x.Retag("p", x.ts.mk("el", "", "", e.Coll, e.Elem))
					} else {
						x.Set("p", "")
						x.Set("c", "done")
					}
				}
			case EvBranch:
				if e.Cond.Op == "has" && !e.Taken {
					x.Retag("norow", e.Cond.A[1])
				}
				if (e.Cond.Op == "isnil" || e.Cond.Op == "empty") && e.Taken && e.Cond.A[0].Op == "lk" {
					x.Retag("norow", e.Cond.A[0].A[1])
				}
			case EvAppend:
				el, ok := x.Elems(e.Args[1])
				if x.Get("p") == "" && ok && len(el) == 1 && el[0].Op == "mkey" && isPar(el[0].A[0]) {
					if x.HasTag("keys", e.Args[0]) || x.Get("gotkey") == "" && x.freshList(e.Args[0]) {
						x.Set("gotkey", "1")
						x.Retag("keys", e.Res)
						x.Set("key", "")
					}
					return
				}
				if x.Get("p") == "" || !ok || len(el) != 1 {
					return
				}
				if x.HasTag("c", el[0]) {
					b := e.Args[0]
					if b.Op == "lk" && x.HasTag("p", b.A[1]) && (b.A[0].Op == "mmap" || b.A[0].Op == "f" && b.A[0].S == "Children") {
						x.Tag("row", e.Res)
						apps[e.Ins] = true
					}
				}
			case EvMapSet:
				if e.Map.Op == "f" && e.Map.S == "Parents" {
					x.Violate("parents changed", e.Pos(), "the table of parents is changed while the children are derived")
				}
				m, ok := types.Unalias(mapType(e)).Underlying().(*types.Map)
				if !ok {
					return
				}
				if s, ok := types.Unalias(m.Elem()).Underlying().(*types.Slice); !ok || !isString(s.Elem()) {
					return
				}
				if x.HasTag("row", e.Val) && x.HasTag("p", e.Key) {
					if x.Get("p") != "open" {
						x.Violate("child repeated", e.Pos(), "a commit is entered more than once as child of a parent")
					}
					x.Set("p", "done")
					x.Set("added", "1")
					x.Untag("row")
					return
				}
				if v, ok := x.IsEmpty(e.Val); ok && v {
					// an empty row: only where there is none
					if x.HasTag("norow", e.Key) {
						x.Untag("norow")
						return
					}
					if x.Get("added") == "" && e.Map.Op == "mmap" && x.HasTag("c", e.Key) && x.Get("p") == "" {
						return // before anything is entered
					}
				}
				if e.Key.Op == "mkey" && e.Val.Op == "mval" && e.Key.ID == e.Val.ID && e.Key.A[0] == e.Val.A[0] && e.Val.A[0] == e.Map {
					return // the same row again
				}
				x.Violate("row replaced", e.Pos(), "the children of a commit are replaced by something else than the children so far and the current commit")
			case EvMapDel:
				if e.Map.Op == "f" && (e.Map.S == "Parents" || e.Map.S == "Children") || e.Map.Op == "mmap" {
					x.Violate("row deleted", e.Pos(), "entries of the commit graph are deleted")
				}
			case EvReturn:
				if nn, known := errKnown(x, e); len(e.Args) > 0 && lastIsErr(x.Fn()) && known && nn {
					return
				}
				if x.Get("done") != "1" {
					x.Violate("skipped", e.Pos(), "the graph can be finished without deriving the children of every commit")
				}
				if x.Get("lost") != "" || x.Get("p") != "" {
					x.Violate("child lost", e.Pos(), "a commit may not be entered as child of one of its parents")
				}
			}
		}
		c.Sim(fnName(f), f, r, nil)
		c.Count("entries into the table of children", len(apps))
		c.Min("entries into the table of children", 1)
	}
	c.Count("functions deriving children", n)
	c.Min("functions deriving children", 1)
}

// writesField: fn itself stores into the struct field of that name.
func writesField(fn *ssa.Function, name string) bool {
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			if st, ok := ins.(*ssa.Store); ok {
				if fa, ok := st.Addr.(*ssa.FieldAddr); ok && structOf(fa.X.Type()).Field(fa.Field).Name() == name {
					return true
				}
			}
		}
	}
	return false
}
