package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C04", "Property simulation of Apply with a symbolic cursor into the old version: the cursor starts at 0, the lines before a hunk are copied from the cursor to the hunk's offset, "+
		"a context line copies the line at the cursor and advances it, a removed line advances it, an added line adds the text of the line under the commit, every other line but the "+
		"no-newline marker panics, and the rest of the old version is copied at the end; plus the arguments of every Apply call for a regular commit.", runC04)
	register("C05", "Property simulation of ApplyMerge and of the function that prepares its arguments: the view for a parent is the patch against that parent applied to that parent's version; "+
		"each line takes the commit of the first parent in whose view it is not new, and keeps the merge commit otherwise.", runC05)
}

func isLinePtr(t types.Type) bool {
	p, ok := types.Unalias(t).Underlying().(*types.Pointer)
	return ok && isNamed(p.Elem(), mp(blamePkg)+".Line")
}

// freshBytes: t is a new copy of the bytes (or string) src.
func (x *X) freshBytes(t *Term) (src *Term, fresh bool) {
	switch {
	case t.Op == "call" && (t.S == "bytes.Clone" || t.S == "slices.Clone"):
		return t.A[0], true
	case t.Op == "call" && t.S == "bytes.Join" && len(t.A) == 2 && zeroTerm(t.A[1]):
		if l, ok := x.Elems(t.A[0]); ok && len(l) == 1 {
			return l[0], true
		}
	case t.Op == "conv" && len(t.A) == 1:
		if in := t.A[0]; in.Op == "conv" && len(in.A) == 1 {
			return in.A[0], true
		}
		return t.A[0], true
	case t.Op == "app":
		if x.freshList(t.A[0]) {
			return t.A[1], true
		}
	case t.Op == "mslice":
		for _, f := range x.St.facts {
			if f.t.Op == "copied" && f.t.A[0] == t && t.A[0].Op == "len" && t.A[0].A[0] == f.t.A[1] {
				return f.t.A[1], true
			}
		}
	}
	return t, false
}

// noteCopy records copy(dst, src).
func (x *X) noteCopy(e *Event) {
	if e.Kind == EvCall && e.Name == "builtin.copy" {
		x.addFact(x.St, x.ts.mk("copied", "", "", e.Args[0], e.Args[1]), true)
	}
}

func (x *X) isZeroOffset(hi *Term, off *Term) bool {
	if hi == off { // the offset itself, known to be at most 0
		_, h, _, ok := x.ts.bounds(off, x.St.facts)
		return ok && h <= 0
	}
	if n, ok := hi.Int(); !ok || n != 0 {
		return false
	}
	for _, t := range []*Term{x.ts.mk("b", "-", "", off, x.ts.IntConst(1)), x.ts.mk("b", "+", "", off, x.ts.IntConst(-1))} {
		if _, h, _, ok := x.ts.bounds(t, x.St.facts); ok && h <= 0 {
			return true
		}
	}
	_, h, _, ok := x.ts.bounds(off, x.St.facts)
	return ok && h <= 1
}

func runC04(c *Ctx) {
	c.useProc("C04")
	fn := c.Must(blamePkg, "Apply")
	if fn == nil {
		return
	}
	hunkLoops, lineLoops, copies, adds, gaps := map[ssa.Instruction]bool{}, map[ssa.Instruction]bool{}, map[ssa.Instruction]bool{}, map[ssa.Instruction]bool{}, map[ssa.Instruction]bool{}
	const nonl = "\\ No newline at end of file"
	var sorts []ssa.CallInstruction
	r := &Rule{Name: "apply", NoLoads: true, Inline: func(x *X, f *ssa.Function, call ssa.CallInstruction) bool {
		return fnPkgPath(f) == mp(blamePkg) && f.Name() != "String"
	}}
	r.Init = func(x *X) {
		x.Tag("cur", x.ts.IntConst(0))
	}
	endLine := func(x *X, e *Event) {
		if x.Get("line") != "1" {
			return
		}
		op, copied, added := x.Get("op"), x.Get("copied"), x.Get("added")
		switch op {
		case " ", "\t":
			if copied != "1" || added != "" {
				x.Violate("context line", e.Pos(), "an unchanged line of a patch does not copy exactly the line at the current position of the old version")
			}
		case "-":
			if copied != "" || added != "" {
				x.Violate("removed line", e.Pos(), "a removed line of a patch adds a line to the result")
			}
		case "+":
			if copied != "" || added != "1" {
				x.Violate("added line", e.Pos(), "an added line of a patch does not add exactly one line to the result")
			}
		case "\\":
			if copied != "" || added != "" {
				x.Violate("marker line", e.Pos(), "the no-newline marker of a patch adds a line to the result")
			}
			if x.Get("nonl") != "1" {
				x.Violate("unknown marker", e.Pos(), "a line starting with a backslash is ignored although it is not the no-newline marker")
			}
		default:
			x.Violate("unknown line", e.Pos(), "a patch line with an unknown prefix is ignored")
		}
		for _, k := range []string{"line", "op", "copied", "added", "nonl"} {
			x.Set(k, "")
		}
	}
	advance := func(x *X) {
		var ts []*Term
		live := false
		for _, t := range x.Tagged("cur") {
			live = live || len(t.ids) > 0
		}
		for _, t := range x.Tagged("cur") {
			if live && len(t.ids) == 0 {
				continue
			}
			ts = append(ts, x.ts.mk("b", "+", "", t, x.ts.IntConst(1)))
		}
		x.Untag("cur")
		for _, t := range ts {
			x.Tag("cur", t)
		}
	}
	setOp := func(x *X, op string) {
		if x.Get("op") == op {
			return
		}
		x.Set("op", op)
		if op == "-" {
			advance(x)
		}
	}
	r.OnEvent = func(x *X, e *Event) {
		file, diff := x.ParamTerm(0), x.ParamTerm(1)
		lines := x.ts.Field(file, "Lines")
		hunks := x.ts.Field(diff, "Hunks")
		x.noteCopy(e)
		switch e.Kind {
		case EvIter:
			switch {
			case e.Coll == hunks && (e.IKind == "slice" || e.IKind == "part" || e.IKind == "back"):
				if x.Get("locs") == "1" {
					break
				}
				hunkLoops[e.Ins] = true
				if e.IKind != "slice" {
					x.Violate("hunk order", e.Pos(), "the hunks of a patch are not processed from the first to the last")
				}
				endLine(x, e)
				if x.Get("hunk") == "open" {
					x.Violate("hunk skipped", e.Pos(), "a hunk of a patch can be skipped")
				}
				if e.Taken {
					x.Set("hunk", "open")
					x.Untag("hunk")
					x.Tag("hunk", x.ts.mk("el", "", "", hunks, e.Elem))
					x.Set("gap", "")
				} else {
					x.Set("hunk", "")
					x.Untag("hunk")
					x.Set("hunksDone", "1")
				}
			case e.IKind == "scan":
				lineLoops[e.Ins] = true
				endLine(x, e)
				if x.Get("gap") != "1" {
					x.Violate("lines before hunk", e.Pos(), "the lines of a hunk are processed before the unchanged lines in front of it were copied")
				}
				data := e.Coll.Has(func(t *Term) bool {
					return t.Op == "f" && t.S == "Data" && (x.HasTag("hunk", t.A[0]) || t.A[0].Op == "ld" && x.HasTag("hunk", t.A[0].A[0]))
				})
				if !data {
					x.Violate("hunk data", e.Pos(), "the lines processed are not those of the current hunk")
				}
				if e.Taken {
					x.Set("line", "1")
				} else {
					x.Set("hunk", "done")
				}
			}
		case EvBranch:
			if x.Get("line") != "1" || !e.Taken {
				return
			}
			if l, pre, ok := linePrefix(e.Cond); ok && isLine(l) && pre != "" {
				setOp(x, pre[:1])
				if pre == nonl {
					x.Set("nonl", "1")
				}
			} else if e.Cond.Op == "eq" {
				if s, isS := e.Cond.A[1].Str(); isS && s == nonl {
					l := e.Cond.A[0]
					if l.Op == "conv" {
						l = l.A[0]
					}
					if isLine(l) {
						setOp(x, "\\")
						x.Set("nonl", "1")
					}
				}
			}
		case EvAppend:
			if !isLinePtr(appendElem(e)) {
				return
			}
			base := e.Args[0]
			if x.Get("res") == "" {
				if v, ok := x.IsEmpty(base); !(ok && v) {
					x.Violate("result base", e.Pos(), "the result does not start empty")
				}
			} else if !x.HasTag("res", base) {
				x.Violate("result replaced", e.Pos(), "lines collected for the result are dropped")
			}
			x.Set("res", "1")
			x.Retag("res", e.Res)
			src := e.Args[1]
			if src == lines || src.Op == "sl" && src.A[0] == lines {
				lo, hi := x.ts.IntConst(0), (*Term)(nil)
				if src.Op == "sl" {
					if src.A[1] != nil {
						lo = src.A[1]
					}
					hi = src.A[2]
				}
				gaps[e.Ins] = true
				if !x.HasTag("cur", lo) {
					x.Violate("range start", e.Pos(), "unchanged lines are not copied from the current position of the old version")
				}
				if x.Get("line") == "1" {
					x.Violate("range in line", e.Pos(), "a range of the old version is copied while a patch line is processed")
				}
				if hi == nil {
					if x.Get("hunksDone") != "1" {
						x.Violate("rest too early", e.Pos(), "the rest of the old version is copied before all hunks were processed")
					}
					x.Set("tail", "1")
					x.Untag("cur")
					return
				}
				var off *Term
				for _, h := range x.Tagged("hunk") {
					off = x.ts.Field(x.ts.mk("el", "", "", x.ts.Field(h, "Locations"), x.ts.IntConst(0)), "Offset")
				}
				ok := false
				if off != nil {
					ok = hi.Op == "b" && hi.S == "-" && hi.A[0] == off && hi.A[1].IsConst() && hi.A[1].S == "1" || x.isZeroOffset(hi, off)
				}
				if !ok {
					x.Violate("range end", e.Pos(), "the unchanged lines copied in front of a hunk do not end right before its first line of the old version")
				}
				x.Set("gap", "1")
				x.Retag("cur", hi)
				return
			}
			el, ok := x.Elems(src)
			if !ok || len(el) != 1 {
				x.Violate("lines added", e.Pos(), "cannot tell which lines are added to the result")
				return
			}
			v := el[0]
			if v.Op == "el" && v.A[0] == lines {
				copies[e.Ins] = true
				if !x.HasTag("cur", v.A[1]) {
					x.Violate("copy position", e.Pos(), "the line copied is not the one at the current position of the old version")
				}
				x.Set("copied", x.Get("copied")+"1")
				x.Retag("cur", x.ts.mk("b", "+", "", v.A[1], x.ts.IntConst(1)))
				return
			}
			if v.Op == "new" {
				adds[e.Ins] = true
				x.Set("added", x.Get("added")+"1")
				txt := x.Load(x.ts.mk("fa", "Line", "", v), types.NewSlice(types.Typ[types.Byte]))
				cm := x.Load(x.ts.mk("fa", "Commit", "", v), types.Typ[types.String])
				src, _ := x.freshBytes(txt)
				if !(src.Op == "sl" && isLine(src.A[0]) && src.A[1] != nil && src.A[1].IsConst() && src.A[1].S == "1" && src.A[2] == nil) {
					x.Violate("added text", e.Pos(), "the text of an added line is not the patch line without its prefix")
				}
				if cm != x.ParamTerm(2) {
					x.Violate("added commit", e.Pos(), "an added line is not attributed to the commit of the patch")
				}
				return
			}
			x.Violate("lines added", e.Pos(), "a line is added to the result that is neither a line of the old version nor a new one")
		case EvStore:
			if e.Addr.Op == "ia" && isLinePtr(storeType(e)) && e.Addr.A[0].Op != "new" {
				x.Violate("line replaced", e.Pos(), "a line already in the result or in the old version is replaced")
			}
		case EvCall:
			if (e.Name == "sort.Slice" || e.Name == "sort.SliceStable") && e.Args[0].Has(func(t *Term) bool { return t == hunks }) {
				if ci, ok := e.Ins.(ssa.CallInstruction); ok {
					dup := false
					for _, s := range sorts {
						dup = dup || s == ci
					}
					if !dup {
						sorts = append(sorts, ci)
					}
				}
			}
		case EvReturn:
			if x.Get("hunksDone") != "1" {
				x.Violate("hunks skipped", e.Pos(), "Apply can finish before all hunks were processed")
			}
			if x.Get("tail") != "1" {
				x.Violate("rest lost", e.Pos(), "Apply can finish without copying the rest of the old version")
			}
			ls := x.ts.Field(e.Args[0], "Lines")
			if !x.HasTag("res", ls) {
				x.Violate("result lines", e.Pos(), "the lines of the result are not the ones collected")
			}
			if x.ts.Field(e.Args[0], "Commit") != x.ParamTerm(2) {
				x.Violate("result commit", e.Pos(), "the result is not labelled with the commit of the patch")
			}
			if b := x.ts.Field(e.Args[0], "IsBinary"); !(b.IsConst() && b.S == "false" || b.Op == "f" && b.A[0].Op == "zero") {
				x.Violate("result binary", e.Pos(), "the result of a text patch is marked binary")
			}
		}
	}
	c.Sim("Apply", fn, r, nil)
	for n, m := range map[string]map[ssa.Instruction]bool{"loops over hunks": hunkLoops, "loops over patch lines": lineLoops, "copies of old lines": copies, "added lines": adds, "copied ranges": gaps} {
		c.Count(n+" in Apply", len(m))
		c.Min(n+" in Apply", 1)
	}
	for _, s := range sorts {
		checkSortOffset(c, s)
	}
}

// checkSortOffset: hunks are sorted by ascending offset.
func checkSortOffset(c *Ctx, call ssa.CallInstruction) {
	less := funcValue(call.Common().Args[1])
	if less == nil {
		return
	}
	r := &Rule{Name: "less", NoLoads: true}
	r.OnEvent = func(x *X, e *Event) {
		if e.Kind != EvReturn {
			return
		}
		cond, pol := x.ts.Cond(e.Args[0])
		ok := false
		if cond.Op == "lt" {
			i, j := x.ParamTerm(0), x.ParamTerm(1)
			a, b := cond.A[0], cond.A[1]
			hi, hj := a.Has(func(t *Term) bool { return t == i }), a.Has(func(t *Term) bool { return t == j })
			bi, bj := b.Has(func(t *Term) bool { return t == i }), b.Has(func(t *Term) bool { return t == j })
			off := strings.Contains(a.Canon(), "Offset") && strings.Contains(b.Canon(), "Offset")
			ok = off && (pol && hi && !hj && bj && !bi || !pol && hj && !hi && bi && !bj)
		}
		if !ok {
			x.Violate("hunk order", e.Pos(), "the hunks of a patch are not sorted by ascending position")
		}
	}
	c.Sim("hunk comparison", less, r, nil)
}

// funcValue resolves a function literal or function used as a value.
func funcValue(v ssa.Value) *ssa.Function {
	switch f := v.(type) {
	case *ssa.Function:
		return f
	case *ssa.MakeClosure:
		return f.Fn.(*ssa.Function)
	case *ssa.ChangeType:
		return funcValue(f.X)
	case *ssa.MakeInterface:
		return funcValue(f.X)
	}
	return nil
}

func runC05(c *Ctx) {
	c.useProc("C05")
	fn := c.Must(blamePkg, "ApplyMerge")
	if fn == nil {
		return
	}
	views, lineLoops, takes := map[ssa.Instruction]bool{}, map[ssa.Instruction]bool{}, map[ssa.Instruction]bool{}
	r := &Rule{Name: "merge", NoLoads: true, Inline: func(x *X, f *ssa.Function, call ssa.CallInstruction) bool {
		return fnPkgPath(f) == mp(blamePkg) && f.Name() != "String" && f.Name() != "Apply"
	}}
	isBlames := func(t types.Type) bool {
		s, ok := types.Unalias(t).Underlying().(*types.Slice)
		if !ok {
			return false
		}
		_, isPtr := types.Unalias(s.Elem()).Underlying().(*types.Pointer)
		return !isPtr && isNamed(s.Elem(), mp(blamePkg)+".Blame")
	}
	// viewOf: t belongs to the view of parent j: returns the index term and the path below it
	viewLines := func(x *X, t *Term) (j *Term, ok bool) { // t = view[j].Lines
		if t.Op == "f" && t.S == "Lines" {
			b := t.A[0]
			if b.Op == "ld" {
				b = b.A[0]
			}
			if b.Op == "el" && x.HasTag("views", b.A[0]) {
				return b.A[1], true
			}
		}
		if x.HasTag("copy0", t) {
			return x.ts.IntConst(0), true
		}
		return nil, false
	}
	lineAt := func(x *X, t *Term) (j, i *Term, ok bool) { // t = view[j].Lines[i]
		if t.Op == "ld" {
			t = t.A[0]
		}
		if t.Op == "el" {
			if j, ok := viewLines(x, t.A[0]); ok {
				return j, t.A[1], true
			}
		}
		return nil, nil, false
	}
	// what is made of the line in hand
	lineValue := func(x *X, e *Event, v *Term) {
		if jj, ii, ok := lineAt(x, v); ok {
			if ii.key != x.Get("i") || x.Get("hit") == "1" && !x.HasTag("j", jj) {
				x.Violate("origin value", e.Pos(), "a line is replaced by another line")
			}
			if x.Get("hit") == "" && x.Get("allParents") != "1" {
				x.Violate("parents skipped", e.Pos(), "a line is left to the merge commit before all parents were tried")
			}
			x.Set("took", "1")
			return
		}
		cm := x.Load(x.ts.mk("fa", "Commit", "", v), types.Typ[types.String])
		tx := x.Load(x.ts.mk("fa", "Line", "", v), types.NewSlice(types.Typ[types.Byte]))
		if v.Op != "new" || !x.HasTag("hit", cm) && !(x.Get("hit") == "" && x.Get("allParents") == "1" && cm == x.ParamTerm(2)) {
			x.Violate("origin value", e.Pos(), "a line does not take the commit it has in the view of the first parent that has it")
		}
		if tx.Op == "f" && tx.S == "Line" {
			if _, ii, ok := lineAt(x, tx.A[0]); !ok || ii.key != x.Get("i") {
				x.Violate("origin text", e.Pos(), "the text of a line changes when it takes its origin")
			}
		} else {
			x.Violate("origin text", e.Pos(), "the text of a line changes when it takes its origin")
		}
		x.Set("took", "1")
	}
	endLine := func(x *X, e *Event) {
		if x.Get("i") == "" {
			return
		}
		if x.Get("hit") == "1" && x.Get("took") != "1" {
			x.Violate("origin lost", e.Pos(), "a line that is not new relative to a parent does not take the commit it has in the view of that parent")
		}
		if x.Get("hit") == "" && x.Get("allParents") != "1" {
			x.Violate("parents skipped", e.Pos(), "a line is left to the merge commit before all parents were tried")
		}
		for _, k := range []string{"i", "hit", "took", "allParents", "pend"} {
			x.Set(k, "")
		}
		x.Untag("hit")
	}
	r.OnEvent = func(x *X, e *Event) {
		parents, diffs, commit := x.ParamTerm(0), x.ParamTerm(1), x.ParamTerm(2)
		switch e.Kind {
		case EvIter:
			coll := e.Coll
			if coll.Op == "mslice" && coll.A[0].Op == "len" {
				coll = coll.A[0].A[0] // as many as there are lines
			}
			if j, ok := viewLines(x, coll); ok && (e.IKind == "slice" || e.IKind == "back" || e.IKind == "part") {
				if j.IsConst() && j.S != "0" || !j.IsConst() {
					// any view has the same number of lines
				}
				lineLoops[e.Ins] = true
				endLine(x, e)
				if e.IKind == "part" {
					x.Violate("line loop", e.Pos(), "not every line of a merged file is given its origin")
				}
				hdr := fmt.Sprintf("%s.%d", fnName(e.Ins.Parent()), e.Ins.Block().Index)
				if x.Get("oloop") != hdr {
					x.Untag("out:got")
					x.Untag("out:prog")
					x.Set("ofirst", "1")
					x.Set("oempty", map[bool]string{true: "", false: "1"}[e.Taken])
				} else {
					x.Set("ofirst", "")
				}
				x.Set("oloop", map[bool]string{true: hdr, false: ""}[e.Taken])
				x.Untag("out:prog")
				for _, t := range x.Tagged("out:got") {
					if e.Taken {
						x.Tag("out:prog", t)
					} else {
						x.Tag("out:full", t)
					}
				}
				x.Untag("out:got")
				if e.Taken {
					x.Set("i", e.Elem.key)
				} else {
					x.Set("linesDone", "1")
				}
				return
			}
			over := e.Coll == parents || e.Coll == diffs || x.HasTag("views", e.Coll)
			if !over || e.IKind == "map" {
				return
			}
			if x.Get("i") != "" {
				if e.IKind != "slice" {
					x.Violate("parent order", e.Pos(), "the parents of a merge are not tried in order")
				}
				if x.Get("hit") == "1" {
					x.Violate("not the first parent", e.Pos(), "a later parent is tried although a line was found not to be new relative to an earlier one")
				}
				if x.Get("pend") == "1" {
					x.Violate("parent not tried", e.Pos(), "a line is not compared with the view of each parent")
				}
				if e.Taken {
					x.Set("pend", "1")
					x.Retag("j", e.Elem)
				} else {
					x.Set("allParents", "1")
					x.Set("pend", "")
				}
				return
			}
			// loops that build or check the views
			if x.Get("view") == "1" && x.Get("added") != "1" {
				x.Violate("view lost", e.Pos(), "the view of a parent is not kept")
			}
			if x.Get("building") == "open" && x.Get("view") == "" {
				// a loop without Apply: a check
				x.Set("building", "")
			}
			if x.Get("len") == "0" {
				x.Set("lenBad", "1")
			}
			x.Set("view", "")
			x.Set("added", "")
			if e.Taken {
				x.Set("building", "open")
				x.Retag("b", e.Elem)
				x.Set("len", "0")
			} else {
				if x.Get("built") == "1" && e.IKind == "slice" {
					x.Set("viewsDone", "1")
				}
				if x.Get("lenBad") != "1" && (x.Get("viewsDone") == "1") {
					x.Set("lenOK", "1")
				}
				x.Set("lenBad", "")
				x.Set("len", "")
				x.Set("building", "")
			}
		case EvCall:
			if e.Name == "builtin.copy" {
				d := e.Args[0]
				if j, ok := viewLines(x, e.Args[1]); ok && j.IsConst() && j.S == "0" && d.Op == "mslice" && d.A[0].Op == "len" {
					if _, ok := viewLines(x, d.A[0].A[0]); ok {
						x.Tag("copy0", d)
					}
				}
			}
			if applyName(e.Name) == "Apply" {
				views[e.Ins] = true
				a, d := e.Args[0], e.Args[1]
				idx := func(t, coll *Term) *Term {
					if t.Op == "ld" {
						t = t.A[0]
					}
					if (t.Op == "el" || t.Op == "ia") && t.A[0] == coll {
						return t.A[1]
					}
					return nil
				}
				pi, di := idx(a, parents), idx(d, diffs)
				if pi == nil || pi != di || !x.HasTag("b", pi) {
					x.Violate("view pairing", e.Pos(), "the patch applied to the version of a parent is not the one against that parent")
				}
				if e.Args[2] != commit {
					x.Violate("view commit", e.Pos(), "the view of a parent is computed under another commit")
				}
				x.Set("view", "1")
				x.Retag("view", e.Res)
			}
		case EvAppend:
			if el := elemOfSlice(e.Ins.(ssa.Value).Type()); el != nil && isLinePtr(el) {
				if j, ok := viewLines(x, e.Args[1]); ok && j.IsConst() && j.S == "0" && x.freshList(e.Args[0]) {
					x.Tag("copy0", e.Res)
					return
				}
				l, ok := x.Elems(e.Args[1])
				if x.Get("i") == "" || !ok || len(l) != 1 || !(x.HasTag("out:prog", e.Args[0]) || x.Get("ofirst") == "1" && x.freshList(e.Args[0])) {
					x.Violate("lines added", e.Pos(), "a line is added to a list of which it is not known that it has one for every line of the merged file")
					return
				}
				takes[e.Ins] = true
				lineValue(x, e, l[0])
				x.Untag("out:prog")
				x.Tag("out:got", e.Res)
				return
			}
			if c, ok := e.Ins.(ssa.CallInstruction); ok && isBlames(c.Common().Args[0].Type()) {
				el, ok := x.Elems(e.Args[1])
				if !ok || len(el) != 1 || !x.HasTag("view", el[0]) {
					x.Violate("view value", e.Pos(), "a view is recorded that is not the patched version of a parent")
					return
				}
				if x.Get("built") == "" {
					if !x.freshList(e.Args[0]) {
						x.Violate("view base", e.Pos(), "the list of views does not start empty")
					}
				} else if !x.HasTag("views", e.Args[0]) {
					x.Violate("view base", e.Pos(), "views of earlier parents are dropped")
				}
				x.Set("built", "1")
				x.Set("added", "1")
				x.Retag("views", e.Res)
			}
		case EvBranch:
			t := e.Cond
			if t.Op != "eq" {
				return
			}
			a, b := t.A[0], t.A[1]
			// len(view[j].Lines) == len(view[0].Lines)
			if a.Op == "len" && b.Op == "len" {
				_, ok1 := viewLines(x, a.A[0])
				_, ok2 := viewLines(x, b.A[0])
				if (ok1 || x.viewField(a.A[0])) && (ok2 || x.viewField(b.A[0])) && e.Taken {
					x.Set("len", "1")
				}
				return
			}
			if b != commit {
				a, b = b, a
			}
			if b == commit && a.Op == "f" && a.S == "Commit" {
				dbg("cmp", a, x.Tagged("j"), x.Tagged("views"), x.St.auto)
				j, i, ok := lineAt(x, a.A[0])
				if !ok || i.key != x.Get("i") || !x.HasTag("j", j) {
					return
				}
				x.Set("pend", "")
				if !e.Taken {
					x.Set("hit", "1")
					x.Retag("hit", a)
				}
			}
		case EvStore:
			if e.Addr.Op != "ia" || !isLinePtr(storeType(e)) || e.Addr.A[0].Op == "new" {
				return
			}
			takes[e.Ins] = true
			if b := e.Addr.A[0]; b.Op == "mslice" && b.A[0].Op == "len" && !x.HasTag("copy0", b) {
				// a list filled in place
				if _, ok := viewLines(x, b.A[0].A[0]); ok && x.Get("i") != "" && e.Addr.A[1].key == x.Get("i") && (x.HasTag("out:prog", b) || x.HasTag("out:got", b) || x.Get("ofirst") == "1") {
					if x.Get("hit") == "1" || x.Get("allParents") == "1" {
						lineValue(x, e, e.Val)
						x.Untag("out:prog")
						x.Tag("out:got", b)
						return
					}
					if jj, ii, ok := lineAt(x, e.Val); ok && ii.key == x.Get("i") && jj.IsConst() && jj.S == "0" {
						// until a parent is found that has it
						x.Untag("out:prog")
						x.Tag("out:got", b)
						return
					}
				}
			}
			j, ok := viewLines(x, e.Addr.A[0])
			if !ok || e.Addr.A[1].key != x.Get("i") || !(j.IsConst() && j.S == "0") {
				x.Violate("line target", e.Pos(), "the origin of a line is stored for another line")
				return
			}
			if x.Get("hit") != "1" {
				dbg("origin", x.St.auto, x.Tagged("j"), x.Tagged("views"))
				x.Violate("origin without match", e.Pos(), "a line takes another commit although no parent has it")
				return
			}
			lineValue(x, e, e.Val)
		case EvReturn:
			if x.Get("viewsDone") != "1" {
				x.Violate("views missing", e.Pos(), "ApplyMerge can finish without applying the patch of every parent")
			}
			if x.Get("lenOK") != "1" {
				x.Violate("views not compared", e.Pos(), "ApplyMerge can finish without checking that all views have the same number of lines")
			}
			if x.Get("linesDone") != "1" || x.Get("i") != "" {
				x.Violate("lines skipped", e.Pos(), "ApplyMerge can finish before every line was given its origin")
			}
			v := e.Args[0]
			if v.Op == "ld" {
				v = v.A[0]
			}
			if ls := unwrapConv(x.ts.Field(v, "Lines")); v.Op == "st" && x.ts.Field(v, "Commit") == x.ParamTerm(2) {
				j, ok := viewLines(x, ls)
				if ok && j.IsConst() && j.S == "0" || x.HasTag("out:full", ls) || x.Get("oempty") == "1" && (x.freshList(ls) || zeroTerm(ls) || ls.Op == "mslice") {
					return
				}
			}
			if !(v.Op == "el" && x.HasTag("views", v.A[0]) && v.A[1].IsConst() && v.A[1].S == "0") {
				dbg("C05 result", v, x.ts.Field(v, "Lines"), x.ts.Field(v, "Commit"), x.Tagged("out:full"), x.Get("oempty"))
				x.Violate("result", e.Pos(), "the result of a merge is not the view of its first parent with the origins filled in")
			}
		}
	}
	c.Sim("ApplyMerge", fn, r, nil)
	for n, m := range map[string]map[ssa.Instruction]bool{"Apply calls": views, "loops over lines": lineLoops, "origins taken": takes} {
		c.Count(n+" in ApplyMerge", len(m))
		c.Min(n+" in ApplyMerge", 1)
	}
}

// viewField: t is the Lines field of the view computed in this iteration.
func (x *X) viewField(t *Term) bool {
	return t.Op == "f" && t.S == "Lines" && x.HasTag("view", t.A[0])
}
