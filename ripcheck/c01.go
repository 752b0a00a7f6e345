package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C01", "Property simulation (path-sensitive dataflow over the SSA form, helpers inlined) of the log parser, "+
		"the history processor and every forwarding function: each commit line starts a commit only after the previous one was sent; "+
		"each line of an open patch is kept; the pending commit and pending merge parts are flushed before the next commit and at the end; "+
		"each received value is forwarded unchanged exactly once before the next one. The git command of the log, enumerated for every combination of options, asks for every commit of the prescribed revisions once, parents first, with one diff per parent.", runC01)
}

func runC01(c *Ctx) {
	c01Parser(c)
	c01Grammar(c)
	c01Process(c)
	c01Forward(c)
	logs := c.gitLogs()
	c.checkPatchFlags(logs)
	c.checkRevisions(logs, "patches")
	c.Min("patch log requests", 1)
}

// rootedAt reports whether an address lies inside the object base points to.
func rootedAt(a, base *Term) bool { return rootOf(a) == base }

func c01Parser(c *Ctx) {
	fn := c.Must("ripsrc/history3/process/parser", "Parser.Run")
	if fn == nil {
		return
	}
	commitT := mp("ripsrc/history3/process/parser") + ".Commit"
	sends, starts, lines := map[ssa.Instruction]bool{}, map[ssa.Instruction]bool{}, map[ssa.Instruction]bool{}
	r := &Rule{Name: "parser", NoLoads: true}
	endLine := func(x *X, e *Event) {
		switch x.Get("line") {
		case "", "ok", "ended":
		case "kept":
			if x.Get("nl") != "1" {
				x.Violate("patch line end", e.Pos(), "a patch line is kept without the newline that ends it")
			}
		case "open":
			if x.Get("ldiff") == "1" {
				x.Violate("patch line dropped", e.Pos(), "a line read while a patch is open is neither kept in the patch nor an empty line that ends the commit")
			} else if x.Get("author") == "" && x.Get("pend") == "1" {
				x.Set("author", "1")
			} else {
				x.Violate("line dropped", e.Pos(), "a non-empty, unindented line outside a patch is ignored although it is neither a merge nor an author header")
			}
		}
		x.Set("line", "")
	}
	hashStart := func(x *X, e *Event, hash *Term, val *Term) {
		if hash.IsConst() {
			if v, ok := x.IsEmpty(hash); ok && v {
				if x.Get("pend") == "1" {
					x.Violate("commit reset", e.Pos(), "the commit being collected is cleared before it was sent")
				}
				return
			}
		}
		starts[e.Ins] = true
		if x.Get("pend") == "1" {
			x.Violate("commit overwritten", e.Pos(), "a new commit line overwrites the commit being collected before it was sent")
		}
		if x.Get("diff") == "1" {
			x.Violate("patch lost at commit", e.Pos(), "a new commit starts while a patch of the previous one is still open")
		}
		x.Set("pend", "1")
		x.Set("author", "")
		if val == nil && x.Get("dirty") == "1" {
			x.Set("stale", "1")
		}
		if hash.Has(isLine) {
			x.Set("line", "ok")
		} else {
			x.Violate("hash source", e.Pos(), "the hash of a commit does not come from the commit line")
		}
	}
	r.OnEvent = func(x *X, e *Event) {
		p0 := x.ParamTerm(0)
		switch e.Kind {
		case EvIter:
			if e.IKind != "scan" {
				return
			}
			lines[e.Ins] = true
			if !e.Taken && x.Get("line") == "ended" {
				// assumption: git's output does not end with an empty line after a patch
				x.Stop()
				return
			}
			endLine(x, e)
			if e.Taken {
				x.Set("line", "open")
				x.Set("ldiff", x.Get("diff"))
			}
		case EvBranch:
			if !e.Taken || x.Get("line") != "open" {
				return
			}
			if e.Cond.Op == "empty" && isLine(e.Cond.A[0]) {
				x.Set("line", "ok")
				if x.Get("ldiff") == "1" {
					x.Set("line", "ended")
				}
			} else if l, pre, ok := linePrefix(e.Cond); ok && isLine(l) && x.Get("ldiff") != "1" {
				if pre == " " || pre == "Merge: " {
					x.Set("line", "ok")
				}
			}
		case EvStore:
			if !rootedAt(e.Addr, p0) || e.Addr == p0 {
				return
			}
			t := storeType(e)
			switch {
			case isNamed(t, commitT):
				if _, isPtr := types.Unalias(t).(*types.Pointer); isPtr {
					break
				}
				h := x.ts.Field(e.Val, "Hash")
				ch := x.ts.Field(e.Val, "Changes")
				if h.Op == "f" && h.A[0].Op == "zero" {
					h = x.ts.StrConst("")
				}
				hashStart(x, e, h, e.Val)
				if v, ok := x.IsEmpty(ch); !(ok && v) && !(ch.Op == "f" && ch.A[0].Op == "zero") {
					x.Violate("changes not reset", e.Pos(), "a new commit starts with patches of another commit")
				}
				x.Set("dirty", "")
				x.Set("stale", "")
			case e.Addr.Op == "fa" && e.Addr.S == "Hash" && e.Addr.T != nil && isNamed(e.Addr.T, commitT):
				hashStart(x, e, e.Val, nil)
			case e.Addr.Op == "fa" && e.Addr.S == "Changes" && e.Addr.T != nil && isNamed(e.Addr.T, commitT):
				cur := x.Load(e.Addr, t)
				if v, ok := x.IsEmpty(e.Val); ok && v {
					x.Set("dirty", "")
					x.Set("stale", "")
					return
				}
				x.Set("dirty", "1")
				base, parts := flattenApp(e.Val, cur)
				if base != cur {
					x.Violate("changes replaced", e.Pos(), "the list of patches of a commit is replaced instead of extended")
				}
				for _, p := range parts {
					el, ok := x.Elems(p)
					if !ok {
						x.Violate("changes value", e.Pos(), "cannot tell which patch is added to the commit")
						return
					}
					for _, y := range el {
						d := x.ts.Field(y, "Diff")
						if x.Get("diff") != "1" {
							x.Violate("patch repeated", e.Pos(), "a patch is added to the commit although none is open")
						}
						found := false
						for _, cl := range x.St.mem {
							if cl.addr.Op == "fa" && rootedAt(cl.addr, p0) && cl.val == d {
								found = true
							}
						}
						if !found {
							x.Violate("patch content", e.Pos(), "the patch added to the commit is not the collected text")
						}
						x.Set("diff", "")
					}
				}
			case isByteSlice(t):
				cur := x.Load(e.Addr, t)
				base, parts := flattenApp(e.Val, cur)
				if base != cur {
					if !x.freshList(base) {
						if len(parts) == 0 && isLine(base) {
							x.Violate("line aliased", e.Pos(), "the patch buffer is the scanner's buffer itself")
						} else if base.Op != "new" && !(base.Op == "mslice") {
							x.Violate("patch buffer", e.Pos(), "the collected patch text is replaced by something else")
						}
					}
					if x.Get("diff") == "1" {
						x.Violate("patch lost", e.Pos(), "the collected text of an open patch is discarded before it was added to the commit")
					}
				}
				for _, p := range parts {
					if isLine(p) {
						if x.Get("diff") == "1" && x.Get("ldiff") == "" {
							// second part of the first line: nothing
						}
						x.Set("diff", "1")
						x.Set("line", "kept")
						x.Set("nl", "")
						if x.Get("pend") != "1" {
							x.Violate("patch without commit", e.Pos(), "patch text is collected while no commit is open")
						}
					} else if s, ok := x.bytesConst(p); ok && s == "\n" {
						x.Set("nl", "1")
					} else {
						x.Violate("patch text", e.Pos(), "text that is not the current line is added to the patch")
					}
				}
			}
		case EvSend:
			if !isNamed(storeType(e), commitT) {
				return
			}
			sends[e.Ins] = true
			if e.Ch != x.ParamTerm(1) {
				x.Violate("send channel", e.Pos(), "a commit is sent on another channel than the result channel")
			}
			if x.Get("pend") != "1" {
				x.Violate("commit repeated", e.Pos(), "a commit is sent although none was started since the last send")
			}
			if x.Get("diff") == "1" {
				x.Violate("patch lost at send", e.Pos(), "a commit is sent while its last patch was not added to it")
			}
			if x.Get("stale") == "1" {
				x.Violate("changes kept", e.Pos(), "a commit is sent with patches of the commit before it")
			}
			found := false
			for _, cl := range x.St.mem {
				if cl.addr.Op == "fa" && rootedAt(cl.addr, p0) && cl.addr.A[0] == p0 && x.Load(cl.addr, storeType(e)) == e.Val {
					found = true
				}
				if cl.addr.Op == "fa" && cl.addr.A[0].Op == "fa" && x.Load(cl.addr.A[0], storeType(e)) == e.Val {
					found = true
				}
			}
			if !found {
				x.Violate("commit value", e.Pos(), "the value sent is not the commit that was collected")
			}
			x.Set("pend", "")
		case EvReturn:
			if nn, known := errKnown(x, e); known && nn {
				return
			}
			if x.Get("pend") == "1" {
				x.Violate("last commit lost", e.Pos(), "the parser can finish without error while the last commit was not sent")
			}
		}
	}
	c.Sim("log parser", fn, r, nil)
	c.Count("commit sends of the log parser", len(sends))
	c.Min("commit sends of the log parser", 1)
	c.Count("commit starts of the log parser", len(starts))
	c.Min("commit starts of the log parser", 1)
	c.Count("line loops of the log parser", len(lines))
	c.Min("line loops of the log parser", 1)
}

const (
	processPkg = "ripsrc/history3/process"
	parserPkg  = "ripsrc/history3/process/parser"
	blamePkg   = "ripsrc/history3/incblame"
	repoPkg    = "ripsrc/history3/process/repo"
)

// derivedFrom: v is the received value r itself or a copy with other fields replaced.
func derivedFrom(v, r *Term) bool {
	for v.Op == "st" {
		v = v.A[0]
	}
	return v == r
}

func isPartsMap(t types.Type) bool {
	m, ok := types.Unalias(t).Underlying().(*types.Map)
	return ok && isNamed(m.Elem(), mp(parserPkg)+".Commit")
}

// c01Process: every commit received from the log parser is either reported itself or collected as a part of a
// merge that is reported before the next commit and before a successful return.
func c01Process(c *Ctx) {
	fn := c.Must(processPkg, "Process.Run")
	if fn == nil {
		return
	}
	commitT, resultT := mp(parserPkg)+".Commit", mp(processPkg)+".Result"
	sends, recvs, parts := map[ssa.Instruction]bool{}, map[ssa.Instruction]bool{}, map[ssa.Instruction]bool{}
	producers := map[*ssa.Function]bool{}
	partFields := map[string]bool{}
	if st := structOf(c.p.SPkgs[mp(processPkg)].Type("Process").Type()); st != nil {
		for i := 0; i < st.NumFields(); i++ {
			if isPartsMap(st.Field(i).Type()) {
				partFields[st.Field(i).Name()] = true
			}
		}
	}
	r := &Rule{Name: "process", NoLoads: true}
	r.Inline = func(x *X, f *ssa.Function, call ssa.CallInstruction) bool {
		return c.p.transitively(f, isChanOp) && fnPkgPath(f) == mp(processPkg)
	}
	r.Init = func(x *X) {
		for f := range partFields {
			a := x.ts.mk("fa", f, "", x.ParamTerm(0))
			a.T = types.NewPointer(c.p.SPkgs[mp(processPkg)].Type("Process").Type())
			x.St.mem[a.key] = cell{a, x.ts.Nil()}
		}
	}
	fields := func(x *X) (out []string) {
		for k := range x.St.auto {
			if strings.HasPrefix(k, "hf:") {
				out = append(out, k)
			}
		}
		return
	}
	cur := func(x *X, t *Term) bool { // t is (a copy of) the commit received last
		return t.Has(func(y *Term) bool { return y.Op == "recv" }) && derivedFrom(t, x.baseOf(t))
	}
	lost := func(x *X, what string) {
		if x.Get("lost") == "" {
			x.Set("lost", what)
		}
	}
	r.OnEvent = func(x *X, e *Event) {
		p0 := x.ParamTerm(0)
		switch e.Kind {
		case EvIter:
			if e.IKind != "chan" || !isNamed(chanElem(e.Coll), commitT) {
				return
			}
			if !e.Taken { // closed: nothing more is ever received from it
				x.Set("eof:"+e.Coll.key, "1")
			}
			if e.Taken {
				if x.Get("eof:"+e.Coll.key) == "1" {
					x.Stop()
					return
				}
				recvs[e.Ins] = true
				if x.Get("got") == "1" {
					lost(x, "a commit received from the log parser is neither reported nor kept as a merge part")
				}
				if x.Get("parts") == "called" {
					lost(x, "the result of a merge is not sent")
				}
				x.Set("got", "1")
				if x.Get("parts") == "" {
					for _, k := range fields(x) {
						x.Set(k, "")
					}
				}
			}
		case EvMapSet:
			if !isPartsMap(e.Map.staticType(e)) {
				return
			}
			parts[e.Ins] = true
			if !cur(x, e.Val) {
				x.Violate("part value", e.Pos(), "a merge part is not the received commit")
				return
			}
			rc := x.baseOf(e.Val)
			if e.Key != x.ts.Field(rc, "MergeDiffFrom") {
				x.Violate("part key", e.Pos(), "a merge part is stored under another key than the parent it was compared with")
			}
			x.Set("got", "")
			if x.Get("parts") == "1" {
				same := false
				h := x.ts.Field(rc, "Hash")
				for _, f := range x.St.facts {
					if f.v && f.t.Op == "eq" && (f.t.A[0] == h || f.t.A[1] == h) && !f.t.A[1].IsConst() {
						same = true
					}
				}
				if !same {
					x.Violate("parts mixed", e.Pos(), "a commit is added to the parts of a merge that is not known to be the same commit")
				}
			} else {
				if v, ok := x.IsEmpty(e.Map); !(ok && v) {
					x.Violate("parts left over", e.Pos(), "the parts of a new merge are added to parts of an earlier one")
				}
				x.Set("parts", "1")
			}
		case EvStore:
			if !rootedAt(e.Addr, p0) {
				return
			}
			t := storeType(e)
			if isPartsMap(t) {
				if x.Get("parts") == "1" {
					lost(x, "the parts of a merge are dropped before the merge was processed")
					x.Set("parts", "")
				}
				if v, ok := x.IsEmpty(e.Val); !(ok && v) {
					x.Violate("parts reset", e.Pos(), "the merge parts are replaced by a map that may not be empty")
				}
			}
			if b, ok := types.Unalias(t).Underlying().(*types.Basic); ok && b.Kind() == types.String {
				k := "hf:" + e.Addr.key
				if e.Val.Op == "f" && e.Val.S == "Hash" && cur(x, e.Val.A[0]) && x.Get("parts") == "" {
					x.Set(k, "1")
				} else {
					x.Set(k, "")
				}
			}
		case EvCall:
			if e.Fn == nil || e.Fn.Signature.Results().Len() == 0 || !isNamed(e.Fn.Signature.Results().At(0).Type(), resultT) {
				return
			}
			producers[e.Fn] = true
			for _, a := range e.Args {
				if cur(x, a) {
					n := x.ts.mk("len", "", "", x.ts.Field(a, "Parents"))
					if lo, _, ok, _ := x.ts.bounds(n, x.St.facts); ok && lo > 1 {
						x.Violate("merge as regular commit", e.Pos(), "a commit known to have more than one parent is processed as a commit with one")
					}
				}
				if a.T != nil && isPartsMap(a.T) || x.isPartsTerm(a, partFields) {
					ok := false
					for _, b := range e.Args {
						for _, k := range fields(x) {
							if cl, has := x.St.mem[k[3:]]; has && cl.val == b {
								ok = true
							}
						}
						if b.Op == "f" && b.S == "Hash" {
							ok = true
						}
					}
					if !ok && x.Get("parts") == "1" {
						x.Violate("merge hash", e.Pos(), "a merge is processed under a hash that is not the hash of its parts")
					}
					if x.Get("parts") == "1" {
						x.Set("parts", "called")
					}
				}
			}
		case EvSend:
			if !isNamed(storeType(e), resultT) {
				return
			}
			sends[e.Ins] = true
			if e.Ch != x.ParamTerm(1) {
				x.Violate("send channel", e.Pos(), "a result is sent on another channel than the result channel")
			}
			v := e.Val
			for v.Op == "st" {
				v = v.A[0]
			}
			if !(v.Op == "x" && v.S == "0" && v.A[0].Op == "call") && v.Op != "call" {
				x.Violate("result value", e.Pos(), "the value sent is not the result of processing a commit")
				return
			}
			call := v
			if v.Op == "x" {
				call = v.A[0]
			}
			merge, regular := false, false
			for _, a := range call.A {
				if x.isPartsTerm(a, partFields) || a.Op == "old" || a.Op == "mmap" {
					merge = true
				} else if cur(x, a) {
					regular = true
				}
			}
			switch {
			case regular:
				if x.Get("got") != "1" {
					x.Violate("result repeated", e.Pos(), "a commit is reported although it was reported or kept as a merge part before")
				}
				if x.Get("parts") != "" {
					x.Violate("result order", e.Pos(), "a commit is reported before the pending merge that precedes it in the log")
				}
				x.Set("got", "")
			case merge:
				if x.Get("parts") != "called" {
					x.Violate("merge repeated", e.Pos(), "a merge result is sent although no merge was just processed")
				}
				x.Set("parts", "")
			default:
				x.Violate("result source", e.Pos(), "the result sent belongs neither to the received commit nor to the pending merge")
			}
		case EvReturn:
			if nn, known := errKnown(x, e); known && nn {
				return
			}
			if x.Get("got") == "1" {
				lost(x, "a commit received from the log parser is neither reported nor kept as a merge part")
			}
			if x.Get("parts") == "1" {
				lost(x, "the parts of a merge were collected but the merge was not processed")
			}
			if x.Get("parts") == "called" {
				lost(x, "the result of a merge is not sent")
			}
			if w := x.Get("lost"); w != "" {
				x.Violate("commit lost: "+w, e.Pos(), "processing can end without error although "+w)
			}
		}
	}
	c.Sim("history processor", fn, r, nil)
	c.Count("result sends of the history processor", len(sends))
	c.Min("result sends of the history processor", 1)
	c.Count("receives of the history processor", len(recvs))
	c.Min("receives of the history processor", 1)
	c.Count("merge part stores", len(parts))
	c.Min("merge part stores", 1)
	c.Count("functions producing results", len(producers))
	c.Min("functions producing results", 1)
	for f := range producers {
		c01Producer(c, f)
	}
}

// c01Producer: a function that produces the result of a commit labels it with that commit's hash.
func c01Producer(c *Ctx, fn *ssa.Function) {
	n := 0
	r := &Rule{Name: "producer", NoLoads: true, Inline: func(x *X, f *ssa.Function, call ssa.CallInstruction) bool { return false }}
	r.OnEvent = func(x *X, e *Event) {
		if e.Kind != EvReturn {
			return
		}
		if nn, known := errKnown(x, e); known && nn {
			return
		}
		n++
		h := x.ts.Field(e.Args[0], "Commit")
		ok := h.Op == "f" && h.S == "Hash" && h.A[0].Op == "param" || h.Op == "param"
		if !ok {
			x.Violate(fnName(fn)+" label", e.Pos(), "the result of a commit is not labelled with the hash of that commit")
		}
	}
	c.Sim("result label", fn, r, nil)
	c.Count("returns of functions producing results", n)
}
