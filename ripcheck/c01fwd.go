package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// itemTypes are the record types that travel through channels to the caller.
var itemTypes = map[string]bool{}

func init() {
	for _, t := range []string{"ripsrc/commitmeta.Commit", "ripsrc.BlameResult", "ripsrc.CommitCode", "ripsrc/history3/process.Result", "ripsrc/branches2.Branch", "ripsrc/history3/process/parser.Commit", "ripsrc/branches2.nameAndHash"} {
		itemTypes[mp(t)] = true
	}
}

func itemType(t types.Type) string {
	n := namedOf(t)
	if n == nil || n.Obj().Pkg() == nil {
		return ""
	}
	k := n.Obj().Pkg().Path() + "." + n.Obj().Name()
	if itemTypes[k] {
		return k
	}
	return ""
}

func libraryFn(fn *ssa.Function) bool {
	p := fnPkgPath(fn)
	return !strings.HasPrefix(p, mp("ripsrc/cmd")) && !strings.HasPrefix(p, mp("cmd")) && p != modPath
}

func outermost(fn *ssa.Function) *ssa.Function {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	return fn
}

func exportedFn(fn *ssa.Function) bool {
	return fn.Object() != nil && fn.Object().Exported() && fn.Parent() == nil
}

// streamRoots are the exported library functions that receive records of the given types, themselves or through
// unexported helpers.
func (p *Prog) streamRoots(want func(elem types.Type) bool) []*ssa.Function {
	hit := map[*ssa.Function]bool{}
	for _, fn := range p.Fns {
		if !libraryFn(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				u, ok := ins.(*ssa.UnOp)
				if !ok || u.Op != token.ARROW {
					continue
				}
				c, ok := types.Unalias(u.X.Type()).Underlying().(*types.Chan)
				if ok && want(c.Elem()) {
					hit[outermost(fn)] = true
				}
			}
		}
	}
	// climb from unexported functions to the functions that run them
	for ch := true; ch; {
		ch = false
		for _, fn := range p.Fns {
			o := outermost(fn)
			if hit[o] || !libraryFn(o) {
				continue
			}
			for _, b := range fn.Blocks {
				for _, ins := range b.Instrs {
					ci, ok := ins.(ssa.CallInstruction)
					if !ok {
						continue
					}
					for _, cal := range p.Callees(ci) {
						if co := outermost(cal); hit[co] && !exportedFn(co) && !hit[o] {
							hit[o] = true
							ch = true
						}
					}
				}
			}
		}
	}
	var out []*ssa.Function
	for _, fn := range p.Fns {
		if !hit[fn] || fn.Parent() != nil {
			continue
		}
		if exportedFn(fn) || len(p.Index().callers[fn]) == 0 {
			out = append(out, fn)
		}
	}
	return out
}

// c01Forward: every record received from an internal channel is passed on unchanged exactly once, in order.
func c01Forward(c *Ctx) {
	pt, pr := mp(parserPkg)+".Commit", mp(processPkg)
	roots := c.p.streamRoots(func(t types.Type) bool { return itemType(t) != "" })
	n := 0
	for _, root := range roots {
		if fnPkgPath(root) == pr && itemRecv(c.p, root, pt) {
			continue // the history processor has its own rule
		}
		n++
		c01ForwardRoot(c, root)
	}
	c.Count("functions that forward records", n)
	c.Min("functions that forward records", 8)
}

func itemRecv(p *Prog, root *ssa.Function, key string) bool {
	return p.transitively(root, func(f *ssa.Function, ins ssa.Instruction) bool {
		u, ok := ins.(*ssa.UnOp)
		if !ok || u.Op != token.ARROW || fnPkgPath(f) != fnPkgPath(root) {
			return false
		}
		ch, ok := types.Unalias(u.X.Type()).Underlying().(*types.Chan)
		return ok && itemType(ch.Elem()) == key
	})
}

func c01ForwardRoot(c *Ctx, root *ssa.Function) {
	name := "forward " + fnName(root)
	resultT := mp(processPkg) + ".Result"
	codeT := mp("ripsrc") + ".CommitCode"
	blameT := mp("ripsrc") + ".BlameResult"
	metaT := mp("ripsrc/commitmeta") + ".Commit"
	branchWork := mp("ripsrc/branches2") + ".nameAndHash"
	type acc struct {
		v   ssa.Value
		pos token.Pos
	}
	accs := map[ssa.Value]acc{}
	loops := map[ssa.Instruction]bool{}
	r := &Rule{Name: name, NoLoads: true}
	r.Inline = func(x *X, f *ssa.Function, call ssa.CallInstruction) bool {
		return !exportedFn(f) && (c.p.reachesChan(f) || sharedErrFn(c.p, f))
	}
	begin := func(x *X, e *Event, t string) {
		loops[e.Ins] = true
		switch x.Get("item:" + t) {
		case "held":
			x.Set("lost", "a "+short(t)+" that was received or produced is not passed on")
		}
		x.Set("item:"+t, "held")
	}
	done := func(x *X, e *Event, t string, what string) {
		if x.Get("item:"+t) != "held" {
			x.Violate("repeated "+short(t), e.Pos(), "the same "+short(t)+" is "+what+" more than once")
		}
		x.Set("item:"+t, "done")
	}
	isItem := func(x *X, t string, v *Term) bool {
		switch v.Op {
		case "recv":
			return true
		case "el":
			if v.A[0].Op == "x" && v.A[0].A[0].Op == "call" {
				return true
			}
		}
		return false
	}
	r.OnEvent = func(x *X, e *Event) {
		switch e.Kind {
		case EvGo:
			x.Fork(e, Auto{"go": "1"})
		case EvBranch:
			// another worker failed: the shared error makes the whole run fail
			if e.Cond.Op == "isnil" && !e.Taken && readsVar(e.Cond.A[0]) && x.Get("go") == "1" {
				x.Set("stop", "1")
			}
		case EvIter:
			t := ""
			switch e.IKind {
			case "chan":
				t = itemType(chanElemT(e))
			case "slice", "part", "back":
				if sl := sliceElemOf(e); sl != nil {
					t = itemType(sl)
				}
				if t != "" && (e.Coll.Op != "x" || e.Coll.A[0].Op != "call") {
					t = ""
				}
				if t != "" && e.IKind != "slice" {
					x.Violate("partial "+short(t), e.Pos(), "a loop over the "+short(t)+" records of a commit does not start at the first and advance by one")
				}
			}
			if t == "" {
				return
			}
			if e.Taken {
				begin(x, e, t)
				return
			}
			if x.Get("item:"+t) == "held" {
				x.Set("lost", "a "+short(t)+" that was received or produced is not passed on")
			}
			x.Set("item:"+t, "")
			if t == blameT && x.Get("item:"+codeT) == "held" && e.IKind == "chan" && e.Coll.Op == "f" && isItem(x, codeT, e.Coll.A[0]) {
				done(x, e, codeT, "passed on")
			}
			if t == blameT && e.IKind == "slice" && x.Get("files") == "sent" {
				x.Set("files", "done")
			}
		case EvSend:
			t := itemType(storeType(e))
			if t == "" {
				return
			}
			if t == codeT && x.Get("item:"+resultT) != "" {
				done(x, e, resultT, "passed on")
				cm := x.ts.Field(e.Val, "Commit")
				lkI, okc := cm.V.(*ssa.Lookup)
				if okc {
					m, isMap := types.Unalias(lkI.X.Type()).Underlying().(*types.Map)
					okc = cm.Op == "lk" && isMap && itemType(m.Elem()) == metaT
				}
				if okc {
					k := cm.A[1]
					okc = k.Op == "f" && k.S == "Commit" && isItem(x, resultT, k.A[0])
				}
				if !okc {
					x.Violate("commit of the record", e.Pos(), "the commit record does not carry the metadata looked up under the hash of the processed commit")
				}
				x.Set("blames", x.ts.Field(e.Val, "Blames").key)
				x.Set("files", "sent")
				return
			}
			if !isItem(x, t, e.Val) {
				if x.Get("item:"+t) != "" {
					x.Violate("changed "+short(t), e.Pos(), "the "+short(t)+" passed on is not the one received")
				}
				return
			}
			if t == blameT && e.Val.Op == "el" && x.Get("files") == "sent" {
				if e.Ch.key != x.Get("blames") {
					x.Violate("files of another commit", e.Pos(), "a file record is sent to a channel that is not the one of its commit record")
				}
			}
			done(x, e, t, "sent")
		case EvAppend:
			sl := e.Ins.(ssa.Value).Type()
			t := ""
			if st, ok := types.Unalias(sl).Underlying().(*types.Slice); ok {
				t = itemType(st.Elem())
			}
			if t == "" {
				return
			}
			el, ok := x.Elems(e.Args[1])
			if !ok || len(el) != 1 || !isItem(x, t, el[0]) {
				if x.Get("item:"+t) != "" {
					x.Violate("changed "+short(t), e.Pos(), "the "+short(t)+" collected is not the one received")
				}
				return
			}
			v := e.Ins.(ssa.Value)
			accs[v] = acc{v, e.Pos()}
			done(x, e, t, "collected")
		case EvMapSet:
			t := itemType(storeType(e))
			if t != metaT || x.Get("item:"+t) == "" {
				return
			}
			if !isItem(x, t, e.Val) || e.Key != x.ts.Field(e.Val, "SHA") {
				x.Violate("changed "+short(t), e.Pos(), "the record stored is not the one received, under its own hash")
				return
			}
			m := e.Ins.(*ssa.MapUpdate)
			accs[m.Map] = acc{m.Map, e.Pos()}
			done(x, e, t, "stored")
		case EvCall:
			// branch workers hand the item to the function that sends the record
			if x.Get("item:"+branchWork) == "held" {
				for _, a := range e.Args {
					if a.Op == "recv" && strings.HasPrefix(e.Name, "(*"+mp("ripsrc/branches2")) {
						done(x, e, branchWork, "processed")
					}
				}
			}
		case EvEnter:
			if x.Get("item:"+branchWork) == "held" && fnPkgPath(e.Fn) == mp("ripsrc/branches2") {
				for _, a := range e.Args {
					if a.Op == "recv" {
						done(x, e, branchWork, "processed")
					}
				}
			}
		case EvReturn:
			if len(e.Args) > 0 {
				if nn, known := errKnown(x, e); known && nn && lastIsErr(e.Fn) {
					return
				}
			}
			for k, v := range x.St.auto {
				if v == "held" && strings.HasPrefix(k, "item:") {
					x.Set("lost", "a "+short(k[5:])+" that was received or produced is not passed on")
				}
			}
			if w := x.Get("lost"); w != "" && !errLoaded(x, root) {
				x.Violate("dropped", e.Pos(), w)
			}
			if x.Get("files") == "sent" {
				x.Violate("files not sent", e.Pos(), "the file records of a commit are not all sent after its commit record")
			}
		}
	}
	c.Sim(name, root, r, nil)
	c.Count("record loops", len(loops))
	if len(loops) == 0 {
		c.Violate(name+": no loop", root.Pos(), "no loop over received records was recognised in %s", fnName(root))
	}
	for v, a := range accs {
		f := c.p.NewFlow()
		f.Containers = true
		f.Add(v, nil)
		if _, isMap := types.Unalias(v.Type()).Underlying().(*types.Map); isMap {
			// the map itself must be the one that is returned
			f.markContainer(v, v)
		}
		f.Run()
		if !f.Rets[root][0] {
			c.Violate(name+": collected records lost", a.pos, "the collected records do not flow to the result of %s", fnName(root))
		}
		if call, ok := v.(*ssa.Call); ok {
			if !f.Vals[call.Call.Args[0]] {
				c.Violate(name+": collection restarted", a.pos, "the list that a record is appended to is not the list collected so far")
			}
		}
		c.Count("collected lists", 1)
	}
}

// reachesChan: fn, or a function it is handed and runs, works on channels.
func (p *Prog) reachesChan(fn *ssa.Function) bool {
	return p.transitively(fn, func(f *ssa.Function, ins ssa.Instruction) bool {
		if isChanOp(f, ins) {
			return true
		}
		ci, ok := ins.(ssa.CallInstruction)
		if !ok || ci.Common().IsInvoke() || ci.Common().StaticCallee() != nil {
			return false
		}
		if _, ok := ci.Common().Value.(*ssa.Builtin); ok {
			return false
		}
		for _, g := range p.Callees(ci) {
			if g != fn && p.transitively(g, isChanOp) {
				return true
			}
		}
		return false
	})
}

// readsVar: t was read from a local variable or one of its fields.
func readsVar(t *Term) bool {
	n := 0
	for (t.Op == "ld" || t.Op == "f" || t.Op == "fa") && len(t.A) > 0 {
		t = t.A[0]
		n++
	}
	return n > 0 && t.Op == "new"
}

// sharedErrFn: a small function that reads or sets an error shared by goroutines.
func sharedErrFn(p *Prog, f *ssa.Function) bool {
	if len(f.Blocks) == 0 || len(f.Blocks) > 6 || f.Parent() == nil && f.Signature.Recv() == nil {
		return false
	}
	if !hasErrParam(f) && !(f.Signature.Results().Len() == 1 && lastIsErr(f)) {
		return false
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			if g := ci.Common().StaticCallee(); g == nil || !strings.HasPrefix(g.RelString(nil), "(*sync.") {
				return false
			}
		}
	}
	return true
}

// errLoaded: reserved for workers that stop because an error was recorded by another worker.
func errLoaded(x *X, root *ssa.Function) bool { return x.Get("stop") == "1" }

func short(t string) string {
	if i := strings.LastIndex(t, "/"); i >= 0 {
		return t[i+1:]
	}
	return t
}

// chanElemT is the element type of the channel an iteration reads.
func chanElemT(e *Event) types.Type {
	if i, ok := e.Ins.(*ssa.If); ok {
		if ex, ok := i.Cond.(*ssa.Extract); ok {
			if u, ok := ex.Tuple.(*ssa.UnOp); ok && u.Op == token.ARROW {
				if c, ok := types.Unalias(u.X.Type()).Underlying().(*types.Chan); ok {
					return c.Elem()
				}
			}
		}
	}
	return chanElem(e.Coll)
}

// sliceElemOf is the element type of the slice whose length an iteration compares with.
func sliceElemOf(e *Event) types.Type {
	i, ok := e.Ins.(*ssa.If)
	if !ok {
		return nil
	}
	var ops []*ssa.Value
	bo, ok := i.Cond.(*ssa.BinOp)
	if !ok {
		return nil
	}
	for _, o := range bo.Operands(ops) {
		v := *o
		if ph, ok := v.(*ssa.Phi); ok {
			_ = ph
		}
		if c, ok := v.(*ssa.Call); ok {
			if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
				if s, ok := types.Unalias(c.Call.Args[0].Type()).Underlying().(*types.Slice); ok {
					return s.Elem()
				}
			}
		}
	}
	return nil
}
