package main

import (
	"golang.org/x/tools/go/ssa"
)

// c08Shared: an error that goroutines leave in a captured variable is not overwritten by a later success.
func c08Shared(c *Ctx) {
	for _, f := range c.p.Fns {
		if !libPkg(fnPkgPath(f)) || c.unusedType(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				g, ok := ins.(*ssa.Go)
				if !ok {
					continue
				}
				fn := g.Call.StaticCallee()
				if fn == nil || fn.Parent() == nil || len(fn.FreeVars) == 0 || !c.p.FnInScope(fn) {
					continue
				}
				c.sharedErr(fn, inLoopBlock(b))
			}
		}
	}
}

// inLoopBlock: control can come back to the block.
func inLoopBlock(b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	work := append([]*ssa.BasicBlock(nil), b.Succs...)
	for len(work) > 0 {
		x := work[len(work)-1]
		work = work[:len(work)-1]
		if x == b {
			return true
		}
		if seen[x] {
			continue
		}
		seen[x] = true
		work = append(work, x.Succs...)
	}
	return false
}

func (c *Ctx) sharedErr(fn *ssa.Function, many bool) {
	r := &Rule{Name: "shared error", MaxState: 60000}
	r.Inline = func(x *X, f *ssa.Function, call ssa.CallInstruction) bool {
		return fnPkgPath(f) == fnPkgPath(fn) && (f.Parent() != nil || sharedErrFn(c.p, f))
	}
	shared := func(t *Term) bool { return t.Has(func(t *Term) bool { return t.Op == "free" }) }
	r.OnEvent = func(x *X, e *Event) {
		switch e.Kind {
		case EvCall:
			if e.Name == "(*sync.Mutex).Unlock" || e.Name == "(*sync.RWMutex).Unlock" || e.Name == "(*sync.Mutex).Lock" || e.Name == "(*sync.RWMutex).Lock" {
				x.Untag("checked") // others can have left an error since
			}
		case EvBranch:
			if e.Cond.Op == "isnil" && e.Taken && shared(e.Cond.A[0]) {
				x.Tag("checked", e.Cond.A[0])
			}
		case EvStore:
			t := storeType(e)
			if !isErrType(t) || !shared(e.Addr) {
				return
			}
			c.Count("errors left by goroutines", 1)
			isNil, known := x.IsNil(e.Val)
			fails := known && !isNil
			cur := x.Load(e.Addr, t)
			none, ok := x.IsNil(cur)
			none = ok && none && (!many || x.HasTag("checked", cur))
			if !fails && !none && (many || x.Get("set:"+e.Addr.key) != "") {
				x.Violate("overwritten", e.Pos(), "an error that was left for the caller can be replaced by the success of a later step")
			}
			x.Set("set:"+e.Addr.key, "1")
		}
	}
	c.Sim("goroutine "+fnName(fn), fn, r, nil)
}
