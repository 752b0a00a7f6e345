package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func isReadCloser(t types.Type) bool {
	return types.TypeString(types.Unalias(t), nil) == "io.ReadCloser"
}

func givesReader(f *ssa.Function) int {
	if f == nil || !inScopePkg(fnPkgPath(f)) {
		return -1
	}
	for i := 0; i < f.Signature.Results().Len(); i++ {
		if isReadCloser(f.Signature.Results().At(i).Type()) {
			return i
		}
	}
	return -1
}

// checkReaders: a reader of git output is closed on every way out of the function that uses it; otherwise the
// goroutine and the process that produce the output stay behind, and so does what is removed at the close.
func checkReaders(c *Ctx) {
	p := c.p
	for _, g := range p.Fns {
		if givesReader(g) >= 0 {
			continue
		}
		uses := false
		for _, b := range g.Blocks {
			for _, ins := range b.Instrs {
				if cl, ok := ins.(*ssa.Call); ok && givesReader(cl.Call.StaticCallee()) >= 0 {
					uses = true
				}
			}
		}
		if !uses {
			continue
		}
		c.Count("users of git output readers", 1)
		keys := map[ssa.Instruction]string{}
		nkey := map[string]int{}
		r := &Rule{Name: "readers", MaxState: 60000}
		r.Inline = func(x *X, fn *ssa.Function, call ssa.CallInstruction) bool {
			return fn.Parent() != nil && givesReader(fn) < 0 || p.transitively(fn, func(_ *ssa.Function, ins ssa.Instruction) bool {
				ci, ok := ins.(ssa.CallInstruction)
				return ok && ci.Common().IsInvoke() && ci.Common().Method.Name() == "Close"
			}) && givesReader(fn) < 0
		}
		open := func(x *X, t *Term) (ks []string) {
			for k := range x.St.auto {
				if strings.HasPrefix(k, "o:") && x.HasTag(k, t) {
					ks = append(ks, k)
				}
			}
			return
		}
		r.OnEvent = func(x *X, e *Event) {
			switch e.Kind {
			case EvCall:
				if i := givesReader(e.Fn); i >= 0 {
					for _, a := range e.Args {
						for _, k := range open(x, a) {
							x.Set(k, "") // the new reader closes it
						}
					}
					k := keys[e.Ins]
					if k == "" {
						k = siteKey(e.Ins)
						if nkey[k]++; nkey[k] > 1 {
							k += "#" + itoa(nkey[k])
						}
						keys[e.Ins] = k
					}
					t, n := e.Res, e.Fn.Signature.Results().Len()
					if n > 1 {
						t = x.ts.mk("x", itoa(i), "", e.Res)
						if isErrType(e.Fn.Signature.Results().At(n - 1).Type()) {
							x.Retag("e:"+k, x.ts.mk("x", itoa(n-1), "", e.Res))
						}
					}
					x.Retag("o:"+k, t)
					x.Set("o:"+k, "1")
					return
				}
				nm := e.Name[strings.LastIndexByte(e.Name, '.')+1:]
				if (nm == "Close" || e.Name == "io/ioutil.ReadAll" || e.Name == "io.ReadAll") && len(e.Args) > 0 {
					for _, k := range open(x, e.Args[0]) {
						x.Set(k, "")
					}
				}
			case EvStore:
				if e.Val != nil && e.Addr.Op != "new" {
					for _, k := range open(x, e.Val) {
						x.Set(k, "")
					}
				}
			case EvBranch:
				if e.Cond.Op == "isnil" && !e.Taken {
					for k := range x.St.auto {
						if strings.HasPrefix(k, "o:") && x.HasTag("e:"+k[2:], e.Cond.A[0]) {
							x.Set(k, "")
						}
					}
				}
			case EvReturn:
				for k, v := range x.St.auto {
					if strings.HasPrefix(k, "o:") && v != "" {
						x.Violate("reader not closed: "+k[2:], e.Pos(), "the function can return without closing the reader of git output it opened, which leaves the goroutine that writes to it blocked")
					}
				}
			}
		}
		c.Sim("readers in "+fnName(g), g, r, nil)
	}
	c.Min("users of git output readers", 2)
}
