package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var tempMakers = map[string]bool{"io/ioutil.TempFile": true, "os.CreateTemp": true, "io/ioutil.TempDir": true, "os.MkdirTemp": true}

func isRemove(n string) bool { return n == "os.Remove" || n == "os.RemoveAll" }

// tempName: the term is the name of the temporary file or directory made by this call.
func tempName(t *Term) *Term {
	if t.Op == "call" && t.S == "(*os.File).Name" {
		t = t.A[0]
		if t.Op == "x" && t.S == "0" && t.A[0].Op == "call" && tempFileFns[t.A[0].S] {
			return t.A[0]
		}
		return nil
	}
	if t.Op == "x" && t.S == "0" && t.A[0].Op == "call" && (t.A[0].S == "io/ioutil.TempDir" || t.A[0].S == "os.MkdirTemp") {
		return t.A[0]
	}
	return nil
}

// removesOnClose: the Close method of t removes what its field names, on every way out.
func (c *Ctx) removesOnClose(t types.Type, field string) bool {
	key := types.TypeString(t, nil) + "." + field
	p := c.p
	for _, fn := range p.Fns {
		if fn.Name() != "Close" || fn.Signature.Recv() == nil || fn.Parent() != nil || namedOf(fn.Signature.Recv().Type()) == nil || namedOf(fn.Signature.Recv().Type()) != namedOf(t) {
			continue
		}
		bad := false
		n := 0
		r := &Rule{Name: "close removes"}
		r.Inline = func(x *X, fn *ssa.Function, call ssa.CallInstruction) bool { return len(fn.Blocks) <= 12 }
		r.OnEvent = func(x *X, e *Event) {
			switch e.Kind {
			case EvCall:
				if isRemove(e.Name) {
					a := e.Args[0]
					if a.Op == "f" && a.S == field && a.A[0].Op == "param" || a == x.ts.Field(x.ParamTerm(0), field) {
						x.Set("removed", "1")
					}
				}
			case EvReturn:
				n++
				if x.Get("removed") == "" {
					bad = true
				}
			}
		}
		s := NewSim(p, r)
		s.Run(fn, nil)
		c.sims++
		c.states += s.States
		c.Saw(fn)
		if bad || n == 0 || s.Over {
			c.Violate("close of "+fnName(fn), fn.Pos(), "a way out of %s leaves the file named by its field %s behind", fnName(fn), field)
		}
		c.Count("Close methods that remove a file", 1)
		return true
	}
	_ = key
	return false
}

func init() {
	register("C27", "Every call that makes a temporary file or directory is followed on every path, through callers as long as its name is only handed up: by every return the name has been given to os.Remove (directly, deferred, or on the error paths), or is kept in a returned object whose Close removes that very name on every way out. Objects of that kind, like every reader of git output, are closed on every way out of the functions that use them.", func(c *Ctx) {
		p := c.p
		var roots []*ssa.Function
		queued := map[*ssa.Function]bool{}
		add := func(fn *ssa.Function) {
			for fn.Parent() != nil {
				fn = fn.Parent()
			}
			if !queued[fn] {
				queued[fn] = true
				roots = append(roots, fn)
			}
		}
		makes := func(f *ssa.Function, ins ssa.Instruction) bool {
			ci, ok := ins.(ssa.CallInstruction)
			return ok && tempMakers[calleeName(ci.Common())]
		}
		removes := func(f *ssa.Function, ins ssa.Instruction) bool {
			ci, ok := ins.(ssa.CallInstruction)
			return ok && isRemove(calleeName(ci.Common()))
		}
		for _, fn := range p.Fns {
			if !isLibrary(fn) {
				continue
			}
			for _, b := range fn.Blocks {
				for _, ins := range b.Instrs {
					if makes(fn, ins) {
						c.Count("temporary files made", 1)
						add(fn)
					}
				}
			}
		}
		for i := 0; i < len(roots) && i < 40; i++ {
			root := roots[i]
			c.Saw(root)
			r := &Rule{Name: "temporary files"}
			r.Inline = func(x *X, fn *ssa.Function, call ssa.CallInstruction) bool {
				if !isLibrary(fn) {
					return false
				}
				return p.transitively(fn, makes) && queued[fn] || p.transitively(fn, removes) && len(fn.Blocks) <= 30 || len(fn.Blocks) <= 6 && len(p.Loops(fn).back) == 0
			}
			up := false
			r.OnEvent = func(x *X, e *Event) {
				switch e.Kind {
				case EvCall:
					if tempMakers[e.Name] {
						x.Set("temp", e.Res.key)
						x.Set("settled", "")
						x.Tag("tempcall", e.Res)
					}
					if isRemove(e.Name) {
						if t := tempName(e.Args[0]); t != nil && t.key == x.Get("temp") {
							x.Set("settled", "1")
						}
					}
				case EvBranch:
					// the call that makes the file failed: there is nothing to remove
					if e.Cond.Op == "isnil" && e.Cond.A[0].Op == "x" && e.Cond.A[0].S == "1" && e.Cond.A[0].A[0].key == x.Get("temp") && !e.Taken {
						x.Set("settled", "1")
					}
				case EvReturn:
					if x.Get("temp") == "" || x.Get("settled") != "" {
						return
					}
					is := func(t *Term) bool {
						n := tempName(t)
						return n != nil && n.key == x.Get("temp")
					}
					isFile := func(t *Term) bool {
						return t.Op == "x" && t.S == "0" && t.A[0].key == x.Get("temp")
					}
					for ai, a := range e.Args {
						if is(a) || isFile(a) {
							up = true
							return
						}
						// an object that removes it
						v := a
						typ := v.T
						if v.V != nil && typ == nil {
							typ = v.V.Type()
						}
						if ret, ok := e.Ins.(*ssa.Return); ok && ai < len(ret.Results) && typ == nil {
							typ = ret.Results[ai].Type()
						}
						if v.Op == "iface" {
							v = v.A[0]
						}
						if os := concreteOf(a); os != nil {
							typ = os
						}
						if st := structOf2(typ); st != nil {
							for j := 0; j < st.NumFields(); j++ {
								f := x.ts.Field(v, st.Field(j).Name())
								if v.Op == "new" {
									f = x.Load(x.ts.mk("fa", st.Field(j).Name(), "", v), st.Field(j).Type())
								}
								if is(f) && c.removesOnClose(typ, st.Field(j).Name()) {
									return
								}
								if isFile(f) || is(f) {
									up = true
									return
								}
							}
						}
					}
					// kept in an object of the caller
					for _, cl := range x.St.mem {
						if is(cl.val) || isFile(cl.val) {
							if cl.addr.Op == "fa" && cl.addr.Has(func(t *Term) bool { return t.Op == "param" }) {
								up = true
								return
							}
						}
					}
					x.Violate("left behind by "+fnName(root), e.Pos(), "a way out of "+fnName(root)+" leaves its temporary file behind")
				}
			}
			c.Sim("temporary files of "+fnName(root), root, r, nil)
			if up {
				n := 0
				for _, ci := range p.Index().callers[root] {
					if isLibrary(ci.Parent()) {
						add(ci.Parent())
						n++
					}
				}
				if n == 0 {
					c.Violate("given to the caller by "+fnName(root), root.Pos(), "the name of a temporary file is handed to callers outside the library, nothing removes it")
				}
			}
			c.Count("functions responsible for a temporary file", 1)
		}
		c.Min("temporary files made", 1)
		checkReaders(c)
	})
}

func concreteOf(t *Term) types.Type {
	if t.Op == "iface" && t.T != nil {
		return t.T
	}
	return t.T
}

func structOf2(t types.Type) *types.Struct {
	if t == nil {
		return nil
	}
	return structOf(t)
}

var _ = sort.Strings
var _ = strings.Contains
