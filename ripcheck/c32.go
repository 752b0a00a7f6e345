package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C32", "Every path of every command of the command line tool (the functions given to the command table as what to run) with everything it calls outside the library, callbacks and goroutines' results included, and of main. Every error of the operating system, of git or of the library is looked at; a command returns without exit only if none of them was an error, at least one repository was found, and no completion was reported before that was known; an exit has a non-zero status and something was printed after the failure; nothing but a failure or the absence of repositories ends a command with an exit. A repository is skipped as empty only when git was asked for a commit in a way that tells an empty repository from any other failure, and then a warning is printed and the others are processed.", runC32)
}

// cliFn: part of the command line tool, not of the library.
func cliFn(fn *ssa.Function) bool {
	return strings.HasPrefix(fnPkgPath(fn), modPath) && (!libraryFn(fn) || fnPkgPath(fn) == mp("ripsrc/pkg/gitrepos"))
}

// commands: the functions in the command table.
func (p *Prog) commands() (run []*ssa.Function, withErr map[*ssa.Function]bool) {
	withErr = map[*ssa.Function]bool{}
	for _, fn := range p.Fns {
		if !strings.HasPrefix(fnPkgPath(fn), modPath) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				st, ok := ins.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || !isNamed(fa.X.Type().Underlying().(*types.Pointer).Elem(), "github.com/spf13/cobra.Command") {
					continue
				}
				v := st.Val
				if mc, ok := v.(*ssa.MakeClosure); ok {
					v = mc.Fn
				}
				f, ok := v.(*ssa.Function)
				if !ok || !strings.Contains(f.Signature.String(), "cobra.Command") || f.Signature.Params().Len() != 2 {
					continue
				}
				run = append(run, f)
				withErr[f] = f.Signature.Results().Len() == 1
			}
		}
	}
	return
}

func runC32(c *Ctx) {
	run, withErr := c.p.commands()
	for _, f := range run {
		c.Count("commands", 1)
		c.command(f, withErr[f], false)
	}
	c.Min("commands", 2)
	n := 0
	for _, f := range c.p.Fns {
		if fnPkgPath(f) == modPath && f.Name() == "main" && f.Parent() == nil {
			n++
			c.command(f, false, true)
		}
	}
	if n == 0 {
		c.Violate("no main", 0, "the program has no main function")
	}
	c.Min("exits", 3)
	c.Min("ends", 2)
	c.Min("fallible calls", 8)
}

// asksForCommit: git arguments that make it end with status 1 exactly when
// the repository has no commit at its head.
func asksForCommit(args string) bool {
	f := strings.Fields(args)
	if len(f) < 4 || f[0] != "git" || f[1] != "rev-parse" || f[len(f)-1] != "HEAD" {
		return false
	}
	verify, quiet := false, false
	for _, a := range f[2 : len(f)-1] {
		switch a {
		case "--verify":
			verify = true
		case "-q", "--quiet":
			quiet = true
		default:
			return false
		}
	}
	return verify && quiet
}

func (c *Ctx) command(fn *ssa.Function, withErr, isMain bool) {
	what := fnName(fn)
	fallible := func(e *Event, f *ssa.Function) bool {
		switch {
		case strings.HasSuffix(e.Name, "ioutil.TempDir"), strings.HasSuffix(e.Name, "os.MkdirTemp"):
			return false // of the profile
		case strings.HasPrefix(e.Name, "os.") || strings.HasPrefix(e.Name, "(*os."), strings.HasPrefix(e.Name, "io/ioutil."), strings.HasPrefix(e.Name, "(*os/exec.Cmd)."), strings.HasPrefix(e.Name, "path/filepath."), strings.HasSuffix(e.Name, "cobra.Command).Execute"):
			return true
		}
		return f != nil && strings.HasPrefix(fnPkgPath(f), modPath) && !cliFn(f)
	}
	library := func(f *ssa.Function) bool {
		return f != nil && strings.HasPrefix(fnPkgPath(f), modPath) && !cliFn(f)
	}
	any := func(x *X, pre string) string {
		best := ""
		for k, v := range x.St.auto {
			if strings.HasPrefix(k, pre) && (best == "" || v < best) {
				best = v
			}
		}
		return best
	}
	// the latest failure can turn out to be none, those before cannot
	fail := func(x *X, key, name string) {
		if x.Get("fail:last") != "" {
			x.Set("fail:before", "an earlier step")
		}
		x.Set("fail:last", name)
		x.Set("failed", key)
		x.Set("last", "fail")
		x.Set("said", "")
	}
	clear := func(x *X, t *Term) {
		if x.Get("failed") == t.key {
			x.Set("fail:last", "")
			x.Set("failed", "")
		}
	}
	settle := func(x *X) {
		if x.Get("fail:last") != "" {
			x.Set("fail:before", "an earlier step")
			x.Set("fail:last", "")
			x.Set("failed", "")
		}
	}
	empty := func(x *X, run *Term) {
		clear(x, run)
		x.Set("ran", "1")
		x.Set("last", "empty")
		x.Set("warned", "no")
	}
	runs := map[string]*Term{}
	r := &Rule{Name: "command", NoLoads: true, MaxState: 400000, MaxRec: 2}
	r.Inline = func(x *X, f *ssa.Function, call ssa.CallInstruction) bool { return cliFn(f) && !profiles(f) }
	r.Init = func(x *X) {
		if isMain {
			x.Set("ran", "1")
		} else if len(fn.Params) == 2 {
			x.Assume(x.ts.mk("empty", "", "", x.ParamTerm(1)), false) // the table asks for arguments
		}
	}
	end := func(x *X, e *Event) {
		c.Count("ends", 1)
		if n := any(x, "err:"); n != "" {
			x.Violate("unseen error of "+n, e.Pos(), "the command ends without looking at the error of "+n)
		}
		if n := any(x, "fail:"); n != "" {
			x.Violate("failure of "+n, e.Pos(), "the command ends with status 0 though "+n+" failed")
		}
		if x.Get("ran") == "" {
			x.Violate("no repository", e.Pos(), "the command ends with status 0 though no repository was found")
		}
		if x.Get("todo") != "" {
			x.Violate("not processed", e.Pos(), "a repository with commits is not processed")
		}
		if x.Get("warned") == "no" {
			x.Violate("no warning", e.Pos(), "an empty repository is skipped without a warning")
		}
	}
	r.OnEvent = func(x *X, e *Event) {
		switch e.Kind {
		case EvIter:
			// a loop over a list that is not empty runs at least once
			if e.IKind != "slice" && e.IKind != "back" {
				return
			}
			it := "it:" + e.Coll.key
			if e.Taken {
				x.Set(it, "1")
				return
			}
			if v, ok := x.IsEmpty(e.Coll); ok && !v && x.Get(it) == "" {
				x.Stop()
			}
			x.Set(it, "")
		case EvStore:
			if n, ok := e.Val.Int(); ok && n > 2 {
				e.Val = x.ts.IntConst(2) // two or more
			}
		case EvCall:
			var f *ssa.Function
			ci, isCall := e.Ins.(ssa.CallInstruction)
			if isCall {
				f = ci.Common().StaticCallee()
			}
			if strings.HasPrefix(e.Name, "fmt.") || strings.HasPrefix(e.Name, "github.com/fatih/color.") || strings.HasPrefix(e.Name, "log.") {
				if strings.Contains(e.Name, "rint") {
					x.Set("said", "1")
					if x.Get("warned") == "no" {
						x.Set("warned", "")
					}
				}
				for _, a := range e.Args {
					s, ok := a.Str()
					if !ok {
						continue
					}
					s = strings.ToLower(s)
					done := strings.Contains(s, "finished") || strings.Contains(s, "success") || strings.Contains(s, "completed")
					if !done || strings.Contains(s, "err") || strings.Contains(s, "fail") {
						continue
					}
					c.Count("completion messages", 1)
					if n := any(x, "fail:"); n != "" && (x.Get("last") == "fail" || strings.Contains(s, "finished")) {
						x.Violate("completion after "+n, e.Pos(), "completion is reported though "+n+" failed")
					}
					if n := any(x, "err:"); n != "" {
						x.Violate("completion before "+n, e.Pos(), "completion is reported before the error of "+n+" is looked at")
					}
				}
			}
			if (e.Name == "fmt.Errorf" || e.Name == "errors.New") && x.Get("last") != "empty" && e.Res != nil && cliFn(e.Ins.Parent()) {
				fail(x, e.Res.key, "a step")
			}
			if e.Res == nil || !isCall {
				return
			}
			if strings.HasSuffix(e.Name, "exec.Command") || strings.HasSuffix(e.Name, "exec.CommandContext") {
				args := e.Args
				if strings.HasSuffix(e.Name, "Context") {
					args = args[1:]
				}
				s, _ := args[0].Str()
				if l, ok := x.Elems(args[1]); ok {
					for _, a := range l {
						v, ok := a.Str()
						if !ok {
							v = "?"
						}
						s += " " + v
					}
				}
				x.Set("cmd:"+e.Res.key, s)
				return
			}
			sig := ci.Common().Signature()
			n := sig.Results().Len()
			if n == 0 || !isErrType(sig.Results().At(n-1).Type()) || !fallible(e, f) {
				return
			}
			c.Count("fallible calls", 1)
			t := e.Res
			if n > 1 {
				t = x.ts.mk("x", fmt.Sprint(n-1), "", e.Res)
			}
			if x.Get("todo") != "" && !library(f) && len(e.Args) > 0 && asksForCommit(x.Get("cmd:"+e.Args[0].key)) {
				x.Violate("not processed", e.Pos(), "a repository with commits is not processed")
			}
			settle(x)
			x.Set("err:"+t.key, e.Name)
			runs[t.key] = t
			x.Set("last", "")
			if library(f) {
				x.Set("todo", "")
				x.Set("ran", "1")
				c.Count("repositories processed", 1)
			}
		case EvBranch:
			ct := e.Cond
			switch {
			case ct.Op == "isnil":
				t := ct.A[0]
				n, open := x.St.auto["err:"+t.key]
				if !open || n == "" {
					return
				}
				x.Set("err:"+t.key, "")
				if !e.Taken {
					fail(x, t.key, n)
				} else if t.Op == "call" && len(t.A) > 0 && asksForCommit(x.Get("cmd:"+t.A[0].key)) {
					x.Set("todo", "1")
				}
			case ct.Op == "call" && ct.S == "errors.Is" && len(ct.A) == 2 && ct.A[1].Op == "g":
				if v, ok := isError(x, ct.A[0], ct.A[1]); ok && v != e.Taken {
					x.Stop()
				}
			case ct.Op == "call" && ct.S == "errors.As" && e.Taken:
				x.Set("as", ct.A[0].key)
			case ct.Op == "call" && ct.S == "os.IsNotExist" && e.Taken:
				if strings.HasPrefix(x.Get("fail:last"), "os.") {
					clear(x, ct.A[0])
					x.Set("last", "")
				}
			case ct.Op == "eq":
				for i := range ct.A {
					g, o := ct.A[i], ct.A[1-i]
					if g.Op == "g" && e.Taken && o != g && (o.Op == "call" || o.Op == "x" || o.key == "const:nil") {
						x.Stop() // an error made elsewhere is another one
						return
					}
					code, n := g, o
					if k, ok := n.Int(); ok && k == 1 && e.Taken && code.Op == "call" && strings.HasSuffix(code.S, ".ExitCode") {
						run := errOfExit(code)
						if run == nil {
							run = runs[x.Get("as")]
						}
						if run != nil && len(run.A) > 0 && asksForCommit(x.Get("cmd:"+run.A[0].key)) {
							c.Count("empty repositories", 1)
							x.Set("err:"+run.key, "")
							empty(x, run)
						}
					}
				}
			}
		case EvExit:
			c.Count("exits", 1)
			if k, ok := e.Args[0].Int(); !ok || k == 0 {
				x.Violate("status", e.Pos(), "the command exits with status 0")
			}
			failed := any(x, "fail:") != "" || any(x, "err:") != "" && isMain
			if !failed && x.Get("ran") != "" {
				x.Violate("exit", e.Pos(), "the command ends with an error though nothing failed")
			}
			if x.Get("said") == "" {
				x.Violate("silent exit", e.Pos(), "the command exits without saying why")
			}
		case EvReturn:
			if e.Ins.Parent() != fn {
				return
			}
			if withErr && len(e.Args) == 1 {
				if v, ok := x.IsNil(e.Args[0]); ok && !v {
					return
				}
				if n := x.Get("err:" + e.Args[0].key); n != "" {
					x.Set("err:"+e.Args[0].key, "") // looked at by the caller
				}
			}
			end(x, e)
		}
	}
	c.Sim("command "+what, fn, r, nil)
}

// isError: whether an error is, or wraps, the one of a package variable.
func isError(x *X, t, g *Term) (is, known bool) {
	switch {
	case t == g:
		return true, true
	case t.key == "const:nil", t.Op == "x":
		return false, true
	case t.Op != "call":
		return false, false
	case t.S == "fmt.Errorf" && len(t.A) == 2:
		l, ok := x.Elems(t.A[1])
		if !ok {
			return false, false
		}
		for _, a := range l {
			if a == g {
				return false, false
			}
		}
	}
	return false, true
}

// profiles: a function that starts a profile of the program.
func profiles(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			if ci, ok := ins.(ssa.CallInstruction); ok && ci.Common().StaticCallee() != nil && fnPkgPath(ci.Common().StaticCallee()) == "github.com/pkg/profile" {
				return true
			}
		}
	}
	return false
}

// errOfExit: the error of the command whose exit code a term is.
func errOfExit(t *Term) *Term {
	for t != nil && len(t.A) > 0 {
		if t.Op == "call" && strings.HasPrefix(t.S, "(*os/exec.Cmd).") {
			return t
		}
		t = t.A[0]
	}
	return nil
}
