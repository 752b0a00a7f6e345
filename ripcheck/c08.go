package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C08", "Every call in the library that can fail is followed on every path: before its function can end with success, its error was seen to be nil, or it was returned, sent, stored where the starting function looks after joining, or raised as a panic. Scan loops end with success only after the scanner's error was seen to be nil; files that were created are closed, and started commands waited for, before success; the end of a log is signalled to its reader only after git ended successfully; recovered panics do not disappear; cached state is not kept when building it failed.", runC08)
}

// libPkg: packages of the library proper, without the command line tool.
func libPkg(pkg string) bool {
	rel := strings.TrimPrefix(strings.TrimPrefix(pkg, modPath), "/")
	return strings.HasPrefix(rel, "ripsrc") && !strings.HasPrefix(rel, "ripsrc/cmd") && rel != "ripsrc/pkg/gitrepos"
}

func hasErrParam(f *ssa.Function) bool {
	for _, p := range f.Params {
		if isErrType(p.Type()) {
			return true
		}
	}
	return false
}

// callSig is the signature of the called function.
func callSig(ci ssa.CallInstruction) *types.Signature {
	s, _ := types.Unalias(ci.Common().Value.Type()).Underlying().(*types.Signature)
	if ci.Common().IsInvoke() {
		s, _ = ci.Common().Method.Type().(*types.Signature)
	}
	return s
}

// errResult is the index of the error result, -1 if there is none.
func errResult(ci ssa.CallInstruction) int {
	s := callSig(ci)
	if s == nil || s.Results().Len() == 0 {
		return -1
	}
	n := s.Results().Len() - 1
	if !isErrType(s.Results().At(n).Type()) {
		return -1
	}
	return n
}

// noErrCalls never fail or their failure is no failure of the input or output.
func noErrCall(name string) bool {
	for _, p := range []string{"fmt.Fprint", "fmt.Print", "(*bytes.Buffer).", "(*strings.Builder).", "(hash.", "fmt.Errorf", "errors.", "(error).", "(*github.com/pinpt/ripsrc/ripsrc/pkg/logger", "fmt.Sscan", "context.", "(io.ReadCloser).Close"} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return strings.Contains(name, "hash.Hash)")
}

// errExempt: failures the confirmed code handles in another way, with the reason.
func (c *Ctx) errExempt(f *ssa.Function, ci ssa.CallInstruction, name string) bool {
	root := f
	for root.Parent() != nil {
		root = root.Parent()
	}
	switch rel := strings.TrimPrefix(fnPkgPath(f), modPath+"/"); rel {
	case "ripsrc/gitexec":
		// asking for HEAD: a failure gives an output that is no hash, which is checked instead
		if name == "(*os/exec.Cmd).Run" {
			sg := root.Signature
			if sg.Results().Len() == 1 && types.TypeString(sg.Results().At(0).Type(), nil) == "string" && c.checksLen(root, 40) {
				return true
			}
		}
	case "ripsrc/commitmeta":
		// counts of a numstat line are digits
		if name == "strconv.ParseInt" || name == "strconv.Atoi" || name == "strconv.ParseUint" {
			return true
		}
	}
	return false
}

// checksLen: the function compares a length with the constant.
func (c *Ctx) checksLen(f *ssa.Function, n int64) bool {
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			if bo, ok := ins.(*ssa.BinOp); ok && (bo.Op == token.NEQ || bo.Op == token.EQL) && isLenCall(bo.X) {
				if k, ok := bo.Y.(*ssa.Const); ok && k.Int64() == n {
					return true
				}
			}
		}
	}
	return false
}

func runC08(c *Ctx) {
	p := c.p
	for _, f := range p.Fns {
		if !libPkg(fnPkgPath(f)) || f.Name() == "init" || strings.HasPrefix(fnPkgPath(f), mp("ripsrc/pkg/logger")) {
			continue
		}
		if c.unusedType(f) {
			continue
		}
		has := false
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				ci, ok := ins.(ssa.CallInstruction)
				if !ok {
					continue
				}
				n := calleeName(ci.Common())
				if errResult(ci) >= 0 && !noErrCall(n) || n == "builtin.recover" {
					has = true
				}
				if _, ok := ins.(*ssa.Go); ok {
					has = true
				}
			}
		}
		if has {
			c.errFlow(f)
		}
	}
	c08Shared(c)
	done := map[*ssa.Function]bool{}
	for _, s := range p.scanners() {
		if !libPkg(fnPkgPath(s.fn)) {
			continue
		}
		for _, sc := range s.scans {
			if f := sc.Parent(); !done[f] {
				done[f] = true
				c.scanErr(f)
			}
		}
	}
	c.writerOwners()
	c.Min("fallible calls", 60)
	c.Min("functions with fallible calls", 30)
}

// unusedType: f is a method of a type that nothing but its own methods mentions.
func (c *Ctx) unusedType(f *ssa.Function) bool {
	if f.Signature.Recv() == nil {
		return false
	}
	n := namedOf(f.Signature.Recv().Type())
	if n == nil {
		return false
	}
	is := func(t types.Type) bool {
		m := namedOf(t)
		return m != nil && m.Obj() == n.Obj()
	}
	for _, g := range c.p.Fns {
		if g.Signature.Recv() != nil && is(g.Signature.Recv().Type()) {
			continue
		}
		for _, b := range g.Blocks {
			for _, ins := range b.Instrs {
				if v, ok := ins.(ssa.Value); ok && is(v.Type()) {
					return false
				}
				for _, o := range ins.Operands(nil) {
					if *o != nil && is((*o).Type()) {
						return false
					}
				}
			}
		}
	}
	return true
}

// savesCheckpoint reports whether fn is or calls the checkpoint writer.
func (p *Prog) savesCheckpoint(fn *ssa.Function) bool {
	if fn == nil {
		return false
	}
	if isCheckpoint(fn) == "write" {
		return true
	}
	return isLibrary(fn) && p.transitively(fn, func(g *ssa.Function, ins ssa.Instruction) bool {
		ci, ok := ins.(ssa.CallInstruction)
		return ok && isCheckpoint(ci.Common().StaticCallee()) == "write"
	})
}

// errFlow follows every error of one function to where it is handled.
func (c *Ctx) errFlow(f *ssa.Function) {
	p := c.p
	c.Count("functions with fallible calls", 1)
	sites := map[ssa.Instruction]string{}
	names := map[string]int{}
	site := func(ins ssa.Instruction, name string) string {
		if s := sites[ins]; s != "" {
			return s
		}
		if name == "" {
			name = "call"
		}
		s := strings.ReplaceAll(name, modPath+"/", "")
		names[s]++
		if names[s] > 1 {
			s += "#" + itoa(names[s])
		}
		sites[ins] = s
		c.Count("fallible calls", 1)
		return s
	}
	set := func(x *X, s, v string) { x.Set("e:"+s, v) }
	open := func(x *X, s string, t *Term) {
		x.Untag("err:" + s)
		x.Tag("err:"+s, t)
		set(x, s, "open")
	}
	// sites whose error the term is or contains
	from := func(x *X, t *Term) (out []string) {
		if t == nil {
			return nil
		}
		for k := range x.St.auto {
			if strings.HasPrefix(k, "e:") {
				s := k[2:]
				for _, tt := range x.Tagged("err:" + s) {
					if t == tt || t.contains(tt) {
						out = append(out, s)
					} else if t.Op == "call" {
						for _, a := range t.A {
							if el, ok := x.Elems(a); ok {
								for _, e := range el {
									if e == tt || e.contains(tt) {
										out = append(out, s)
									}
								}
							}
						}
					}
				}
			}
		}
		return
	}
	clear := func(x *X, t *Term) {
		for _, s := range from(x, t) {
			set(x, s, "")
		}
	}
	recover := false
	r := &Rule{Name: "errors", MaxState: 80000}
	r.Inline = func(x *X, fn *ssa.Function, call ssa.CallInstruction) bool {
		if sharedErrFn(p, fn) {
			return true
		}
		if fn.Parent() != nil || hasErrParam(fn) && len(fn.Blocks) < 12 || alwaysPanics(fn) {
			return fnPkgPath(fn) == fnPkgPath(f) && !strings.Contains(fn.Name(), "init")
		}
		return false
	}
	onGo := func(x *X, e *Event) {
		if e.Fn == nil {
			return
		}
		// error variables the goroutine assigns, and error channels it sends on
		_, gb := x.resolveFn(e.Args[0])
		for j, t := range gb {
			if j >= len(e.Fn.FreeVars) {
				break
			}
			fv := e.Fn.FreeVars[j]
			pt, ok := types.Unalias(fv.Type()).Underlying().(*types.Pointer)
			if ok && isErrType(pt.Elem()) && writesVar(e.Fn, j) {
				s := site(e.Ins, "variable "+fv.Name()+" of the goroutine")
				x.Untag("cell:" + s)
				x.Tag("cell:"+s, t)
				set(x, s, "open")
			}
		}
		if p.transitively(e.Fn, func(_ *ssa.Function, ins ssa.Instruction) bool {
			sd, ok := ins.(*ssa.Send)
			return ok && isErrType(sd.X.Type())
		}) {
			set(x, site(e.Ins, "error channel of the goroutine"), "open")
		}
		if p.transitively(e.Fn, func(_ *ssa.Function, ins ssa.Instruction) bool {
			ci, ok := ins.(ssa.CallInstruction)
			return ok && calleeName(ci.Common()) == "(*os/exec.Cmd).Wait"
		}) {
			x.Set("cmd", "")
		}
	}
	end := func(x *X, e *Event, args []*Term, fn *ssa.Function) {
		if len(args) > 0 && lastIsErr(fn) {
			last := args[len(args)-1]
			if nn, known := x.IsNil(last); known && !nn {
				for k, v := range x.St.auto {
					if strings.HasPrefix(k, "kept:") && v != "" {
						x.Violate("kept "+k[5:], e.Pos(), "the field "+k[5:]+", which later calls take as already built, is kept although the call fails")
					}
				}
				return
			}
			if wrapsErr(x, last) {
				return
			}
			if from(x, last) != nil {
				for k := range x.St.auto {
					if strings.HasPrefix(k, "kept:") && x.Get(k) != "" {
						x.Violate("kept "+k[5:], e.Pos(), "the field "+k[5:]+", which later calls take as already built, is kept although the call can fail")
					}
				}
			}
			clear(x, last)
		}
		for k, v := range x.St.auto {
			if strings.HasPrefix(k, "e:") && v != "" && x.Get("primary") == "" {
				w := "its error was never looked at"
				if v == "failed" {
					w = "it failed"
				}
				x.Violate("ignored "+k[2:], e.Pos(), fnName(fn)+" can end with success although "+w+": "+k[2:])
			}
			if strings.HasPrefix(k, "w:") && v != "" {
				x.Violate("not closed "+k[2:], e.Pos(), fnName(fn)+" can end with success although what it writes to was not closed: "+k[2:])
			}
		}
		if x.Get("cmd") == "started" {
			x.Violate("not waited", e.Pos(), fnName(fn)+" can end with success without waiting for the command it started")
		}
	}
	r.OnEvent = func(x *X, e *Event) {
		switch e.Kind {
		case EvCall:
			ci := e.Ins.(ssa.CallInstruction)
			switch e.Name {
			case "builtin.recover":
				recover = true
				return
			case "(*os/exec.Cmd).Start":
				x.Set("cmd", "started")
			case "(*os/exec.Cmd).Wait":
				x.Set("cmd", "")
			case "(*io.PipeWriter).Close":
				for k, v := range x.St.auto {
					if strings.HasPrefix(k, "e:") && v != "" {
						x.Violate("end of stream after failure", e.Pos(), "the reader is told that the stream is complete although the command may have failed: "+k[2:])
					}
				}
			case "(*io.PipeWriter).CloseWithError":
				if len(e.Args) > 1 {
					if v, known := x.IsNil(e.Args[1]); known && v && from(x, e.Args[1]) == nil {
						for k, v := range x.St.auto {
							if strings.HasPrefix(k, "e:") && v != "" {
								x.Violate("end of stream after failure", e.Pos(), "the reader is told that the stream is complete although the command may have failed: "+k[2:])
							}
						}
					}
					clear(x, e.Args[1])
				}
				return
			case "os.IsNotExist":
				return
			}
			if p.savesCheckpoint(e.Fn) {
				for k, v := range x.St.auto {
					if strings.HasPrefix(k, "e:") && v != "" {
						x.Violate("checkpoint after failure "+k[2:], e.Pos(), "a checkpoint is saved although the processing may have failed: the error was not seen to be nil: "+k[2:])
					}
				}
			}
			// writers are closed
			switch e.Name {
			case "os.Create", "os.OpenFile", "io/ioutil.TempFile", "os.CreateTemp":
				if e.Name != "os.OpenFile" || !readOnlyOpen(ci) {
					k := site(e.Ins, e.Name)
					x.Untag("wr:" + k)
					x.Tag("wr:"+k, x.ts.mk("x", "0", "", e.Res))
					x.Set("w:"+k, "1")
				}
			case "compress/gzip.NewWriter", "compress/gzip.NewWriterLevel", "bufio.NewWriter", "bufio.NewWriterSize", "github.com/tinylib/msgp/msgp.NewWriter":
				k := "writer " + e.Name
				t := e.Res
				if errResult(ci) >= 0 {
					t = x.ts.mk("x", "0", "", e.Res)
				}
				x.Untag("wr:" + k)
				x.Tag("wr:"+k, t)
				x.Set("w:"+k, "1")
			}
			isClose := strings.HasSuffix(e.Name, ").Close") || strings.HasSuffix(e.Name, ").Flush")
			if isClose && !e.Deferred && len(e.Args) > 0 {
				for k := range x.St.auto {
					if strings.HasPrefix(k, "w:") && x.HasTag("wr:"+k[2:], e.Args[0]) {
						x.Set(k, "")
					}
				}
			}
			n := errResult(ci)
			if n < 0 || noErrCall(e.Name) {
				return
			}
			if e.Deferred && !(e.Fn != nil && fnPkgPath(e.Fn) == fnPkgPath(f)) {
				return
			}
			if e.Deferred {
				return
			}
			if c.errExempt(f, ci, e.Name) {
				return
			}
			t := e.Res
			if n > 0 {
				t = x.ts.mk("x", itoa(n), "", e.Res)
			}
			for _, a := range e.Args {
				if a != nil {
					clear(x, a) // handed on together
				}
			}
			open(x, site(e.Ins, e.Name), t)
		case EvDefer:
			if e.Name == "(*io.PipeWriter).Close" {
				x.Violate("end of stream after failure", e.Pos(), "the stream is closed by a deferred call, which tells its reader that it is complete even when the command failed")
			}
		case EvLoad:
			if u, ok := e.Ins.(*ssa.UnOp); ok {
				if fv, ok := u.X.(*ssa.FreeVar); ok && isErrType(u.Type()) && fv.Parent() == f {
					x.Tag("outer", e.Val)
				}
			}
			if e.Addr.Op != "new" {
				return
			}
			for k := range x.St.auto {
				if strings.HasPrefix(k, "e:") && x.HasTag("cell:"+k[2:], e.Addr) {
					x.Untag("err:" + k[2:])
					x.Tag("err:"+k[2:], e.Val)
				}
			}
		case EvRecv:
			if isErrType(chanElemOfRecv(e)) {
				for k := range x.St.auto {
					if strings.HasPrefix(k, "e:error channel") {
						x.Set(k, "")
					}
				}
				open(x, site(e.Ins, "receive of an error"), e.Res)
			}
		case EvGo:
			onGo(x, e)
		case EvBranch:
			cd := e.Cond
			if cd.Op == "rok" && !e.Taken {
				// the channel is closed, nothing was received
				for k := range x.St.auto {
					if strings.HasPrefix(k, "e:receive") {
						for _, t := range x.Tagged("err:" + k[2:]) {
							if t.Op == "recv" && t.ID == cd.ID {
								x.Set(k, "")
							}
						}
					}
				}
			}
			if cd.Op == "isnil" && !e.Taken && f.Parent() != nil && !lastIsErr(f) && x.HasTag("outer", cd.A[0]) {
				x.Set("primary", "1") // the surrounding function already fails
			}
			if cd.Op == "isnil" {
				for _, s := range from(x, cd.A[0]) {
					if e.Taken {
						set(x, s, "")
					} else if x.HasTag("err:"+s, cd.A[0]) {
						set(x, s, "failed")
					}
				}
				return
			}
			if !e.Taken {
				return
			}
			if cd.Op == "eq" {
				a, b := cd.A[0], cd.A[1]
				if a.Op == "g" || a.Op == "glob" || a.IsConst() {
					a, b = b, a
				}
				ss := from(x, a)
				if len(ss) == 0 {
					return
				}
				if b.Op == "g" {
					if g := strings.TrimPrefix(b.S, mp("ripsrc/history3/incblame")+"."); g != b.S && !token.IsExported(g) {
						clear(x, a) // what the patch parser tells itself about a header line
						return
					}
					switch b.S {
					case "io.EOF", "gopkg.in/src-d/go-license-detector.v2/licensedb.ErrNoLicenseFound":
						clear(x, a)
					case "io.ErrUnexpectedEOF":
						c.truncated(x, e)
						clear(x, a)
					}
				} else if s, ok := b.Str(); ok && a.Is("call", "(error).Error") {
					switch s {
					case "EOF":
						clear(x, a)
					case "unexpected EOF":
						c.truncated(x, e)
						clear(x, a)
					}
				}
				return
			}
			gone := func(t *Term) bool { // nothing there to remove or to move away
				return t.Is("call", "os.Remove", "os.Rename", "os.RemoveAll")
			}
			if cd.Is("call", "os.IsNotExist") && (strings.HasSuffix(fnPkgPath(f), "/gitexec") || gone(cd.A[0])) {
				clear(x, cd.A[0])
			}
			if cd.Is("call", "errors.Is") && len(cd.A) == 2 && cd.A[1].Is("g", "os.ErrNotExist", "io/fs.ErrNotExist") && gone(cd.A[0]) {
				clear(x, cd.A[0])
			}
			if cd.Is("call", "errors.Is") && len(cd.A) == 2 && cd.A[1].Op == "g" && (cd.A[1].S == "io.EOF" || cd.A[1].S == "os.ErrNotExist" && strings.HasSuffix(fnPkgPath(f), "/gitexec")) {
				clear(x, cd.A[0])
			}
		case EvSend:
			if isErrType(e.Ins.(*ssa.Send).X.Type()) {
				clear(x, e.Val)
			}
		case EvStore:
			if e.Addr.Op == "fa" {
				// ownership of a writer moves to the object
				for k := range x.St.auto {
					if strings.HasPrefix(k, "w:") && x.HasTag("wr:"+k[2:], e.Val) {
						x.Set(k, "")
					}
				}
				if fld := c.guardField(e.Addr); fld != "" {
					v := "1"
					if e.Val.IsConst() && (e.Val.S == "nil" || e.Val.S == "false") {
						v = ""
					}
					x.Set("kept:"+fld, v)
				}
			}
			if t := storeType(e); t != nil && isErrType(t) && e.Addr.Op != "new" {
				clear(x, e.Val)
			}
		case EvReturn:
			end(x, e, e.Args, e.Fn)
		}
	}
	c.Sim("errors "+fnName(f), f, r, nil)
	if recover && !c.recoverReported(f) {
		c.Violate("recover "+fnName(f), f.Pos(), "a panic is recovered and neither raised again nor turned into an error")
	}
}

func chanElemOfRecv(e *Event) types.Type {
	if u, ok := e.Ins.(*ssa.UnOp); ok {
		if c, ok := types.Unalias(u.X.Type()).Underlying().(*types.Chan); ok {
			return c.Elem()
		}
	}
	return types.Typ[types.Invalid]
}

// truncated reports an end-of-input test that also holds for input that was cut off.
func (c *Ctx) truncated(x *X, e *Event) {
	c.Violate("truncated input taken as complete in "+strings.TrimPrefix(fnPkgPath(e.Ins.Parent()), modPath+"/"), e.Pos(), "input that ends in the middle is taken as complete")
}

func readOnlyOpen(ci ssa.CallInstruction) bool {
	k, ok := ci.Common().Args[1].(*ssa.Const)
	return ok && k.Int64()&3 == 0
}

// recoverReported: the function that calls recover raises a panic or assigns an error of its caller.
func (c *Ctx) recoverReported(f *ssa.Function) bool {
	return c.p.transitively(f, func(g *ssa.Function, ins ssa.Instruction) bool {
		switch i := ins.(type) {
		case *ssa.Panic:
			return true
		case *ssa.Store:
			if _, ok := i.Addr.(*ssa.FreeVar); ok && isErrType(i.Val.Type()) {
				return true
			}
		}
		return false
	})
}

// guardField: a field of the top-level object that some method tests to skip building it again.
func (c *Ctx) guardField(addr *Term) string {
	if addr.T == nil || !isNamed(addr.T, mp("ripsrc")+".Ripsrc") {
		return ""
	}
	for _, f := range c.p.Fns {
		if f.Signature.Recv() == nil || !isNamed(f.Signature.Recv().Type(), mp("ripsrc")+".Ripsrc") {
			continue
		}
		for _, b := range f.Blocks {
			i, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
			if !ok {
				continue
			}
			v := i.Cond
			if bo, ok := v.(*ssa.BinOp); ok {
				v = bo.X
			}
			if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
				if fa, ok := u.X.(*ssa.FieldAddr); ok && isNamed(fa.X.Type(), mp("ripsrc")+".Ripsrc") && structOf(fa.X.Type()).Field(fa.Field).Name() == addr.S {
					return addr.S
				}
			}
		}
	}
	return ""
}

// writerOwners: objects that hold open output files have a finishing method that flushes and closes
// everything in them, and whoever creates one finishes it before ending with success.
func (c *Ctx) writerOwners() {
	p := c.p
	owners := map[*types.Named][]string{}
	for _, pk := range p.Pkgs {
		if !libPkg(pk.PkgPath) {
			continue
		}
		for _, n := range pk.Types.Scope().Names() {
			tn, ok := pk.Types.Scope().Lookup(n).(*types.TypeName)
			if !ok {
				continue
			}
			nt, ok := tn.Type().(*types.Named)
			if !ok {
				continue
			}
			st, ok := nt.Underlying().(*types.Struct)
			if !ok {
				continue
			}
			for i := 0; i < st.NumFields(); i++ {
				switch types.TypeString(st.Field(i).Type(), nil) {
				case "*compress/gzip.Writer", "*github.com/tinylib/msgp/msgp.Writer", "*bufio.Writer":
					owners[nt] = append(owners[nt], st.Field(i).Name())
				}
			}
			if owners[nt] != nil {
				for i := 0; i < st.NumFields(); i++ {
					switch types.TypeString(st.Field(i).Type(), nil) {
					case "*os.File", "io.WriteCloser", "io.Closer":
						owners[nt] = append(owners[nt], st.Field(i).Name())
					}
				}
			}
		}
	}
	closes := func(f *ssa.Function) bool {
		return p.transitively(f, func(g *ssa.Function, ins ssa.Instruction) bool {
			cl, ok := ins.(*ssa.Call)
			return ok && (calleeName(&cl.Call) == "(*os.File).Close" || calleeName(&cl.Call) == "(io.Closer).Close" || calleeName(&cl.Call) == "(io.WriteCloser).Close")
		})
	}
	for nt, fields := range owners {
		c.Count("objects with open output files", 1)
		short := strings.ReplaceAll(types.TypeString(nt, nil), modPath+"/", "")
		var fin *ssa.Function
		ms := p.SSA.MethodSets.MethodSet(types.NewPointer(nt))
		for i := 0; i < ms.Len(); i++ {
			f := p.SSA.MethodValue(ms.At(i))
			if f != nil && f.Blocks != nil && lastIsErr(f) && closes(f) {
				fin = f
			}
		}
		if fin == nil {
			c.Violate("no finishing "+short, nt.Obj().Pos(), "%s holds open output files but no method closes them", short)
			continue
		}
		c.Saw(fin)
		// the finishing method
		r := &Rule{Name: "finish", MaxState: 20000}
		r.Inline = func(x *X, fn *ssa.Function, call ssa.CallInstruction) bool { return fnPkgPath(fn) == fnPkgPath(fin) }
		r.OnEvent = func(x *X, e *Event) {
			switch e.Kind {
			case EvCall:
				if len(e.Args) == 0 || e.Args[0].Op != "f" || e.Deferred {
					return
				}
				fld := e.Args[0].S
				switch {
				case strings.HasSuffix(e.Name, ".Close"):
					x.Set("done:"+fld, "closed")
				case strings.HasSuffix(e.Name, ".Flush"):
					x.Set("done:"+fld, "flushed")
				default:
					return
				}
				// inner writers first
				for i, n := range fields {
					if n == fld {
						for _, m := range fields[i+1:] {
							if x.Get("done:"+m) == "closed" && fieldOrder(nt, m) < fieldOrder(nt, fld) {
								x.Violate("order "+short, e.Pos(), "the writer "+fld+" is finished after "+m+", which it writes into, was closed")
							}
						}
					}
				}
				if x.Get("closedfile") == "1" {
					x.Violate("order "+short, e.Pos(), "the writer "+fld+" is finished after the file was closed")
				}
				if e.Name == "(*os.File).Close" || e.Name == "(io.WriteCloser).Close" || e.Name == "(io.Closer).Close" {
					x.Set("closedfile", "1")
				}
				// what has been written so far by an inner writer is flushed before the outer one
				if strings.Contains(e.Name, "gzip.Writer") {
					for _, n := range fields {
						if n != fld && x.Get("done:"+n) == "" && isOuter(nt, n) {
							x.Violate("order "+short, e.Pos(), "the compressor is flushed before the encoder "+n+" that writes into it")
						}
					}
				}
			case EvReturn:
				if nn, known := errKnown(x, e); known && nn {
					return
				}
				for _, n := range fields {
					st := x.Get("done:" + n)
					t := types.TypeString(fieldType(nt, n), nil)
					switch {
					case st == "":
						x.Violate("unfinished "+short+"."+n, e.Pos(), "the method can end with success although "+n+" was not flushed and closed")
					case st == "flushed" && t == "*compress/gzip.Writer":
						c.Violate("gzip stream not ended in "+strings.TrimPrefix(nt.Obj().Pkg().Path(), modPath+"/"), e.Pos(), "the compressed stream is flushed but not ended, so a reader cannot tell a complete file from one that was cut off")
					}
				}
			}
		}
		c.Sim("finish "+short, fin, r, nil)
		// creators
		ptr := types.NewPointer(nt)
		makes := func(f *ssa.Function) bool {
			return f != nil && f.Signature.Results().Len() > 0 && types.Identical(types.Unalias(f.Signature.Results().At(0).Type()), ptr)
		}
		for _, g := range p.Fns {
			keys := map[ssa.Instruction]string{}
			nkey := map[string]int{}
			uses := false
			for _, b := range g.Blocks {
				for _, ins := range b.Instrs {
					if cl, ok := ins.(*ssa.Call); ok && makes(cl.Call.StaticCallee()) {
						uses = true
					}
				}
			}
			if !uses || makes(g) {
				continue
			}
			c.Count("users of such objects", 1)
			rr := &Rule{Name: "users", MaxState: 60000}
			rr.Inline = func(x *X, fn *ssa.Function, call ssa.CallInstruction) bool {
				return !makes(fn) && fn != fin && (fn.Parent() != nil || p.transitively(fn, func(_ *ssa.Function, ins ssa.Instruction) bool {
					cl, ok := ins.(*ssa.Call)
					return ok && cl.Call.StaticCallee() == fin
				}))
			}
			rr.OnEvent = func(x *X, e *Event) {
				switch e.Kind {
				case EvCall:
					if makes(e.Fn) {
						k := keys[e.Ins]
						if k == "" {
							k = siteKey(e.Ins)
							if nkey[k]++; nkey[k] > 1 {
								k += "#" + itoa(nkey[k])
							}
							keys[e.Ins] = k
						}
						t := e.Res
						if e.Fn.Signature.Results().Len() > 1 {
							t = x.ts.mk("x", "0", "", e.Res)
						}
						x.Retag("o:"+k, t)
						x.Set("o:"+k, "1")
					}
					if e.Fn == fin && !e.Deferred {
						objs := []*Term{e.Args[0]}
						for k := range x.St.auto {
							for _, o := range objs {
								if strings.HasPrefix(k, "o:") && x.HasTag(k, o) {
									x.Set(k, "")
								}
							}
						}
					}
				case EvBranch:
					// each of a list is finished by a loop over it
					if ins, ok := e.Ins.(*ssa.If); ok && !e.Taken {
						for _, l := range loopCalls(ins.Block(), fin) {
							if el, ok := x.Elems(x.Eval(l)); ok {
								for _, o := range el {
									for k := range x.St.auto {
										if strings.HasPrefix(k, "o:") && x.HasTag(k, o) {
											x.Set(k, "")
										}
									}
								}
							}
						}
					}
				case EvReturn:
					if nn, known := errKnown(x, e); known && nn && lastIsErr(e.Fn) {
						return
					}
					for k, v := range x.St.auto {
						if strings.HasPrefix(k, "o:") && v != "" {
							x.Violate("not finished "+k[2:], e.Pos(), "the function can end with success although an output file was not finished")
						}
					}
				}
			}
			c.Sim("finish in "+fnName(g), g, rr, nil)
		}
	}
	c.Min("objects with open output files", 1)
	c.Min("users of such objects", 1)
}

func fieldOrder(nt *types.Named, name string) int {
	switch types.TypeString(fieldType(nt, name), nil) {
	case "*os.File", "io.WriteCloser", "io.Closer":
		return 0
	case "*compress/gzip.Writer":
		return 1
	}
	return 2
}

func isOuter(nt *types.Named, name string) bool { return fieldOrder(nt, name) == 2 }

// siteKey names a call site by the constants it passes, or its callee.
func siteKey(ins ssa.Instruction) string {
	ci := ins.(ssa.CallInstruction)
	s := strings.ReplaceAll(calleeName(ci.Common()), modPath+"/", "")
	for _, a := range ci.Common().Args {
		if k, ok := a.(*ssa.Const); ok && k.Value != nil {
			s += " " + k.Value.ExactString()
		}
	}
	return s
}

// loopCalls: the slices whose elements, one after the other, are passed as first argument to fn in the loop with this head.
func loopCalls(head *ssa.BasicBlock, fn *ssa.Function) (out []ssa.Value) {
	if len(head.Succs) != 2 {
		return
	}
	body := head.Succs[0]
	for _, b := range head.Parent().Blocks {
		if b != body && !body.Dominates(b) || !blockReaches(b, head) {
			continue
		}
		for _, ins := range b.Instrs {
			cl, ok := ins.(*ssa.Call)
			if !ok || cl.Call.StaticCallee() != fn || len(cl.Call.Args) == 0 {
				continue
			}
			if u, ok := cl.Call.Args[0].(*ssa.UnOp); ok {
				if ia, ok := u.X.(*ssa.IndexAddr); ok && ia.Index != nil {
					if _, ok := ia.Index.(*ssa.Const); !ok && (b == body || everyTrip(b, body, head)) {
						out = append(out, ia.X)
					}
				}
			}
		}
	}
	return
}

// everyTrip: every way from body back to head passes b.
func everyTrip(b, body, head *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{b: true}
	var rec func(x *ssa.BasicBlock) bool
	rec = func(x *ssa.BasicBlock) bool {
		if x == head {
			return true
		}
		if seen[x] {
			return false
		}
		seen[x] = true
		for _, n := range x.Succs {
			if rec(n) {
				return true
			}
		}
		return false
	}
	return !rec(body)
}

func blockReaches(a, b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var rec func(x *ssa.BasicBlock) bool
	rec = func(x *ssa.BasicBlock) bool {
		if x == b {
			return true
		}
		if seen[x] {
			return false
		}
		seen[x] = true
		for _, n := range x.Succs {
			if rec(n) {
				return true
			}
		}
		return false
	}
	for _, n := range a.Succs {
		if rec(n) {
			return true
		}
	}
	return false
}
