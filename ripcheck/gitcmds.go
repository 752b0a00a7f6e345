package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// gitCmd is one way in which an entry point of the library can start a git process, or use a checkpoint.
type gitCmd struct {
	kind  string // "git", "read", "write"
	argv  []string
	known bool // argv is fully known
	open  bool // the list of arguments is not followed
	none  bool // the caller's list of references is empty on this path
	skip  bool // some element of a listed collection was left out
	dir   string
	role  string // package that asks for it
	fn    string
	pos   string
	trace []string
	opts  map[string]bool // what is known about the options: name -> empty/false (true) or set (false)
	root  *ssa.Function
	ins   ssa.Instruction
}

type gitCmds struct {
	cmds    []*gitCmd
	inlined map[*ssa.Function]bool
	states  int
	steps   int
	over    []string
}

var optNames = map[string]bool{"RepoDir": true, "Logger": true, "CheckpointsDir": true, "NoStrictResume": true, "CommitFromIncl": true,
	"CommitFromMakeNonIncl": true, "AllBranches": true, "BranchesUseOrigin": true, "PullRequestSHAs": true, "IncrementalIgnoreBranchesOlderThan": true}

// optOf recognises the caller's option a term stands for.
func optOf(t *Term) string {
	if t.Op != "f" || t.ID != "" || !optNames[t.S] {
		return ""
	}
	b := t.A[0]
	for b.Op == "f" && b.ID == "" {
		b = b.A[0]
	}
	if b.Op == "param" {
		return t.S
	}
	return ""
}

func isExecCmd(name string) bool {
	return name == "os/exec.Command" || name == "os/exec.CommandContext"
}

var tempFileFns = map[string]bool{"io/ioutil.TempFile": true, "os.CreateTemp": true}

// isCheckpoint recognises the exported reader and writer of checkpoints.
func isCheckpoint(fn *ssa.Function) string {
	if fn == nil || fn.Signature.Recv() == nil {
		return ""
	}
	switch {
	case isNamed(fn.Signature.Recv().Type(), mp("ripsrc/history3/process/repo.CheckpointReader")) && fn.Name() == "Read":
		return "read"
	case isNamed(fn.Signature.Recv().Type(), mp("ripsrc/history3/process/repo.CheckpointWriter")) && fn.Name() == "Write":
		return "write"
	}
	return ""
}

// render writes a string term in terms of constants, options and temporary files.
func render(t *Term) string {
	if s, ok := t.Str(); ok {
		return s
	}
	if o := optOf(t); o != "" {
		return "{" + o + "}"
	}
	switch t.Op {
	case "b":
		if t.S == "+" {
			return render(t.A[0]) + render(t.A[1])
		}
	case "call":
		switch t.S {
		case "(*os.File).Name":
			f := t.A[0]
			if f.Op == "x" && f.S == "0" && f.A[0].Op == "call" && tempFileFns[f.A[0].S] {
				return "{temp}"
			}
		case "path/filepath.Join", "path.Join":
			return "join" + t.A[0].Canon()
		}
	}
	return "{?" + t.Canon() + "}"
}

func (x *X) renderStr(t *Term) string {
	if t.Op == "el" || t.Op == "ld" && t.A[0].Op == "ia" {
		b := t
		if t.Op == "ld" {
			b = t.A[0]
		}
		if g, ok := b.A[0].V.(*ssa.Global); ok && b.A[0].Op == "g" && b.A[0].ID == "" && len(b.A) == 2 {
			if l, ok := x.p.constList(g); ok {
				if i, ok := b.A[1].Int(); ok && i >= 0 && int(i) < len(l) {
					return l[i]
				}
			}
		}
	}
	if t.Op == "el" {
		if v := x.Get("cu:" + t.A[0].key); v != "" {
			return v[1:]
		}
	}
	if t.Op == "call" {
		switch t.S {
		case "path/filepath.Join", "path.Join":
			if el, ok := x.Elems(t.A[0]); ok {
				var out []string
				for _, e := range el {
					out = append(out, x.renderStr(e))
				}
				return strings.Join(out, "/")
			}
		case "fmt.Sprintf":
			f, ok := t.A[0].Str()
			el, ok2 := x.Elems(t.A[1])
			if ok && ok2 && strings.Count(f, "%")-2*strings.Count(f, "%%") == len(el) {
				out := ""
				i := 0
				for len(f) > 0 {
					j := strings.IndexByte(f, '%')
					if j < 0 || j+1 >= len(f) {
						out += f
						break
					}
					out += f[:j]
					switch f[j+1] {
					case '%':
						out += "%"
					case 's', 'v':
						out += x.renderStr(el[i])
						i++
					default:
						return "{?" + t.Canon() + "}"
					}
					f = f[j+2:]
				}
				return out
			}
		}
	}
	if t.Op == "b" && t.S == "+" {
		return x.renderStr(t.A[0]) + x.renderStr(t.A[1])
	}
	if t.Op == "g" && t.ID == "" {
		if g, ok := t.V.(*ssa.Global); ok {
			if c, ok := x.p.constGlobal(g); ok {
				return c
			}
		}
	}
	return render(t)
}

// gitCommands follows the exported methods of ripsrc.Ripsrc down to every process they start.
func (p *Prog) gitCommands() *gitCmds {
	p.gitMu.Lock()
	defer p.gitMu.Unlock()
	if p.gitc != nil {
		return p.gitc
	}
	g := &gitCmds{inlined: map[*ssa.Function]bool{}}
	p.gitc = g
	cut := map[string]bool{mp("ripsrc/gitblame2"): true}
	var sinkMemo = map[*ssa.Function]int{}
	isRoot := map[*ssa.Function]bool{}
	second := false
	var sinks func(fn *ssa.Function) bool
	sinks = func(fn *ssa.Function) bool {
		if fn == nil || fn.Blocks == nil || !inScopePkg(fnPkgPath(fn)) || cut[fnPkgPath(fn)] {
			return false
		}
		if isCheckpoint(fn) != "" {
			return true
		}
		if second && isRoot[fn] {
			return false
		}
		if v := sinkMemo[fn]; v != 0 {
			return v == 1
		}
		sinkMemo[fn] = 2
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if ci, ok := ins.(ssa.CallInstruction); ok && isExecCmd(calleeName(ci.Common())) {
					sinkMemo[fn] = 1
					return true
				}
				for _, o := range ins.Operands(nil) {
					if o == nil || *o == nil {
						continue
					}
					if f, ok := (*o).(*ssa.Function); ok && sinks(f) {
						sinkMemo[fn] = 1
						return true
					}
				}
			}
		}
		return false
	}
	var roots []*ssa.Function
	for _, fn := range p.Fns {
		if fn.Parent() != nil || fn.Signature.Recv() == nil {
			continue
		}
		rt := fn.Signature.Recv().Type()
		if (isNamed(rt, mp("ripsrc.Ripsrc")) || fn.Name() == "Run" && (isNamed(rt, mp("ripsrc/history3/process.Process")) || isNamed(rt, mp("ripsrc/commitmeta.Processor")))) && fn.Object() != nil && fn.Object().Exported() && sinks(fn) {
			// only those that do not just call another one
			roots = append(roots, fn)
		}
	}
	for _, r := range roots {
		isRoot[r] = true
	}
	first := len(roots)
	for n := 0; ; n++ {
		if n == first {
			// what is exported besides and was not reached
			second = true
			cut = map[string]bool{}
			sinkMemo = map[*ssa.Function]int{}
			for _, fn := range p.Fns {
				if fn.Parent() == nil && fn.Object() != nil && fn.Object().Exported() && !isRoot[fn] && !g.inlined[fn] && isLibrary(fn) && isCheckpoint(fn) == "" && sinks(fn) {
					roots = append(roots, fn)
				}
			}
		}
		if n >= len(roots) {
			break
		}
		root := roots[n]
		seen := map[string]bool{}
		r := &Rule{Name: "git commands", MaxState: 60000, WantSlice: true}
		r.Inline = func(x *X, fn *ssa.Function, call ssa.CallInstruction) bool {
			if isRoot[fn] && fn.Signature.Recv() != nil && isNamed(fn.Signature.Recv().Type(), mp("ripsrc.Ripsrc")) || isCheckpoint(fn) != "" || cut[fnPkgPath(fn)] {
				return false
			}
			if sinks(fn) {
				return true
			}
			for i := 0; i < fn.Signature.Results().Len(); i++ {
				if types.TypeString(fn.Signature.Results().At(i).Type(), nil) == "[]string" && len(fn.Blocks) <= 30 && isLibrary(fn) && !p.transitively(fn, isChanOp) {
					return true
				}
			}
			// constructors and other small straight helpers
			if len(fn.Blocks) > 8 || len(p.Loops(fn).back) > 0 || fn.Signature.Results().Len() != 1 {
				return false
			}
			rt := fn.Signature.Results().At(0).Type()
			n := namedOf(rt)
			return n != nil && n.Obj().Pkg() != nil && inScopePkg(n.Obj().Pkg().Path()) || types.TypeString(rt, nil) == "string" || types.TypeString(rt, nil) == "[]string"
		}
		sep := "\x1f"
		list := func(x *X, t *Term) (string, bool) {
			for _, f := range x.St.facts {
				if f.t.Op == "tag" && f.t.A[0] == t && strings.HasPrefix(f.t.S, "list:") {
					return f.t.S[5:], true
				}
			}
			if el, ok := x.Elems(t); ok {
				out := ""
				for _, e := range el {
					out += x.renderStr(e) + sep
				}
				return out, true
			}
			if v, ok := x.IsEmpty(t); ok && v {
				return "", true
			}
			if t.Op == "g" && t.ID == "" {
				if g, ok := t.V.(*ssa.Global); ok {
					if l, ok := p.constList(g); ok {
						return strings.Join(append(l, ""), sep), true
					}
				}
			}
			if t.Op == "app" {
				return "", false
			}
			if o := optOf(t); o != "" {
				return "*{" + o + "}" + sep, true
			}
			if t.Op == "f" && t.S == "WantedBranchRefs" {
				return "*{WantedBranchRefs}" + sep, true
			}
			return "", false
		}
		retag := func(x *X, t *Term, content string) {
			for k, f := range x.St.facts {
				if f.t.Op == "tag" && f.t.A[0] == t && strings.HasPrefix(f.t.S, "list:") {
					delete(x.St.facts, k)
				}
			}
			x.Tag("list:"+content, t)
		}
		record := func(x *X, e *Event, k *gitCmd) {
			k.root = root
			k.ins = e.Ins
			k.fn = fnName(x.Fn())
			k.pos = p.Pos(e.Pos())
			for fr := x.St.frame; fr != nil; fr = fr.parent {
				pk := strings.TrimPrefix(fnPkgPath(fr.fn), modPath+"/")
				k.role = pk
				if !strings.HasSuffix(pk, "gitexec") {
					break
				}
			}
			k.opts = map[string]bool{}
			var ks []string
			o := optBase(p, x)
			for _, n := range []string{"CommitFromIncl", "CheckpointsDir"} {
				if v, ok := x.IsEmpty(x.ts.Field(o, n)); ok {
					k.opts[n] = v
				}
			}
			for _, n := range []string{"AllBranches", "CommitFromMakeNonIncl", "NoStrictResume", "BranchesUseOrigin"} {
				if v, ok := x.KnownCond(x.ts.Field(o, n)); ok {
					k.opts[n] = !v
				}
			}
			for n, v := range k.opts {
				if v {
					n = "!" + n
				}
				ks = append(ks, n)
			}
			sort.Strings(ks)
			key := k.kind + p.Pos(e.Pos()) + k.role + strings.Join(k.argv, sep) + k.dir + strings.Join(ks, ",")
			if seen[key] {
				return
			}
			seen[key] = true
			for t := x.St.trace; t != nil; t = t.prev {
				k.trace = append(k.trace, p.Pos(t.pos)+": "+t.text)
			}
			for i, j := 0, len(k.trace)-1; i < j; i, j = i+1, j-1 {
				k.trace[i], k.trace[j] = k.trace[j], k.trace[i]
			}
			if len(k.trace) > 40 {
				k.trace = k.trace[len(k.trace)-40:]
			}
			g.cmds = append(g.cmds, k)
		}
		r.OnEvent = func(x *X, e *Event) {
			switch e.Kind {
			case EvSlice:
				if s, ok := types.Unalias(e.Ins.(*ssa.Slice).Type()).Underlying().(*types.Slice); ok && types.TypeString(s.Elem(), nil) == "string" {
					if l, ok := list(x, e.Res); ok {
						retag(x, e.Res, l)
					}
				}
			case EvIter:
				if l, ok := list(x, e.Coll); ok && l != "" && !strings.Contains(l, "*{") && !e.Coll.IsConst() && e.IKind == "slice" {
					// a list that is known is gone through element by element
					el := strings.Split(strings.TrimSuffix(l, sep), sep)
					i, _ := strconv.Atoi(x.Get("ix:" + e.Coll.key))
					if e.Taken != (i < len(el)) {
						x.Stop()
						return
					}
					x.Set("cu:"+e.Coll.key, "")
					x.Set("ix:"+e.Coll.key, "")
					if e.Taken {
						x.Set("cu:"+e.Coll.key, "="+el[i])
						x.Set("ix:"+e.Coll.key, strconv.Itoa(i+1))
					}
					return
				}
				if strings.HasSuffix(e.Coll.S, "WantedBranchRefs") || e.Coll.IsConst() {
					if x.Get("it") == "1" {
						x.Set("skipped", "1")
					}
					x.Set("it", "")
					if e.Taken {
						x.Set("it", "1")
						x.Set("some", "1")
					} else if x.Get("some") == "" && strings.HasSuffix(e.Coll.S, "WantedBranchRefs") {
						x.Set("none", "1")
					}
				}
			case EvAppend:
				if ci, isV := e.Ins.(*ssa.Call); !isV || types.TypeString(ci.Type(), nil) != "[]string" {
					return
				}
				a, ok := list(x, e.Args[0])
				if !ok {
					return
				}
				el, ok2 := x.Elems(e.Args[1])
				if ok2 && len(el) == 1 && (el[0].Op == "el" && (strings.HasSuffix(el[0].A[0].S, "WantedBranchRefs") || el[0].A[0].IsConst())) {
					x.Set("it", "")
					if !strings.HasSuffix(a, "*{WantedBranchRefs}"+sep) {
						a += "*{WantedBranchRefs}" + sep
					}
					retag(x, e.Res, a)
					return
				}
				if len(a) > 8000 {
					if o := fnName(x.Fn()); len(g.over) == 0 || g.over[len(g.over)-1] != o {
						g.over = append(g.over, o)
					}
					x.Stop() // a list that grows without end
					return
				}
				if b, ok := list(x, e.Args[1]); ok {
					if strings.Contains(b, "{?") && strings.HasSuffix(a, b) {
						b = "" // unknown as it is
					}
					retag(x, e.Res, a+b)
				}
			case EvGo:
				if fn, _ := x.resolveFn(e.Args[0]); fn != nil && sinks(fn) {
					x.Fork(e, x.St.auto.clone())
				}
			case EvCall:
				if isExecCmd(e.Name) {
					i := 0
					if e.Name == "os/exec.CommandContext" {
						i = 1
					}
					l, ok := list(x, e.Args[i+1])
					s := x.renderStr(e.Args[i]) + sep + l
					if !ok {
						s = "?" + s
					}
					x.Retag("cmd:"+s, e.Res)
					return
				}
				switch e.Name {
				case "(*os/exec.Cmd).Run", "(*os/exec.Cmd).Start", "(*os/exec.Cmd).Output", "(*os/exec.Cmd).CombinedOutput":
					k := &gitCmd{kind: "git", known: true, skip: x.Get("skipped") != "", none: x.Get("none") != ""}
					found := false
					for _, f := range x.St.facts {
						if f.t.Op == "tag" && f.t.A[0] == e.Args[0] && strings.HasPrefix(f.t.S, "cmd:") {
							s := f.t.S[4:]
							found = true
							if strings.HasPrefix(s, "?") {
								k.known = false
								k.open = true
								s = s[1:]
							}
							k.argv = strings.Split(strings.TrimSuffix(s, sep), sep)
						}
					}
					if !found {
						k.known = false
						k.open = true
					}
					if k.known {
						for _, a := range k.argv {
							if strings.Contains(a, "{?") {
								k.known = false
							}
						}
					}
					k.dir = x.renderStr(x.Load(x.ts.mk("fa", "Dir", "", e.Args[0]), types.Typ[types.String]))
					record(x, e, k)
				}
				if kind := isCheckpoint(e.Fn); kind != "" {
					k := &gitCmd{kind: kind, known: true}
					for _, a := range e.Args[1:] {
						k.argv = append(k.argv, x.renderStr(a))
					}
					record(x, e, k)
				}
			}
		}
		s := NewSim(p, r)
		s.Run(root, nil)
		g.states += s.States
		g.steps += s.Steps
		for f := range s.Inlined {
			g.inlined[f] = true
		}
		if s.Over {
			g.over = append(g.over, fnName(root))
		}
		if s.RecHit != "" {
			g.over = append(g.over, s.RecHit)
		}
	}
	return g
}

// optBase is the term of the options in the receiver.
func optBase(p *Prog, x *X) *Term {
	if len(x.root.fn.Params) == 0 {
		return x.ts.Nil()
	}
	recv := x.ParamTerm(0)
	st := structOf(x.root.fn.Params[0].Type())
	for i := 0; st != nil && i < st.NumFields(); i++ {
		if f := structOf(st.Field(i).Type()); f != nil {
			for j := 0; j < f.NumFields(); j++ {
				if f.Field(j).Name() == "CommitFromIncl" {
					return x.ts.Field(recv, st.Field(i).Name())
				}
			}
		}
	}
	return recv
}

// constGlobal is the value of a string variable that is only ever set by its declaration.
func (p *Prog) constGlobal(g *ssa.Global) (string, bool) {
	val, n := "", 0
	for _, fn := range p.Fns {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				for _, o := range ins.Operands(nil) {
					if *o != ssa.Value(g) {
						continue
					}
					switch i := ins.(type) {
					case *ssa.UnOp:
					case *ssa.Store:
						c, ok := i.Val.(*ssa.Const)
						if !ok || i.Addr != ssa.Value(g) || fn.Name() != "init" || c.Value == nil {
							return "", false
						}
						val = constant.StringVal(c.Value)
						n++
					default:
						return "", false
					}
				}
			}
		}
	}
	return val, n == 1
}

// isLibrary: the function belongs to the library, not to a command line tool.
func isLibrary(fn *ssa.Function) bool {
	pk := fnPkgPath(fn)
	return inScopePkg(pk) && (pk == mp("ripsrc") || strings.HasPrefix(pk, mp("ripsrc/"))) && !strings.HasPrefix(pk, mp("ripsrc/cmd"))
}

// constList is the content of a list of texts that is only ever set by its declaration and only read.
func (p *Prog) constList(g *ssa.Global) ([]string, bool) {
	if types.TypeString(g.Type().Underlying().(*types.Pointer).Elem().Underlying(), nil) != "[]string" {
		return nil, false
	}
	var arr *ssa.Alloc
	n := 0
	for _, fn := range p.Fns {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				uses := false
				for _, o := range ins.Operands(nil) {
					uses = uses || o != nil && *o == ssa.Value(g)
				}
				if !uses {
					continue
				}
				switch v := ins.(type) {
				case *ssa.Store:
					sl, ok := v.Val.(*ssa.Slice)
					if v.Addr != ssa.Value(g) || fn.Name() != "init" || !ok || n > 0 {
						return nil, false
					}
					n++
					if arr, ok = sl.X.(*ssa.Alloc); !ok || sl.Low != nil || sl.High != nil {
						return nil, false
					}
				case *ssa.UnOp:
					for _, u := range *v.Referrers() {
						switch u := u.(type) {
						case *ssa.DebugRef, *ssa.Slice:
							if s, ok := u.(*ssa.Slice); ok {
								if s.High != nil {
									return nil, false
								}
								for _, w := range *s.Referrers() {
									if k, ok := w.(*ssa.Call); !ok || !isBuiltinCall(k, "append") && !isBuiltinCall(k, "len") {
										return nil, false
									}
								}
							}
						case *ssa.IndexAddr:
							for _, w := range *u.Referrers() {
								if d, ok := w.(*ssa.UnOp); !ok || d.Op != token.MUL {
									return nil, false
								}
							}
						case *ssa.Call:
							if !isBuiltinCall(u, "append") && !isBuiltinCall(u, "len") {
								return nil, false
							}
						default:
							return nil, false
						}
					}
				default:
					return nil, false
				}
			}
		}
	}
	if arr == nil {
		return nil, false
	}
	at, ok := arr.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
	if !ok {
		return nil, false
	}
	out := make([]string, at.Len())
	for _, u := range *arr.Referrers() {
		ia, ok := u.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		k, ok := ia.Index.(*ssa.Const)
		if !ok {
			return nil, false
		}
		for _, w := range *ia.Referrers() {
			st, ok := w.(*ssa.Store)
			if !ok {
				continue
			}
			v, ok := st.Val.(*ssa.Const)
			if !ok || v.Value == nil || v.Value.Kind() != constant.String {
				return nil, false
			}
			out[k.Int64()] = constant.StringVal(v.Value)
		}
	}
	return out, true
}

func isBuiltinCall(k *ssa.Call, name string) bool {
	b, ok := k.Call.Value.(*ssa.Builtin)
	return ok && b.Name() == name
}
