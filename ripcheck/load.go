package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/pinpt/ripsrc"

// Prog is the type-checked program and its SSA form.
type Prog struct {
	Dir      string
	Fset     *token.FileSet
	Pkgs     map[string]*packages.Package
	SSA      *ssa.Program
	SPkgs    map[string]*ssa.Package
	Fns      []*ssa.Function // every function with a body in scope, including closures
	anon     map[*ssa.Function][]*ssa.Function
	mods     map[*ssa.Function]map[string]bool
	loops    map[*ssa.Function]*loopInfo
	live     map[*ssa.Function]*liveInfo
	skel     *skSlice
	skelRuns []*Skel
	liveMu   sync.Mutex
	mutated  map[string]bool
	gitMu    sync.Mutex
	gitc     *gitCmds
	ginitMu  sync.Mutex
	ginits   map[*ssa.Global]ginit
}

func inScopePkg(path string) bool {
	if path != modPath && !strings.HasPrefix(path, modPath+"/") {
		return false
	}
	rel := strings.TrimPrefix(path, modPath)
	for _, part := range strings.Split(rel, "/") {
		if part == "tests" || part == "e2etests" || part == "testutil" {
			return false
		}
	}
	return true
}

func LoadProg(dir string, tags string) (*Prog, error) {
	if p, err := loadProg(dir, tags, true); err == nil {
		return p, nil
	}
	return loadProg(dir, tags, false)
}

func loadProg(dir string, tags string, norm bool) (*Prog, error) {
	fset := token.NewFileSet()
	cfg := &packages.Config{
		Mode: packages.LoadSyntax | packages.NeedModule,
		Dir:  dir,
		Fset: fset,
		Env:  os.Environ(),
	}
	if norm {
		cfg.ParseFile = normFile
	}
	if tags != "" {
		cfg.BuildFlags = []string{"-tags=" + tags}
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	p := &Prog{Dir: dir, Fset: fset, Pkgs: map[string]*packages.Package{}, SPkgs: map[string]*ssa.Package{},
		anon: map[*ssa.Function][]*ssa.Function{}, mods: map[*ssa.Function]map[string]bool{},
		loops: map[*ssa.Function]*loopInfo{}, live: map[*ssa.Function]*liveInfo{}}
	for _, pk := range pkgs {
		if len(pk.Errors) > 0 {
			return nil, fmt.Errorf("package %s: %v", pk.PkgPath, pk.Errors[0])
		}
	}
	sp, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	sp.Build()
	p.SSA = sp
	for i, pk := range pkgs {
		if !inScopePkg(pk.PkgPath) {
			continue
		}
		p.Pkgs[pk.PkgPath] = pk
		if spkgs[i] != nil {
			p.SPkgs[pk.PkgPath] = spkgs[i]
		}
	}
	if len(p.SPkgs) == 0 {
		return nil, fmt.Errorf("no packages found in %s", dir)
	}
	for fn := range ssautil.AllFunctions(sp) {
		if fn.Blocks == nil || fn.Synthetic != "" && fn.Parent() == nil && fn.Name() != "init" {
			continue
		}
		if p.FnInScope(fn) {
			p.Fns = append(p.Fns, fn)
		}
	}
	sort.Slice(p.Fns, func(i, j int) bool {
		a, b := p.Fns[i], p.Fns[j]
		if a.Pos() != b.Pos() {
			return a.Pos() < b.Pos()
		}
		return a.String() < b.String()
	})
	return p, nil
}

func fnPkgPath(fn *ssa.Function) string {
	f := fn
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg != nil {
		return f.Pkg.Pkg.Path()
	}
	if o := f.Origin(); o != nil && o.Pkg != nil {
		return o.Pkg.Pkg.Path()
	}
	if f.Object() != nil && f.Object().Pkg() != nil {
		return f.Object().Pkg().Path()
	}
	if r := f.Signature.Recv(); r != nil {
		if n := namedOf(r.Type()); n != nil && n.Obj().Pkg() != nil {
			return n.Obj().Pkg().Path()
		}
	}
	return ""
}

func (p *Prog) FnInScope(fn *ssa.Function) bool {
	if !inScopePkg(fnPkgPath(fn)) {
		return false
	}
	if pos := fn.Pos(); pos.IsValid() {
		if strings.HasSuffix(p.Fset.Position(pos).Filename, "_test.go") {
			return false
		}
	}
	return true
}

func namedOf(t types.Type) *types.Named {
	t = types.Unalias(t)
	if pt, ok := t.(*types.Pointer); ok {
		t = types.Unalias(pt.Elem())
	}
	n, _ := t.(*types.Named)
	return n
}

// Func finds a package function or, with a dot, a method: Func("ripsrc/code", "T.M").
func (p *Prog) Func(rel string, name string) *ssa.Function {
	path := modPath
	if rel != "" {
		path += "/" + rel
	}
	sp := p.SPkgs[path]
	if sp == nil {
		return nil
	}
	if i := strings.Index(name, "."); i >= 0 {
		tn, mn := name[:i], name[i+1:]
		t := sp.Type(tn)
		if t == nil {
			return nil
		}
		for _, typ := range []types.Type{types.NewPointer(t.Type()), t.Type()} {
			ms := p.SSA.MethodSets.MethodSet(typ)
			if sel := ms.Lookup(sp.Pkg, mn); sel != nil {
				f := p.SSA.MethodValue(sel)
				if f != nil && f.Synthetic == "" {
					return f
				}
				if f != nil {
					if o, ok := sel.Obj().(*types.Func); ok {
						if g := p.SSA.FuncValue(o); g != nil {
							return g
						}
					}
					return f
				}
			}
		}
		return nil
	}
	return sp.Func(name)
}

func (p *Prog) Pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "?"
	}
	ps := p.Fset.Position(pos)
	f := ps.Filename
	if r, err := filepath.Rel(p.Dir, f); err == nil {
		f = r
	}
	return fmt.Sprintf("%s:%d", f, ps.Line)
}

// fnName is a short stable name: package-relative, with the closure nesting.
func fnName(fn *ssa.Function) string {
	return strings.ReplaceAll(fn.RelString(nil), modPath+"/", "")
}

func instrPos(ins ssa.Instruction) token.Pos {
	if p := ins.Pos(); p.IsValid() {
		return p
	}
	if v, ok := ins.(*ssa.If); ok {
		if p := v.Cond.Pos(); p.IsValid() {
			return p
		}
	}
	b := ins.Block()
	if b == nil {
		return token.NoPos
	}
	idx := -1
	for i, x := range b.Instrs {
		if x == ins {
			idx = i
		}
	}
	for i := idx; i >= 0; i-- {
		if p := b.Instrs[i].Pos(); p.IsValid() {
			return p
		}
	}
	for i := idx; i >= 0 && i < len(b.Instrs); i++ {
		if p := b.Instrs[i].Pos(); p.IsValid() {
			return p
		}
	}
	return ins.Parent().Pos()
}

// calleeName names the function a call instruction targets; "" if dynamic.
func calleeName(c *ssa.CallCommon) string {
	if c.IsInvoke() {
		return "(" + types.TypeString(c.Value.Type(), nil) + ")." + c.Method.Name()
	}
	switch f := c.Value.(type) {
	case *ssa.Function:
		if o := f.Origin(); o != nil {
			f = o
		}
		return f.RelString(nil)
	case *ssa.Builtin:
		return "builtin." + f.Name()
	case *ssa.MakeClosure:
		return f.Fn.(*ssa.Function).RelString(nil)
	}
	return ""
}

// ---- loops ----

type loopInfo struct {
	header map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool // header -> body blocks (including header)
	back   map[[2]int]bool                              // (from,to) back edges
	dom    bool
}

func (p *Prog) Loops(fn *ssa.Function) *loopInfo {
	if li := p.loops[fn]; li != nil {
		return li
	}
	li := &loopInfo{header: map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}, back: map[[2]int]bool{}}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				li.back[[2]int{b.Index, s.Index}] = true
				body := li.header[s]
				if body == nil {
					body = map[*ssa.BasicBlock]bool{s: true}
					li.header[s] = body
				}
				stack := []*ssa.BasicBlock{b}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					if body[x] {
						continue
					}
					body[x] = true
					stack = append(stack, x.Preds...)
				}
			}
		}
	}
	p.loops[fn] = li
	return li
}

// ---- liveness ----

type liveInfo struct {
	in map[*ssa.BasicBlock]map[ssa.Value]bool
}

func (p *Prog) Live(fn *ssa.Function) *liveInfo {
	if l := p.live[fn]; l != nil {
		return l
	}
	l := &liveInfo{in: map[*ssa.BasicBlock]map[ssa.Value]bool{}}
	use := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	def := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	phiUse := map[*ssa.BasicBlock]map[ssa.Value]bool{} // values used by phis of successors
	var ops []*ssa.Value
	for _, b := range fn.Blocks {
		use[b], def[b], phiUse[b] = map[ssa.Value]bool{}, map[ssa.Value]bool{}, map[ssa.Value]bool{}
		l.in[b] = map[ssa.Value]bool{}
	}
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			if phi, ok := ins.(*ssa.Phi); ok {
				for i, e := range phi.Edges {
					phiUse[b.Preds[i]][e] = true
				}
				def[b][phi] = true
				continue
			}
			ops = ins.Operands(ops[:0])
			for _, o := range ops {
				if *o != nil && !def[b][*o] {
					use[b][*o] = true
				}
			}
			if v, ok := ins.(ssa.Value); ok {
				def[b][v] = true
			}
		}
	}
	for changed := true; changed; {
		changed = false
		for i := len(fn.Blocks) - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			in := l.in[b]
			add := func(v ssa.Value) {
				if !in[v] {
					in[v] = true
					changed = true
				}
			}
			for v := range use[b] {
				add(v)
			}
			for v := range phiUse[b] {
				if !def[b][v] {
					add(v)
				}
			}
			for _, s := range b.Succs {
				for v := range l.in[s] {
					if !def[b][v] {
						add(v)
					}
				}
			}
		}
	}
	p.live[fn] = l
	return l
}

// liveAfter reports whether v is used after instruction idx of block b.
func (p *Prog) liveAfter(b *ssa.BasicBlock, idx int, v ssa.Value) bool {
	var ops []*ssa.Value
	for _, ins := range b.Instrs[idx+1:] {
		ops = ins.Operands(ops[:0])
		for _, o := range ops {
			if *o == v {
				return true
			}
		}
	}
	p.liveMu.Lock()
	l := p.Live(b.Parent())
	p.liveMu.Unlock()
	for _, s := range b.Succs {
		if l.in[s][v] {
			return true
		}
		for _, ins := range s.Instrs {
			phi, ok := ins.(*ssa.Phi)
			if !ok {
				break
			}
			for i, e := range phi.Edges {
				if s.Preds[i] == b && e == v {
					return true
				}
			}
		}
	}
	return false
}

// ---- modification sets ----

// Mods is the set of "Type.field", "global" and map types that fn may store to, transitively.
func (p *Prog) Mods(fn *ssa.Function) map[string]bool {
	if m, ok := p.mods[fn]; ok {
		return m
	}
	m := map[string]bool{}
	p.mods[fn] = m
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if f == nil || seen[f] || f.Blocks == nil || !inScopePkg(fnPkgPath(f)) {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				switch x := ins.(type) {
				case *ssa.Store:
					base := x.Addr
					for {
						if fa, ok := base.(*ssa.FieldAddr); ok {
							base = fa.X
							continue
						}
						break
					}
					if _, fresh := base.(*ssa.Alloc); fresh {
						break // an object created by this call
					}
					if k := modKey(x.Addr); k != "" {
						m[k] = true
					}
				case *ssa.MapUpdate:
					m["map:"+types.TypeString(x.Map.Type().Underlying(), nil)] = true
				case *ssa.MakeClosure:
					visit(x.Fn.(*ssa.Function))
				case ssa.CallInstruction:
					c := x.Common()
					if f := c.StaticCallee(); f != nil {
						visit(f)
					} else if bi, ok := c.Value.(*ssa.Builtin); ok && bi.Name() == "delete" {
						m["map:"+types.TypeString(c.Args[0].Type().Underlying(), nil)] = true
					}
				}
			}
		}
	}
	visit(fn)
	return m
}

// WriteOnce reports whether a field ("Type.field") is only assigned while its object is being built: every store
// to it is to an object allocated in the same function, and its address goes nowhere else.
func (p *Prog) WriteOnce(key string) bool {
	if p.mutated == nil {
		p.mutated = map[string]bool{}
		for _, fn := range p.Fns {
			for _, b := range fn.Blocks {
				for _, ins := range b.Instrs {
					switch x := ins.(type) {
					case *ssa.Store:
						if st, ok := types.Unalias(x.Val.Type()).Underlying().(*types.Struct); ok {
							base := x.Addr
							if _, fresh := base.(*ssa.Alloc); !fresh {
								if fa, ok := base.(*ssa.FieldAddr); ok {
									if _, fresh := fa.X.(*ssa.Alloc); fresh {
										continue
									}
								}
								for i := 0; i < st.NumFields(); i++ {
									p.mutated[fieldKeyOf(x.Val.Type(), i)] = true
								}
							}
						}
					case *ssa.FieldAddr:
						k := fieldKeyOf(x.X.Type(), x.Field)
						if x.Referrers() == nil {
							continue
						}
						for _, r := range *x.Referrers() {
							switch u := r.(type) {
							case *ssa.UnOp, *ssa.DebugRef, *ssa.FieldAddr:
							case *ssa.IndexAddr:
							case *ssa.Store:
								if u.Addr != ssa.Value(x) {
									p.mutated[k] = true
									break
								}
								base := x.X
								for {
									if fa, ok := base.(*ssa.FieldAddr); ok {
										base = fa.X
										continue
									}
									break
								}
								if _, fresh := base.(*ssa.Alloc); !fresh {
									p.mutated[k] = true
								}
							default:
								p.mutated[k] = true
							}
						}
					}
				}
			}
		}
	}
	return !p.mutated[key]
}

func modKey(addr ssa.Value) string {
	switch a := addr.(type) {
	case *ssa.FieldAddr:
		return fieldKeyOf(a.X.Type(), a.Field)
	case *ssa.Global:
		return "glob:" + a.RelString(nil)
	}
	return ""
}

func structOf(t types.Type) *types.Struct {
	t = types.Unalias(t)
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		t = pt.Elem()
	}
	st, _ := t.Underlying().(*types.Struct)
	return st
}

func typeKey(t types.Type) string {
	t = types.Unalias(t)
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		t = types.Unalias(pt.Elem())
	}
	return types.TypeString(t, nil)
}

func fieldKeyOf(t types.Type, i int) string {
	st := structOf(t)
	if st == nil {
		return ""
	}
	return typeKey(t) + "." + st.Field(i).Name()
}
