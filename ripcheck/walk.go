package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A walk is a recursive function or a worklist loop that goes from commits to their neighbours in a map from
// commits to lists of commits. Each is judged for an arbitrary step: one commit is taken, in any state of the
// captured variables, and everything that is done before the next one is taken is followed.

const branchesPkg = "ripsrc/branches2"

// walk is what was seen of one walk, over all paths.
type walk struct {
	fn      *ssa.Function
	root    *ssa.Function
	starts  map[string]*Term
	visited map[string]bool // maps that are set for each commit that was not in them
	sets    map[string]int  // maps that are set for a commit (paths)
	full    int             // takes of new commits
	takes   []take
	skips   []skip
	pushes  []skip
	graphs  map[string]*Term
	late    bool // commits are marked when they are taken, not when they are put on the list
	pos     token.Pos
}

// walkSet is what root's walks were found to do.
type walkSet struct {
	root  *ssa.Function
	walks map[*ssa.Function]*walk
	maps  map[string]*Term
	// keys set before the walks
	preset map[string]map[string]bool
	// calculations with the result outside the walks
	outside []token.Pos
}

// take: what happened between taking a commit and taking the next.
type take struct {
	why  string   // last condition known to hold for the commit when it was not followed
	in   []string // maps known to hold the commit
	not  []string // maps known not to hold it
	set  []string
	eff  []string
	cond string // conditions on the parameters of the root
	// it was not in the visited set and is put into it
	checked bool
	done    bool // all its parents were followed
	pos     token.Pos
	trace   []string
}

// skip: a neighbour that is not followed.
type skip struct {
	m    string // because it is in this map
	not  []string
	cond string
	eff  []string
	set  []string
	pos  token.Pos
}

func isStrListMap(t types.Type) bool {
	m, ok := types.Unalias(t).Underlying().(*types.Map)
	if !ok {
		return false
	}
	s, ok := types.Unalias(m.Elem()).Underlying().(*types.Slice)
	return ok && types.TypeString(m.Key().Underlying(), nil) == "string" && types.TypeString(s.Elem().Underlying(), nil) == "string"
}

func isStrSlice(t types.Type) bool {
	s, ok := types.Unalias(t).Underlying().(*types.Slice)
	return ok && types.TypeString(s.Elem().Underlying(), nil) == "string"
}

func looksUpGraph(f *ssa.Function, ins ssa.Instruction) bool {
	l, ok := ins.(*ssa.Lookup)
	return ok && isStrListMap(l.X.Type())
}

// reachFns: the functions of the library that code can get to from these.
func (p *Prog) reachFns(roots []*ssa.Function) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if f == nil || out[f] || f.Blocks == nil {
			return
		}
		out[f] = true
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if ci, ok := ins.(ssa.CallInstruction); ok {
					for _, g := range p.Callees(ci) {
						visit(g)
					}
				}
				if mc, ok := ins.(*ssa.MakeClosure); ok {
					visit(mc.Fn.(*ssa.Function))
				}
			}
		}
	}
	for _, r := range roots {
		visit(r)
	}
	return out
}

// callsDirect: the functions f may call.
func (p *Prog) callsOf(f *ssa.Function) (out []*ssa.Function) {
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			if ci, ok := ins.(ssa.CallInstruction); ok {
				out = append(out, p.Callees(ci)...)
			}
		}
	}
	return
}

// cycleOf: the functions in a call cycle with f, f included if it is in one.
func (p *Prog) cycleOf(f *ssa.Function) map[*ssa.Function]bool {
	reach := func(from *ssa.Function) map[*ssa.Function]bool {
		seen := map[*ssa.Function]bool{}
		var visit func(g *ssa.Function)
		visit = func(g *ssa.Function) {
			for _, h := range p.callsOf(g) {
				if !seen[h] {
					seen[h] = true
					visit(h)
				}
			}
		}
		visit(from)
		return seen
	}
	out := map[*ssa.Function]bool{}
	r := reach(f)
	if !r[f] {
		return out
	}
	for g := range r {
		if reach(g)[f] {
			out[g] = true
		}
	}
	return out
}

// worklist describes a loop that takes commits off a list and puts others on it.
type worklist struct {
	fn    *ssa.Function
	pops  map[ssa.Instruction]bool
	pushs map[ssa.Instruction]bool
	init  []ssa.Value // the list before the loop
}

func (p *Prog) worklists(f *ssa.Function) *worklist {
	w := &worklist{fn: f, pops: map[ssa.Instruction]bool{}, pushs: map[ssa.Instruction]bool{}}
	loops := p.Loops(f)
	for h, body := range loops.header {
		look := false
		for b := range body {
			for _, ins := range b.Instrs {
				if looksUpGraph(f, ins) {
					look = true
				}
			}
		}
		if !look {
			continue
		}
		for _, ins := range h.Instrs {
			phi, ok := ins.(*ssa.Phi)
			if !ok {
				break
			}
			if !isStrSlice(phi.Type()) {
				continue
			}
			// values of the list inside the loop
			vals := map[ssa.Value]bool{phi: true}
			for ch := true; ch; {
				ch = false
				for b := range body {
					for _, in := range b.Instrs {
						v, ok := in.(ssa.Value)
						if !ok || vals[v] {
							continue
						}
						switch u := in.(type) {
						case *ssa.Slice:
							ok = vals[u.X]
						case *ssa.Phi:
							ok = false
							for _, e := range u.Edges {
								ok = ok || vals[e]
							}
							ok = ok && isStrSlice(u.Type())
						case *ssa.Call:
							bi, is := u.Call.Value.(*ssa.Builtin)
							ok = is && bi.Name() == "append" && vals[u.Call.Args[0]]
						default:
							ok = false
						}
						if ok {
							vals[v] = true
							ch = true
						}
					}
				}
			}
			grows := false
			var pops []ssa.Instruction
			for b := range body {
				for _, in := range b.Instrs {
					if c, ok := in.(*ssa.Call); ok && vals[c] {
						grows = true
					}
					if ia, ok := in.(*ssa.IndexAddr); ok && vals[ia.X] {
						pops = append(pops, ia)
					}
				}
			}
			back := false
			for k, e := range phi.Edges {
				if body[h.Preds[k]] && vals[e] && e != ssa.Value(phi) {
					back = true
				}
			}
			// commits that are looked up must come off this list
			used := false
			for _, in := range pops {
				for _, r := range *in.(*ssa.IndexAddr).Referrers() {
					if ld, ok := r.(*ssa.UnOp); ok && ld.Op == token.MUL {
						for _, u := range *ld.Referrers() {
							if l, ok := u.(*ssa.Lookup); ok && l.Index == ssa.Value(ld) {
								used = true
							}
							if _, ok := u.(ssa.CallInstruction); ok {
								used = true
							}
						}
					}
				}
			}
			if grows && back && used && len(pops) > 0 {
				for _, in := range pops {
					w.pops[in] = true
				}
				for k, e := range phi.Edges {
					if !body[h.Preds[k]] {
						w.init = append(w.init, e)
					}
				}
				for b := range body {
					for _, in := range b.Instrs {
						if c, ok := in.(*ssa.Call); ok && vals[c] {
							w.pushs[in] = true
						}
					}
				}
			}
		}
	}
	if len(w.pops) == 0 {
		return nil
	}
	return w
}

// walkers: recursive functions and worklist loops over the commit graph among fns.
func (p *Prog) walkers(fns map[*ssa.Function]bool) (rec map[*ssa.Function]map[*ssa.Function]bool, wl map[*ssa.Function]*worklist) {
	rec = map[*ssa.Function]map[*ssa.Function]bool{}
	wl = map[*ssa.Function]*worklist{}
	for f := range fns {
		if !p.FnInScope(f) {
			continue
		}
		if cyc := p.cycleOf(f); len(cyc) > 0 {
			look := false
			for g := range cyc {
				for _, b := range g.Blocks {
					for _, ins := range b.Instrs {
						look = look || looksUpGraph(g, ins)
					}
				}
			}
			if look {
				rec[f] = cyc
			}
		}
		if w := p.worklists(f); w != nil {
			wl[f] = w
		}
	}
	return
}

// simWalks follows root and returns the walks it makes.
func (c *Ctx) simWalks(root *ssa.Function, rec map[*ssa.Function]map[*ssa.Function]bool, wl map[*ssa.Function]*worklist, extra func(x *X, e *Event)) *walkSet {
	walks := map[*ssa.Function]*walk{}
	ws := &walkSet{root, walks, map[string]*Term{}, map[string]map[string]bool{}, nil}
	get := func(f *ssa.Function) *walk {
		w := walks[f]
		if w == nil {
			w = &walk{fn: f, root: root, starts: map[string]*Term{}, visited: map[string]bool{}, sets: map[string]int{}, graphs: map[string]*Term{}, pos: f.Pos()}
			walks[f] = w
		}
		return w
	}
	// the parameter that is the commit
	commitParam := func(f *ssa.Function) int {
		n, at := 0, -1
		for i, prm := range f.Params {
			if types.TypeString(prm.Type().Underlying(), nil) == "string" {
				n++
				at = i
			}
		}
		if n == 1 {
			return at
		}
		for i, prm := range f.Params {
			for _, r := range *prm.Referrers() {
				if l, ok := r.(*ssa.Lookup); ok && l.Index == ssa.Value(prm) && isStrListMap(l.X.Type()) {
					return i
				}
			}
		}
		return -1
	}
	key := func(f *ssa.Function) string { return fnName(f) }
	byKey := map[string]*ssa.Function{}
	for f := range rec {
		byKey[key(f)] = f
	}
	r := &Rule{Name: "walk", MaxRec: 1, RecOK: true, Keep: map[ssa.Value]bool{}}
	for f, w := range wl {
		byKey[key(f)] = f
		for _, v := range w.init {
			r.Keep[v] = true
		}
	}
	r.WantAdd = c.p.counters(root)
	r.Inline = func(x *X, f *ssa.Function, call ssa.CallInstruction) bool { return true }
	r.Gen = func(x *X, f *ssa.Function) bool { return rec[f] != nil && commitParam(f) >= 0 && inLoopOf(x, rec[f]) }
	list := func(x *X, pre string) (out []string) {
		for k := range x.St.auto {
			if strings.HasPrefix(k, pre) {
				out = append(out, k[len(pre):])
			}
		}
		sort.Strings(out)
		return
	}
	clear := func(x *X) {
		for k := range x.St.auto {
			if strings.HasPrefix(k, "w.") {
				delete(x.St.auto, k)
			}
		}
		x.Untag("cur")
		x.Untag("nb")
	}
	cond := func(x *X) string { return strings.Join(list(x, "c."), ",") }
	begin := func(x *X, f *ssa.Function, cur *Term) {
		x.Set("w.fn", key(f))
		x.Retag("cur", cur)
	}
	needCheck := func(x *X, e *Event) {
		if x.Get("w.need") == "" {
			return
		}
		f := byKey[x.Get("w.fn")]
		if m := x.Get("w.pskip"); m != "" {
			get(f).skips = append(get(f).skips, skip{m: m, cond: cond(x), eff: list(x, "w.peff."), pos: e.Pos()})
		} else {
			x.Violate("neighbour skipped in "+key(f), e.Pos(), "a parent of a visited commit is not followed")
		}
		x.Set("w.need", "")
	}
	end := func(x *X, e *Event) {
		f := byKey[x.Get("w.fn")]
		if f == nil {
			return
		}
		w := get(f)
		if x.Get("w.need") != "" {
			x.Violate("walk ends early in "+key(f), e.Pos(), "the parents of a visited commit are not followed to the last")
		}
		t := take{why: x.Get("w.why"), in: list(x, "w.in."), not: list(x, "w.not."), set: list(x, "w.set."), eff: list(x, "w.eff."), cond: cond(x), done: x.Get("w.par") == "done", checked: x.Get("w.checked") != "", pos: e.Pos()}
		if !t.done && t.why == "" {
			x.Violate("walk stops in "+key(f), e.Pos(), "the parents of a commit are not followed, for no reason that concerns this commit")
		}
		w.takes = append(w.takes, t)
		clear(x)
	}
	r.OnEvent = func(x *X, e *Event) {
		if extra != nil {
			extra(x, e)
		}
		var cur, nb *Term
		for _, t := range x.Tagged("cur") {
			cur = t
		}
		for _, t := range x.Tagged("nb") {
			nb = t
		}
		active := x.Get("w.fn")
		switch e.Kind {
		case EvEnter:
			if rec[e.Fn] == nil {
				return
			}
			if f := byKey[active]; f != nil && rec[f] != nil && rec[f][e.Fn] {
				return // a part of the same walk
			}
			i := commitParam(e.Fn)
			if i < 0 {
				x.Violate("walk "+key(e.Fn), e.Pos(), "it cannot be told which commit the recursive function "+key(e.Fn)+" is called for")
				return
			}
			if active != "" {
				end(x, e)
			}
			w := get(e.Fn)
			w.starts[e.Args[i].Canon()] = e.Args[i]
			t := x.ts.mk("cur", key(e.Fn), "")
			e.Args[i] = t
			begin(x, e.Fn, t)
		case EvRecLimit:
			f := byKey[active]
			if f == nil || rec[f] == nil || !rec[f][e.Fn] {
				return
			}
			if e.Fn != f {
				return
			}
			x.push(c, e, get(f), e.Args[commitParam(f)], nb, key(f))
		case EvLeave:
			if f := byKey[active]; f != nil && e.Fn == f {
				end(x, e)
			}
			if w := wl[e.Fn]; w != nil && active == key(e.Fn) {
				end(x, e)
			}
		case EvReturn:
			if active != "" {
				end(x, e)
			}
		case EvLoad:
			w := wl[x.Fn()]
			ld, ok := e.Ins.(*ssa.UnOp)
			if w == nil || !ok {
				return
			}
			if ia, ok := ld.X.(*ssa.IndexAddr); ok && w.pops[ia] {
				if active != "" {
					end(x, e)
				}
				ww := get(x.Fn())
				if active != key(x.Fn()) {
					for _, v := range w.init {
						l := x.Eval(v)
						if em, ok := x.IsEmpty(l); l.IsConst() || ok && em {
							continue
						}
						el, ok := x.Elems(l)
						if !ok {
							x.Violate("start of "+key(x.Fn()), e.Pos(), "it cannot be told which commits the list starts with")
						}
						for _, q := range el {
							ww.starts[q.Canon()] = q
						}
					}
				}
				begin(x, x.Fn(), e.Val)
			}
		case EvAppend:
			if active == "" {
				return
			}
			if w := wl[x.Fn()]; w != nil && w.pushs[e.Ins] {
				if e.Args[1].Op == "lk" && e.Args[1].A[1] == cur && isStrListMapTerm(e.Args[1].A[0]) {
					x.push(c, e, get(x.Fn()), nil, nb, key(x.Fn()))
					x.Set("w.par", "done")
					return
				}
				el, ok := x.Elems(e.Args[1])
				if !ok {
					x.Violate("list of "+key(x.Fn()), e.Pos(), "it cannot be told which commits are put on the list")
					return
				}
				for _, q := range el {
					x.push(c, e, get(x.Fn()), q, nb, key(x.Fn()))
				}
				return
			}
			el, ok := x.Elems(e.Args[1])
			if !ok || len(el) != 1 {
				return
			}
			switch {
			case cur != nil && el[0] == cur:
				x.Set("w.eff.list", "1")
			case nb != nil && el[0] == nb:
				x.Set("w.peff.list", "1")
			}
		case EvAdd:
			if active == "" {
				ws.outside = append(ws.outside, e.Pos())
				return
			}
			k := "w.eff.count?"
			for _, a := range e.Args {
				if n, ok := a.Int(); ok && e.Val.S == "+" {
					k = "w.eff.count" + itoa(int(n))
				}
			}
			for x.Get(k) != "" && len(k) < 30 {
				k += "+"
			}
			x.Set(k, "1")
			for _, m := range list(x, "w.not.") {
				x.Set("w.eff.not:"+m, "1")
			}
		case EvMapSet:
			if active == "" {
				if ws.preset[e.Map.key] == nil {
					ws.preset[e.Map.key] = map[string]bool{}
				}
				ws.preset[e.Map.key][e.Key.Canon()] = true
				return
			}
			mt, ok := types.Unalias(e.Ins.(*ssa.MapUpdate).Map.Type()).Underlying().(*types.Map)
			if !ok {
				return
			}
			f := byKey[active]
			isBool := types.TypeString(mt.Elem().Underlying(), nil) == "bool"
			if isBool && !(e.Val.IsConst() && e.Val.S == "true") {
				return
			}
			m := e.Map.key
			ws.maps[m] = e.Map
			switch {
			case cur != nil && e.Key == cur:
				x.Set("w.set."+m, "1")
				un := x.Get("w.not."+m) != ""
				if v, ok := x.IsEmpty(e.Map); ok && v {
					un = true
				}
				if un {
					get(f).visited[m] = true
					x.Set("w.checked", "1")
				}
			case nb != nil && e.Key == nb:
				x.Set("w.pset."+m, "1")
				un := x.Get("w.pnot."+m) != ""
				if v, ok := x.IsEmpty(e.Map); ok && v {
					un = true
				}
				if un {
					get(f).visited[m] = true
					x.Set("w.pchecked", "1")
				}
			}
		case EvBranch:
			cd := e.Cond
			// conditions on the parameters of the root
			if (cd.Op == "lk" || cd.Op == "has") && cd.A[0].Op == "param" && cd.A[1].Op == "param" {
				k := "c." + cd.A[0].Canon() + "[" + cd.A[1].Canon() + "]"
				if e.Taken {
					x.Set(k+"=true", "1")
				} else {
					x.Set(k+"=false", "1")
				}
			}
			if active == "" || cur == nil {
				return
			}
			if cd.Op == "lk" || cd.Op == "has" {
				ws.maps[cd.A[0].key] = cd.A[0]
			}
			switch {
			case (cd.Op == "lk" || cd.Op == "has") && cd.A[1] == cur:
				m := cd.A[0].key
				if isStrListMapTerm(cd.A[0]) {
					if !e.Taken {
						x.Set("w.why", "no entry")
					}
					return
				}
				if e.Taken {
					x.Set("w.in."+m, "1")
					x.Set("w.why", "in "+m)
				} else {
					x.Set("w.not."+m, "1")
				}
			case (cd.Op == "lk" || cd.Op == "has") && nb != nil && cd.A[1] == nb:
				if e.Taken {
					x.Set("w.pskip", cd.A[0].key)
				} else {
					x.Set("w.pnot."+cd.A[0].key, "1")
				}
			case cd.Op == "eq" && (cd.A[0] == cur || cd.A[1] == cur) && e.Taken:
				o := cd.A[0]
				if o == cur {
					o = cd.A[1]
				}
				x.Set("w.why", "is "+o.Canon())
			case cd.Op == "eq" && cd.A[0] == cur:
				x.Set("w.not.is "+cd.A[1].Canon(), "1")
			case cd.Op == "eq" && cd.A[1] == cur:
				x.Set("w.not.is "+cd.A[0].Canon(), "1")
			case (cd.Op == "empty" || cd.Op == "isnil") && e.Taken && cd.A[0].Op == "lk" && cd.A[0].A[1] == cur && isStrListMapTerm(cd.A[0].A[0]):
				x.Set("w.par", "done")
			}
		case EvIter:
			if active == "" || cur == nil || e.Coll.Op != "lk" || e.Coll.A[1] != cur || !isStrListMapTerm(e.Coll.A[0]) {
				return
			}
			f := byKey[active]
			get(f).graphs[e.Coll.A[0].Canon()] = e.Coll.A[0]
			needCheck(x, e)
			if e.IKind != "slice" && e.IKind != "back" {
				x.Violate("part of the neighbours in "+key(f), e.Pos(), "only a part of the parents of a visited commit is followed")
				return
			}
			for _, k := range list(x, "w.p") {
				if k != "ar" {
					x.Set("w.p"+k, "")
				}
			}
			if e.Taken {
				x.Set("w.par", "in")
				x.Set("w.need", "1")
				x.Retag("nb", x.ts.mk("el", "", "", e.Coll, e.Elem))
			} else {
				x.Set("w.par", "done")
				x.Untag("nb")
			}
		}
	}
	c.Sim("walks of "+fnName(root), root, r, nil)
	return ws
}

func isFuncType(t types.Type) bool {
	_, ok := types.Unalias(t).Underlying().(*types.Signature)
	return ok
}

// counters: the additions whose sum root returns.
func (p *Prog) counters(root *ssa.Function) map[ssa.Instruction]bool {
	out := map[ssa.Instruction]bool{}
	seen := map[ssa.Value]bool{}
	var back func(v ssa.Value)
	ret := func(f *ssa.Function, i int) {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if r, ok := ins.(*ssa.Return); ok && i < len(r.Results) {
					back(r.Results[i])
				}
			}
		}
	}
	cell := func(a ssa.Value) {
		for _, c := range p.sameCell(a) {
			if c.Referrers() == nil {
				continue
			}
			for _, ref := range *c.Referrers() {
				if st, ok := ref.(*ssa.Store); ok && st.Addr == c {
					back(st.Val)
				}
			}
		}
	}
	back = func(v ssa.Value) {
		if seen[v] || types.TypeString(v.Type().Underlying(), nil) != "int" {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Phi:
			for _, e := range x.Edges {
				back(e)
			}
		case *ssa.BinOp:
			out[x] = true
			back(x.X)
			back(x.Y)
		case *ssa.UnOp:
			if x.Op == token.MUL {
				switch a := x.X.(type) {
				case *ssa.Alloc, *ssa.FreeVar:
					cell(a)
				case *ssa.FieldAddr:
					for _, fa := range p.Index().fieldAddrs[fieldKeyOf(a.X.Type(), a.Field)] {
						cell(fa)
					}
				case *ssa.Parameter:
					cell(a)
					for i, prm := range a.Parent().Params {
						for _, cs := range p.Index().callers[a.Parent()] {
							if args := cs.Common().Args; prm == a && i < len(args) {
								cell(args[i])
							}
						}
					}
				}
			}
		case *ssa.Call:
			for _, f := range p.Callees(x) {
				ret(f, 0)
			}
		case *ssa.Extract:
			if c, ok := x.Tuple.(*ssa.Call); ok {
				for _, f := range p.Callees(c) {
					ret(f, x.Index)
				}
			}
		}
	}
	for i := 0; i < root.Signature.Results().Len(); i++ {
		ret(root, i)
	}
	return out
}

// push: the walk goes on to q.
func (x *X) push(c *Ctx, e *Event, w *walk, q, nb *Term, name string) {
	c.Count("steps to a neighbour", 1)
	if q != nil && q != nb {
		x.Violate("step of "+name, e.Pos(), "the walk goes on to something else than a parent of the commit visited")
		return
	}
	if x.Get("w.checked") == "" && x.Get("w.pchecked") == "" {
		x.Violate("visited twice in "+name, e.Pos(), "the walk goes on from a commit that may have been visited before: the time is exponential in the number of merges")
	}
	sk := skip{pos: e.Pos()}
	for k := range x.St.auto {
		switch {
		case strings.HasPrefix(k, "w.pnot."):
			sk.not = append(sk.not, k[len("w.pnot."):])
		case strings.HasPrefix(k, "w.pset."):
			sk.set = append(sk.set, k[len("w.pset."):])
		case strings.HasPrefix(k, "c."):
			sk.cond += k[2:] + ","
		}
	}
	w.pushes = append(w.pushes, sk)
	if x.Get("w.pchecked") == "" {
		w.late = true
	}
	x.Set("w.need", "")
}

func isStrListMapTerm(t *Term) bool {
	switch t.Op {
	case "f", "lk":
		if t.Op == "f" && (t.S == "Parents" || t.S == "Children") {
			return true
		}
	}
	if v, ok := t.V.(ssa.Value); ok && v != nil {
		return isStrListMap(v.Type())
	}
	return t.T != nil && isStrListMap(t.T)
}

// inLoopOf: the activation is the outermost of its cycle.
func inLoopOf(x *X, cyc map[*ssa.Function]bool) bool {
	n := 0
	for fr := x.St.frame; fr != nil; fr = fr.parent {
		if cyc[fr.fn] {
			n++
		}
	}
	return n <= 1
}
