package main

import (
	"go/token"
	"go/types"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// Which data and which branches can influence the communication of goroutines: a demand analysis over control and
// data dependence, from channel, wait group and lock operations backwards.

type skSlice struct {
	p        *Prog
	rel      map[*ssa.Function]bool
	need     map[ssa.Value]bool
	slot     map[string]bool // needed fields and variables
	ess      map[*ssa.BasicBlock]bool
	essIf    map[*ssa.BasicBlock]bool
	ret      map[*ssa.Function]bool
	ipdom    map[*ssa.BasicBlock]*ssa.BasicBlock // nil: the end of the function
	cd       map[*ssa.BasicBlock][]*ssa.BasicBlock
	sites    map[*ssa.Function][]ssa.CallInstruction
	makers   map[*ssa.Function][]*ssa.MakeClosure
	values   []*ssa.Function // functions used as values
	recovers bool
	changed  bool
	fns      []*ssa.Function
}

func (p *Prog) skSlice() *skSlice {
	if p.skel != nil {
		return p.skel
	}
	s := &skSlice{p: p, rel: map[*ssa.Function]bool{}, need: map[ssa.Value]bool{}, slot: map[string]bool{}, ess: map[*ssa.BasicBlock]bool{}, essIf: map[*ssa.BasicBlock]bool{}, ret: map[*ssa.Function]bool{},
		ipdom: map[*ssa.BasicBlock]*ssa.BasicBlock{}, cd: map[*ssa.BasicBlock][]*ssa.BasicBlock{}, sites: map[*ssa.Function][]ssa.CallInstruction{}, makers: map[*ssa.Function][]*ssa.MakeClosure{}}
	p.skel = s
	isVal := map[*ssa.Function]bool{}
	for _, f := range p.Fns {
		if f.Blocks == nil || !inScopePkg(fnPkgPath(f)) {
			continue
		}
		s.fns = append(s.fns, f)
		if recovers(p, f) {
			s.recovers = true
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				var callee *ssa.Value
				if ci, ok := ins.(ssa.CallInstruction); ok {
					c := ci.Common()
					if g := c.StaticCallee(); g != nil {
						s.sites[g] = append(s.sites[g], ci)
					}
					if !c.IsInvoke() {
						callee = &c.Value
					}
				}
				if mc, ok := ins.(*ssa.MakeClosure); ok {
					g := mc.Fn.(*ssa.Function)
					s.makers[g] = append(s.makers[g], mc)
					isVal[g] = true
					continue
				}
				for _, o := range ins.Operands(nil) {
					if o != nil && *o != nil && o != callee {
						if g, ok := (*o).(*ssa.Function); ok {
							isVal[g] = true
						}
					}
				}
			}
		}
	}
	for _, f := range s.fns {
		if isVal[f] {
			s.values = append(s.values, f)
		}
	}
	for _, f := range s.fns {
		if s.localRel(f) {
			s.rel[f] = true
		}
	}
	for s.changed = true; s.changed; {
		s.changed = false
		s.spread()
		for _, f := range s.fns {
			if s.rel[f] {
				s.scan(f)
			}
		}
	}
	return s
}

func (s *skSlice) localRel(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			if isComm(f, ins) {
				return true
			}
		}
	}
	for i := 0; i < f.Signature.Results().Len(); i++ {
		if relType(f.Signature.Results().At(i).Type(), 0) {
			return true
		}
	}
	return false
}

// callees of a call: its static target, or the functions used as values that fit.
func (s *skSlice) callees(ci ssa.CallInstruction) []*ssa.Function {
	c := ci.Common()
	v, sig := c.Value, c.Signature()
	if g := c.StaticCallee(); g != nil {
		if !isOnceDo(g) || len(c.Args) < 2 {
			return []*ssa.Function{g}
		}
		v = c.Args[1] // once.Do(f) runs f
		sig = types.Unalias(v.Type()).Underlying().(*types.Signature)
		switch f := v.(type) {
		case *ssa.Function:
			return []*ssa.Function{f}
		case *ssa.MakeClosure:
			return []*ssa.Function{f.Fn.(*ssa.Function)}
		}
	}
	if c.IsInvoke() {
		return nil
	}
	if _, ok := c.Value.(*ssa.Builtin); ok {
		return nil
	}
	var out []*ssa.Function
	for _, g := range s.values {
		if types.Identical(g.Signature.Params(), sig.Params()) && types.Identical(g.Signature.Results(), sig.Results()) {
			out = append(out, g)
		}
	}
	return out
}

func isOnceDo(f *ssa.Function) bool { return f.RelString(nil) == "(*sync.Once).Do" }

// spread: callers of relevant functions are relevant.
func (s *skSlice) spread() {
	for again := true; again; {
		again = false
		for _, f := range s.fns {
			if s.rel[f] {
				continue
			}
			r := false
			for _, b := range f.Blocks {
				for _, ins := range b.Instrs {
					if ci, ok := ins.(ssa.CallInstruction); ok {
						for _, g := range s.callees(ci) {
							if s.rel[g] {
								r = true
							}
						}
					}
				}
			}
			for i := range f.FreeVars {
				if writesVar(f, i) && s.slotNeeded(s.cell(f.FreeVars[i])) {
					r = true
				}
			}
			if !r && sharedErrFn(s.p, f) {
				for _, b := range f.Blocks {
					for _, ins := range b.Instrs {
						if st, ok := ins.(*ssa.Store); ok {
							if k := s.cell(st.Addr); k != "" && !strings.HasPrefix(k, "any ") && s.slotNeeded(k) {
								r = true
							}
						}
					}
				}
			}
			if r {
				s.rel[f] = true
				again, s.changed = true, true
			}
		}
	}
}

// cell names the variable a pointer stands for; "" if the type is of no interest.
func (s *skSlice) cell(v ssa.Value) string {
	pt, ok := types.Unalias(v.Type()).Underlying().(*types.Pointer)
	if !ok {
		return ""
	}
	if !representable(pt.Elem()) {
		return ""
	}
	switch x := v.(type) {
	case *ssa.IndexAddr:
		return ""
	case *ssa.FieldAddr:
		return fieldSlot(structOwner(x.X.Type()), x.Field)
	case *ssa.Alloc, *ssa.FreeVar:
		f := v.Parent()
		for f.Parent() != nil {
			f = f.Parent()
		}
		return "var " + f.RelString(nil) + " " + types.TypeString(pt.Elem(), nil)
	case *ssa.Global:
		return "global " + x.RelString(nil)
	}
	return "any " + types.TypeString(pt.Elem(), nil)
}

// representable: the exploration can tell values of the type apart.
func representable(t types.Type) bool {
	switch u := types.Unalias(t).Underlying().(type) {
	case *types.Basic:
		return u.Info()&(types.IsBoolean|types.IsInteger) != 0 && u.Kind() != types.Byte && u.Kind() != types.Rune
	case *types.Slice, *types.Map, *types.Array:
		return false
	}
	return true
}

func boolOrInt(t types.Type) bool {
	b, ok := types.Unalias(t).Underlying().(*types.Basic)
	return ok && b.Info()&(types.IsBoolean|types.IsInteger) != 0
}

func structOwner(t types.Type) types.Type {
	if pt, ok := types.Unalias(t).Underlying().(*types.Pointer); ok {
		t = pt.Elem()
	}
	return types.Unalias(t)
}

func fieldSlot(t types.Type, i int) string {
	type slotKey struct {
		t types.Type
		i int
	}
	k := slotKey{t, i}
	if v, ok := fieldSlots.Load(k); ok {
		return v.(string)
	}
	v := "field " + types.TypeString(t, nil) + " " + string(rune('a'+i/26)) + string(rune('a'+i%26))
	fieldSlots.Store(k, v)
	return v
}

var fieldSlots sync.Map

func lastWord(s string) string {
	if i := strings.LastIndexByte(s, ' '); i >= 0 {
		return s[i+1:]
	}
	return s
}

func (s *skSlice) slotNeeded(k string) bool {
	if k == "" {
		return false
	}
	if s.slot[k] {
		return true
	}
	switch {
	case strings.HasPrefix(k, "any "):
		return s.slot["T "+lastWord(k)]
	case strings.HasPrefix(k, "var "):
		return s.slot["any "+lastWord(k)]
	}
	return false
}

func (s *skSlice) needSlot(k string) {
	if k == "" || s.slot[k] {
		return
	}
	s.slot[k] = true
	if strings.HasPrefix(k, "var ") {
		s.slot["T "+lastWord(k)] = true
	}
	s.changed = true
}

// tracked: values of the type are followed.
func (s *skSlice) tracked(t types.Type) bool { return s.trackedD(t, 0) }

func (s *skSlice) trackedD(t types.Type, d int) bool {
	if d > 5 {
		return false
	}
	if isSync(t) {
		return true
	}
	switch u := types.Unalias(t).Underlying().(type) {
	case *types.Chan, *types.Signature:
		return true
	case *types.Pointer:
		return s.trackedD(u.Elem(), d+1)
	case *types.Struct:
		n := namedOf(t)
		if n != nil && n.Obj().Pkg() != nil && !inScopePkg(n.Obj().Pkg().Path()) {
			return false
		}
		for i := 0; i < u.NumFields(); i++ {
			if s.trackedField(types.Unalias(t), i, d+1) {
				return true
			}
		}
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if s.trackedD(u.At(i).Type(), d+1) {
				return true
			}
		}
	}
	return false
}

func (s *skSlice) trackedField(t types.Type, i int, d int) bool {
	if s.slot[fieldSlot(t, i)] {
		return true
	}
	u := t.Underlying().(*types.Struct)
	return s.trackedD(u.Field(i).Type(), d)
}

func (s *skSlice) needed(v ssa.Value) bool { return s.need[v] || s.tracked(v.Type()) }

func (s *skSlice) want(v ssa.Value) {
	if v == nil || s.need[v] {
		return
	}
	switch v.(type) {
	case *ssa.Const, *ssa.Function, *ssa.Builtin, *ssa.Global:
		return
	}
	if !representable(v.Type()) {
		return
	}
	s.need[v] = true
	s.changed = true
	s.wantOps(v)
}

// wantOps asks for what a needed value is computed from.
func (s *skSlice) wantOps(v ssa.Value) {
	switch x := v.(type) {
	case *ssa.Phi:
		for i, e := range x.Edges {
			s.want(e)
			s.essential(x.Block().Preds[i])
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			s.needSlot(s.cell(x.X))
		}
		if x.Op != token.ARROW {
			s.want(x.X)
		}
	case *ssa.BinOp:
		if _, ok := types.Unalias(x.X.Type()).Underlying().(*types.Basic); ok && !boolOrInt(x.X.Type()) {
			return
		}
		s.want(x.X)
		s.want(x.Y)
	case *ssa.ChangeType:
		s.want(x.X)
	case *ssa.ChangeInterface:
		s.want(x.X)
	case *ssa.MakeInterface:
		s.want(x.X)
	case *ssa.Convert:
		s.want(x.X)
	case *ssa.TypeAssert:
		s.want(x.X)
	case *ssa.Extract:
		s.want(x.Tuple)
	case *ssa.FieldAddr:
		s.want(x.X)
	case *ssa.Field:
		s.want(x.X)
		if representable(x.Type()) {
			s.needSlot(fieldSlot(structOwner(x.X.Type()), x.Field))
		}
	case *ssa.Call:
		for _, g := range s.callees(x) {
			if !s.rel[g] && inScopePkg(fnPkgPath(g)) && sharedErrFn(s.p, g) {
				s.rel[g] = true // reads an error that goroutines share
			}
			if s.rel[g] && !s.ret[g] {
				s.ret[g] = true
				s.changed = true
			}
		}
	case *ssa.Parameter:
		for i, q := range x.Parent().Params {
			if q != x {
				continue
			}
			for _, ci := range s.sites[x.Parent()] {
				if a := ci.Common().Args; i < len(a) {
					s.want(a[i])
				}
			}
		}
	case *ssa.FreeVar:
		for i, q := range x.Parent().FreeVars {
			if q == x {
				for _, mc := range s.makers[x.Parent()] {
					s.want(mc.Bindings[i])
				}
			}
		}
	}
}

func (s *skSlice) essential(b *ssa.BasicBlock) {
	if s.ess[b] {
		return
	}
	s.ess[b] = true
	s.changed = true
	s.control(b.Parent())
	for _, x := range s.cd[b] {
		s.essIf[x] = true
		s.essential(x)
		if i, ok := x.Instrs[len(x.Instrs)-1].(*ssa.If); ok {
			s.want(i.Cond)
		}
	}
}

// scan marks the blocks and values of a relevant function that matter by themselves.
func (s *skSlice) scan(f *ssa.Function) {
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			if v, ok := ins.(ssa.Value); ok && s.needed(v) {
				s.want(v)
			}
			ess := false
			switch i := ins.(type) {
			case *ssa.Send:
				s.want(i.Chan)
				if s.tracked(i.X.Type()) {
					s.want(i.X)
				}
				ess = true
			case *ssa.Select:
				for _, st := range i.States {
					s.want(st.Chan)
					if st.Send != nil && s.tracked(st.Send.Type()) {
						s.want(st.Send)
					}
				}
				ess = true
			case *ssa.UnOp:
				if i.Op == token.ARROW {
					s.want(i.X)
					ess = true
				}
			case *ssa.Store:
				if s.slotNeeded(s.cell(i.Addr)) || s.tracked(i.Val.Type()) {
					s.want(i.Val)
					s.want(i.Addr)
					ess = true
				}
			case *ssa.Panic:
				ess = s.recovers
			case *ssa.Return:
				if s.ret[f] || relResults(f) {
					for _, r := range i.Results {
						if s.ret[f] || s.tracked(r.Type()) {
							s.want(r)
						}
					}
					ess = true
				}
			case ssa.CallInstruction:
				c := i.Common()
				name := calleeName(c)
				if isComm(f, ins) || strings.HasPrefix(name, "(*sync.") || name == "builtin.close" || name == "builtin.recover" {
					for _, a := range c.Args {
						s.want(a)
					}
					ess = true
				}
				_, isDefer := ins.(*ssa.Defer)
				_, isGo := ins.(*ssa.Go)
				for _, g := range s.callees(i) {
					if s.rel[g] || isDefer && recovers(s.p, g) {
						ess = true
						s.want(c.Value)
						for j, q := range g.Params {
							if s.needed(q) && j < len(c.Args) {
								s.want(c.Args[j])
							}
						}
					}
				}
				_ = isGo
				for _, a := range c.Args {
					if k := s.cell(a); k != "" && !strings.HasPrefix(k, "any ") && s.slotNeeded(k) {
						ess = true
						s.want(a)
					}
				}
				if neverReturns(name) && s.recovers {
					ess = true
				}
			}
			if ess {
				s.essential(b)
			}
		}
	}
}

func relResults(f *ssa.Function) bool {
	for i := 0; i < f.Signature.Results().Len(); i++ {
		if relType(f.Signature.Results().At(i).Type(), 0) {
			return true
		}
	}
	return false
}

// control computes post-dominators and control dependence.
func (s *skSlice) control(f *ssa.Function) {
	if _, ok := s.cd[f.Blocks[0]]; ok {
		return
	}
	n := len(f.Blocks)
	for _, b := range f.Blocks {
		s.cd[b] = nil
	}
	exit := n
	succ := make([][]int, n+1)
	reach := make([]bool, n+1)
	reach[exit] = true
	for i, b := range f.Blocks {
		for _, t := range b.Succs {
			succ[i] = append(succ[i], t.Index)
		}
		if len(b.Succs) == 0 {
			succ[i] = []int{exit}
		}
	}
	for again := true; again; {
		again = false
		for i := n - 1; i >= 0; i-- {
			if !reach[i] {
				for _, t := range succ[i] {
					if reach[t] {
						reach[i], again = true, true
					}
				}
			}
		}
		if !again {
			for i := 0; i < n; i++ {
				if !reach[i] {
					// an endless loop
					succ[i] = append(succ[i], exit)
					reach[i], again = true, true
					break
				}
			}
		}
	}
	pd := make([][]bool, n+1)
	for i := range pd {
		pd[i] = make([]bool, n+1)
		for j := range pd[i] {
			pd[i][j] = i != exit
		}
	}
	pd[exit][exit] = true
	for again := true; again; {
		again = false
		for i := n - 1; i >= 0; i-- {
			for j := 0; j <= n; j++ {
				v := true
				for _, t := range succ[i] {
					v = v && pd[t][j]
				}
				v = v || i == j
				if v != pd[i][j] {
					pd[i][j], again = v, true
				}
			}
		}
	}
	ip := make([]int, n+1)
	for i := 0; i < n; i++ {
		ip[i] = exit
		// the strict post-dominator that all others post-dominate
		for j := 0; j <= n; j++ {
			if j == i || !pd[i][j] {
				continue
			}
			near := true
			for k := 0; k <= n; k++ {
				if k != i && k != j && pd[i][k] && !pd[j][k] {
					near = false
				}
			}
			if near {
				ip[i] = j
			}
		}
		if ip[i] != exit {
			s.ipdom[f.Blocks[i]] = f.Blocks[ip[i]]
		}
	}
	for i := 0; i < n; i++ {
		if len(succ[i]) < 2 {
			continue
		}
		for _, t := range succ[i] {
			for y := t; y != ip[i] && y != exit; y = ip[y] {
				s.cd[f.Blocks[y]] = append(s.cd[f.Blocks[y]], f.Blocks[i])
			}
		}
	}
}

// skip gives the block at which the ways of a branch without influence come together.
func (s *skSlice) skip(b *ssa.BasicBlock) *ssa.BasicBlock {
	s.control(b.Parent())
	if j := s.ipdom[b]; j != nil {
		return j
	}
	seen := map[*ssa.BasicBlock]bool{b: true}
	work := []*ssa.BasicBlock{b}
	for len(work) > 0 {
		x := work[0]
		work = work[1:]
		if _, ok := x.Instrs[len(x.Instrs)-1].(*ssa.Return); ok && x != b {
			return x
		}
		for _, t := range x.Succs {
			if !seen[t] {
				seen[t] = true
				work = append(work, t)
			}
		}
	}
	return b.Succs[0]
}
