package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C21", "Every loop of the library whose iterations come in no fixed order (over a map, over a list filled in such an order and not sorted since, over a channel read by several goroutines), with everything its body calls: what an iteration leaves behind must not depend on its turn. Allowed are writes of a constant or to the place that belongs to the iteration's key, sums and counts that nothing else in the loop reads, caches keyed by what they were computed from, appends to lists that are sorted, by a comparison that separates all elements, before anything looks at their order, file records and branch records sent, and returns of an error; lists that stay unordered are followed through variables, fields, results and parameters. Besides, no value of the clock, of a random source, of the process or of a pointer's number flows (field-based, interprocedural) into a record, a message, or a decision other than those of the timing statistics, and a select never chooses between data channels.", runC21)
}

// uloop is a loop whose iterations come in no fixed order.
type uloop struct {
	fn   *ssa.Function
	head *ssa.BasicBlock
	body map[*ssa.BasicBlock]bool
	what string
	key  map[ssa.Value]bool // values that differ in every iteration
	item map[ssa.Value]bool // values of the iteration
	// shared maps: written and read
	wrote  map[string]bool
	reads  []mapRead
	leaves bool // what the iterations leave behind adds up
	src    ssa.Value
	ctx    *octx
}

// mapRead is a look at an entry of a shared map other than the iteration's.
type mapRead struct {
	id  string
	f   *frame
	ins ssa.Instruction
}

// octx is the chain of calls a list went through.
type octx struct {
	call ssa.CallInstruction
	up   *octx
	n    int
}

func (x *octx) id() string {
	s := ""
	for ; x != nil; x = x.up {
		s += fmt.Sprintf("%p ", x.call)
	}
	return s
}

// olist is a list in no fixed order, and what tells its elements apart: ""
// the element itself, a field, or "?" nothing known.
type olist struct {
	v   ssa.Value
	key string
	ctx *octx
}

type order struct {
	c       *Ctx
	reach   map[*ssa.Function]bool
	done    map[string]bool
	tainted map[string]bool // lists in no fixed order
	queue   []olist
	fills   map[ssa.Value][]ssa.Instruction // variable -> where it is filled in no fixed order
	fresh   map[string]int
	loops   int
}

func (c *Ctx) orderSkip(fn *ssa.Function) bool {
	return fn == nil || fn.Blocks == nil || !libraryFn(fn)
}

// checkpointWriter: a function that writes the files of a checkpoint; what is
// read back does not depend on the order of the entries (C12).
func (c *Ctx) checkpointWriter(fn *ssa.Function) bool {
	return c.p.transitively(fn, func(f *ssa.Function, ins ssa.Instruction) bool {
		ci, ok := ins.(ssa.CallInstruction)
		if !ok || ci.Common().StaticCallee() == nil {
			return false
		}
		s := ci.Common().StaticCallee().String()
		return s == "os.Create" || s == "os.OpenFile"
	}) && fnPkgPath(fn) == mp(repoPkg)
}

func runC21(c *Ctx) {
	o := &order{c: c, done: map[string]bool{}, tainted: map[string]bool{}, fills: map[ssa.Value][]ssa.Instruction{}, fresh: map[string]int{}, reach: map[*ssa.Function]bool{}}
	var roots []*ssa.Function
	for _, fn := range c.p.Fns {
		if libraryFn(fn) && exportedFn(fn) && fnPkgPath(fn) == mp(rootPkg) || libraryFn(fn) && fn.Name() == "init" {
			roots = append(roots, fn)
		}
	}
	o.reach = c.p.reachAll(roots)
	for _, fn := range c.p.Fns {
		if c.orderSkip(fn) || !o.reach[fn] {
			continue
		}
		c.Saw(fn)
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				switch i := ins.(type) {
				case *ssa.Range:
					if _, ok := types.Unalias(i.X.Type()).Underlying().(*types.Map); !ok {
						continue
					}
					for _, ref := range *i.Referrers() {
						if n, ok := ref.(*ssa.Next); ok {
							o.mapLoop(fn, i, n)
						}
					}
				case *ssa.Select:
					n := 0
					for _, s := range i.States {
						if s.Dir == types.RecvOnly {
							if ch, ok := types.Unalias(s.Chan.Type()).Underlying().(*types.Chan); ok && !noData(ch.Elem()) {
								n++
							}
						}
					}
					if n > 1 {
						c.Violate("select in "+fnName(fn), i.Pos(), "%s takes from whichever of several channels is ready", fnName(fn))
					}
				case *ssa.UnOp:
					if i.Op == token.ARROW {
						o.recvLoop(fn, i)
					}
				}
			}
		}
	}
	for len(o.queue) > 0 {
		v := o.queue[0]
		o.queue = o.queue[1:]
		o.follow(v)
	}
	c.Count("unordered loops", o.loops)
	c.Min("unordered loops", 8)
	o.clock()
}

func noData(t types.Type) bool {
	switch u := types.Unalias(t).Underlying().(type) {
	case *types.Struct:
		return u.NumFields() == 0
	case *types.Basic:
		return u.Kind() == types.Bool
	case *types.Interface:
		return isErrType(t)
	}
	return false
}

// reachAll: functions that can run when the given ones do, closures included.
func (p *Prog) reachAll(roots []*ssa.Function) map[*ssa.Function]bool {
	seen := map[*ssa.Function]bool{}
	var rec func(f *ssa.Function)
	rec = func(f *ssa.Function) {
		if f == nil || seen[f] || f.Blocks == nil {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if ci, ok := ins.(ssa.CallInstruction); ok {
					for _, g := range p.Callees(ci) {
						rec(g)
					}
				}
				for _, op := range ins.Operands(nil) {
					switch v := (*op).(type) {
					case *ssa.Function:
						if p.FnInScope(v) {
							rec(v)
						}
					case *ssa.MakeClosure:
						rec(v.Fn.(*ssa.Function))
					}
				}
			}
		}
	}
	for _, f := range roots {
		rec(f)
	}
	return seen
}

func (o *order) loopOf(fn *ssa.Function, b *ssa.BasicBlock) (*ssa.BasicBlock, map[*ssa.BasicBlock]bool) {
	var best *ssa.BasicBlock
	var body map[*ssa.BasicBlock]bool
	for h, bl := range o.c.p.Loops(fn).header {
		if bl[b] && (body == nil || len(bl) < len(body)) {
			best, body = h, bl
		}
	}
	return best, body
}

func (o *order) mapLoop(fn *ssa.Function, rng *ssa.Range, n *ssa.Next) {
	if o.c.checkpointWriter(fn) {
		o.c.Count("loops of the checkpoint writer", 1)
		return
	}
	h, body := o.loopOf(fn, n.Block())
	u := &uloop{fn: fn, head: n.Block(), body: body, what: "a loop over a map", key: map[ssa.Value]bool{}, item: map[ssa.Value]bool{n: true}, src: rng.X}
	for _, ref := range *n.Referrers() {
		if ex, ok := ref.(*ssa.Extract); ok {
			if ex.Index == 1 {
				u.key[ex] = true
			}
			if ex.Index > 0 {
				u.item[ex] = true
			}
		}
	}
	delete(u.item, n)
	if h == nil || h != n.Block() {
		// left in the first iteration: the loop picks an entry
		used := false
		for v := range u.item {
			if v.Referrers() != nil && len(*v.Referrers()) > 0 {
				used = true
			}
		}
		if used {
			o.c.Violate("pick in "+fnName(fn), rng.Pos(), "%s takes the first entry of a map, which can be any", fnName(fn))
		}
		return
	}
	o.check(u)
}

// recvLoop: a loop over a channel in a goroutine there are several of.
func (o *order) recvLoop(fn *ssa.Function, recv *ssa.UnOp) {
	h, body := o.loopOf(fn, recv.Block())
	if h == nil {
		return
	}
	if !o.runsInMany(fn, false, map[*ssa.Function]bool{}) {
		return
	}
	u := &uloop{fn: fn, head: h, body: body, what: "a loop of concurrent workers", key: map[ssa.Value]bool{}, item: map[ssa.Value]bool{}, src: recv.X}
	if !recv.CommaOk {
		u.item[recv] = true
	} else {
		for _, ref := range *recv.Referrers() {
			if ex, ok := ref.(*ssa.Extract); ok && ex.Index == 0 {
				u.item[ex] = true
			}
		}
	}
	o.check(u)
}

// runsInMany: several goroutines of one call of the library run fn.
func (o *order) runsInMany(fn *ssa.Function, started bool, seen map[*ssa.Function]bool) bool {
	if seen[fn] {
		return false
	}
	seen[fn] = true
	for _, ci := range o.c.p.Index().callers[fn] {
		_, isGo := ci.(*ssa.Go)
		if isGo || started {
			if h, _ := o.loopOf(ci.Parent(), ci.Block()); h != nil {
				return true
			}
		}
		if !exportedFn(ci.Parent()) && o.runsInMany(ci.Parent(), started || isGo, seen) {
			return true
		}
	}
	return false
}

// listLoop: a loop over an unordered list, for an element address in it.
func (o *order) listLoop(ia ssa.Instruction, list, idx ssa.Value, keyField string, ctx *octx) bool {
	fn := ia.Parent()
	h, body := o.loopOf(fn, ia.Block())
	if h == nil {
		return false
	}
	// the index is the loop's counter
	v := idx
	if b, ok := v.(*ssa.BinOp); ok && (b.Op == token.ADD || b.Op == token.SUB) {
		if _, k := b.Y.(*ssa.Const); k {
			v = b.X
		}
	}
	ph, ok := v.(*ssa.Phi)
	if !ok || ph.Block() != h {
		return false
	}
	u := &uloop{fn: fn, head: h, body: body, what: "a loop over a list in no fixed order", key: map[ssa.Value]bool{}, item: map[ssa.Value]bool{}, src: list, ctx: ctx}
	switch a := ia.(type) {
	case *ssa.IndexAddr:
		u.item[a] = true
		for _, ref := range *a.Referrers() {
			switch l := ref.(type) {
			case *ssa.UnOp:
				if l.Op == token.MUL {
					u.item[l] = true
					if keyField == "" {
						u.key[l] = true
					}
				}
			case *ssa.FieldAddr:
				if fieldName(l) == keyField {
					for _, r := range *l.Referrers() {
						if ld, ok := r.(*ssa.UnOp); ok {
							u.key[ld] = true
						}
					}
				}
			}
		}
	case *ssa.Index:
		u.item[a] = true
		if keyField == "" {
			u.key[a] = true
		}
	}
	u.item[ph] = true
	u.key[ph] = true
	o.check(u)
	return true
}

func (o *order) taint(v ssa.Value, keyField string, ctx *octx) {
	if v == nil {
		return
	}
	id := fmt.Sprintf("%p %s", v, ctx.id())
	if o.tainted[id] {
		return
	}
	o.tainted[id] = true
	o.queue = append(o.queue, olist{v, keyField, ctx})
}

// frame is a function looked at as part of an iteration.
type frame struct {
	u       *uloop
	fn      *ssa.Function
	blocks  map[*ssa.BasicBlock]bool // nil: all
	after   map[*ssa.BasicBlock]bool // only run when an iteration ends the loop
	derived map[ssa.Value]bool
	key     map[ssa.Value]bool   // values that differ in every iteration
	mine    map[ssa.Value]bool   // places and things that belong to the iteration
	fresh   map[ssa.Value]bool   // objects of this iteration
	ids     map[ssa.Value]string // what parameters are at the caller
	depth   int
	consts  map[string]string
	chain   string
}

func (f *frame) in(b *ssa.BasicBlock) bool { return f.blocks == nil || f.blocks[b] }

func (o *order) check(u *uloop) {
	id := fmt.Sprintf("%p %d", u.fn, u.head.Index)
	if o.done[id] {
		return
	}
	o.done[id] = true
	o.loops++
	dbg("LOOP", u.what, fnName(u.fn), o.c.p.Pos(u.head.Instrs[0].Pos()))
	f := &frame{u: u, fn: u.fn, blocks: u.body, derived: map[ssa.Value]bool{}, key: map[ssa.Value]bool{}, mine: map[ssa.Value]bool{}, fresh: map[ssa.Value]bool{}, ids: map[ssa.Value]string{}, consts: map[string]string{}}
	u.wrote = map[string]bool{}
	f.after = map[*ssa.BasicBlock]bool{}
	for b := range u.body {
		if b == u.head {
			continue
		}
		for _, t := range b.Succs {
			if u.body[t] || len(t.Preds) != 1 {
				continue
			}
			for _, x := range u.fn.Blocks {
				if t.Dominates(x) {
					f.after[x] = true
				}
			}
		}
	}
	for v := range u.item {
		f.derived[v] = true
		f.mine[v] = true
	}
	for v := range u.key {
		f.key[v] = true
	}
	o.spread(f)
	o.phis(f)
	o.effects(f)
	o.exits(f)
	for _, r := range u.reads {
		if u.wrote[r.id] {
			o.bad(r.f, instrPos(r.ins), "seen entry", "an iteration looks at an entry of a map that those before it may have set")
		}
	}
}

// spread: what depends on the iteration, what tells iterations apart, what is
// made by the iteration.
func (o *order) spread(f *frame) {
	for changed := true; changed; {
		changed = false
		set := func(m map[ssa.Value]bool, v ssa.Value) {
			if !m[v] {
				m[v] = true
				changed = true
			}
		}
		for _, b := range f.fn.Blocks {
			if !f.in(b) && !f.after[b] {
				continue
			}
			for _, ins := range b.Instrs {
				if st, ok := ins.(*ssa.Store); ok && f.derived[st.Val] {
					// a variable declared before the loop
					a := st.Addr
					for {
						if fa, ok := a.(*ssa.FieldAddr); ok {
							a = fa.X
							continue
						}
						break
					}
					if al, ok := a.(*ssa.Alloc); ok {
						set(f.derived, al)
					}
				}
				v, ok := ins.(ssa.Value)
				if !ok {
					continue
				}
				if ph, ok := v.(*ssa.Phi); ok && f.blocks != nil && ph.Block() == f.u.head {
					continue
				}
				for _, op := range ins.Operands(nil) {
					if *op != nil && f.derived[*op] {
						set(f.derived, v)
					}
				}
				if v.Referrers() != nil && !f.derived[v] {
					switch v.(type) {
					case *ssa.Alloc:
						if o.filledWith(f, v, 0) {
							set(f.derived, v)
						}
					}
				}
				switch i := v.(type) {
				case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeChan, *ssa.MakeClosure:
					set(f.fresh, v)
				case *ssa.Slice:
					if f.fresh[i.X] {
						set(f.fresh, v)
					}
					if f.mine[i.X] {
						set(f.mine, v)
					}
					if f.key[i.X] && i.High == nil {
						set(f.key, v)
					}
				case *ssa.FieldAddr:
					if f.fresh[i.X] {
						set(f.fresh, v)
					}
					if f.mine[i.X] {
						set(f.mine, v)
					}
				case *ssa.IndexAddr:
					if f.fresh[i.X] {
						set(f.fresh, v)
					}
					if f.key[i.Index] || f.mine[i.X] {
						set(f.mine, v)
					}
				case *ssa.UnOp:
					if i.Op != token.MUL {
						continue
					}
					if f.mine[i.X] {
						set(f.mine, v)
					}
					// a variable of the iteration that holds what it made
					if f.fresh[i.X] && o.onlyFresh(f, i.X) {
						set(f.fresh, v)
					}
					if o.storedKey(f, i.X, f.key) {
						set(f.key, v)
					}
					if o.storedKey(f, i.X, f.mine) {
						set(f.mine, v)
					}
				case *ssa.Field:
					if f.mine[i.X] {
						set(f.mine, v)
					}
				case *ssa.Lookup:
					if f.key[i.Index] {
						set(f.mine, v)
						// the ordinal of the key
						if isInt(i.Type()) {
							set(f.key, v)
						}
					}
				case *ssa.Extract:
					if f.key[i.Tuple] {
						set(f.key, v)
					}
					if f.mine[i.Tuple] {
						set(f.mine, v)
						if l, ok := i.Tuple.(*ssa.Lookup); ok && i.Index == 0 && f.key[l.Index] && isInt(i.Type()) {
							set(f.key, v)
						}
					}
					if call, ok := i.Tuple.(*ssa.Call); ok && (pointerLike(i.Type()) || types.IsInterface(i.Type())) && o.newResult(f, call, i.Index) {
						set(f.fresh, v)
					}
				case *ssa.Convert:
					if f.key[i.X] {
						set(f.key, v)
					}
				case *ssa.ChangeType:
					if f.key[i.X] {
						set(f.key, v)
					}
					if f.mine[i.X] {
						set(f.mine, v)
					}
				case *ssa.BinOp:
					if i.Op == token.ADD && (f.key[i.X] && isConst(i.Y) || f.key[i.Y] && isConst(i.X)) {
						set(f.key, v)
					}
				case *ssa.Call:
					if bi, ok := i.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" && (f.fresh[i.Call.Args[0]] || isNilConst(i.Call.Args[0])) {
						set(f.fresh, v)
					} else if ok {
						continue
					}
					// a result made by the callee
					if _, ok := types.Unalias(i.Type()).Underlying().(*types.Struct); ok {
						set(f.fresh, v)
					} else if (pointerLike(i.Type()) || types.IsInterface(i.Type())) && o.newResult(f, i, 0) {
						set(f.fresh, v)
					}
				case *ssa.Phi:
					fresh, mine, key := len(i.Edges) > 0, len(i.Edges) > 0, len(i.Edges) > 0
					for _, e := range i.Edges {
						if e == ssa.Value(i) {
							continue
						}
						if !f.fresh[e] && !isNilConst(e) {
							fresh = false
						}
						if !f.mine[e] && !f.fresh[e] && !isNilConst(e) {
							mine = false
						}
						if !f.key[e] {
							key = false
						}
					}
					if fresh || f.blocks == nil && !f.fresh[v] && pointerLike(i.Type()) && o.made(f.fn, i, map[ssa.Value]bool{}) {
						set(f.fresh, v)
					}
					if mine {
						set(f.mine, v)
					}
					if key {
						set(f.key, v)
					}
				}
			}
		}
	}
}

func isInt(t types.Type) bool {
	if tp, ok := t.(*types.Tuple); ok && tp.Len() > 0 {
		t = tp.At(0).Type()
	}
	b, ok := types.Unalias(t).Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func isConst(v ssa.Value) bool {
	_, ok := v.(*ssa.Const)
	return ok
}

// filledWith: something of the iteration is stored in the new object.
func (o *order) filledWith(f *frame, a ssa.Value, d int) bool {
	if d > 4 || a.Referrers() == nil {
		return false
	}
	for _, ref := range *a.Referrers() {
		switch i := ref.(type) {
		case *ssa.Store:
			if i.Addr == a && f.derived[i.Val] && (f.in(i.Block()) || f.after[i.Block()]) {
				return true
			}
		case *ssa.FieldAddr:
			if o.filledWith(f, i, d+1) {
				return true
			}
		case *ssa.IndexAddr:
			if i.X == a && o.filledWith(f, i, d+1) {
				return true
			}
		}
	}
	return false
}

func isNilConst(v ssa.Value) bool {
	k, ok := v.(*ssa.Const)
	return ok && k.Value == nil
}

// onlyFresh: a local variable that only ever holds things of the iteration.
func (o *order) onlyFresh(f *frame, a ssa.Value) bool {
	al, ok := a.(*ssa.Alloc)
	if !ok {
		return false
	}
	for _, ref := range *al.Referrers() {
		if st, ok := ref.(*ssa.Store); ok && st.Addr == a && !f.fresh[st.Val] && !isNilConst(st.Val) {
			return false
		}
	}
	return true
}

// storedKey: a local variable that only ever holds values of the set.
func (o *order) storedKey(f *frame, a ssa.Value, set map[ssa.Value]bool) bool {
	if _, ok := a.(*ssa.Alloc); !ok {
		return false
	}
	n := 0
	for _, ref := range *a.Referrers() {
		if st, ok := ref.(*ssa.Store); ok && st.Addr == a {
			if !set[st.Val] {
				return false
			}
			n++
		}
	}
	return n > 0
}

func (o *order) bad(f *frame, pos token.Pos, kind, format string, a ...interface{}) {
	msg := fmt.Sprintf(format, a...)
	where := fnName(f.u.fn)
	if f.fn != f.u.fn {
		kind += " via " + fnName(f.fn)
	}
	if pos == 0 {
		pos = f.u.fn.Pos()
	}
	o.c.Violate(kind+" in "+where, pos, "%s: %s, in %s", where, msg, f.u.what)
}

// phis: what is carried from one iteration to the next in local variables.
func (o *order) phis(f *frame) {
	u := f.u
	for _, ins := range u.head.Instrs {
		ph, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		if u.item[ph] {
			continue
		}
		// the values that come back from the body
		leaves := map[ssa.Value]bool{}
		var rec func(v ssa.Value)
		seen := map[ssa.Value]bool{}
		rec = func(v ssa.Value) {
			if seen[v] {
				return
			}
			seen[v] = true
			if p, ok := v.(*ssa.Phi); ok && p != ph && u.body[p.Block()] {
				for _, e := range p.Edges {
					rec(e)
				}
				return
			}
			leaves[v] = true
		}
		for i, e := range ph.Edges {
			if u.body[u.head.Preds[i]] {
				rec(e)
			}
		}
		delete(leaves, ph)
		o.carried(f, ph, leaves)
	}
}

func (o *order) carried(f *frame, ph *ssa.Phi, leaves map[ssa.Value]bool) {
	u := f.u
	if isErrType(ph.Type()) {
		return // which of several errors is reported may vary
	}
	consts := map[string]bool{}
	kind := map[string]bool{}
	updates := map[ssa.Instruction]bool{}
	var appended ssa.Value
	for l := range leaves {
		switch v := l.(type) {
		case *ssa.Const:
			consts[v.String()] = true
			kind["const"] = true
			continue
		case *ssa.BinOp:
			if commutes(v.Op, v.Type()) && (o.fromPhi(f, v.X, ph) || commutesBoth(v.Op) && o.fromPhi(f, v.Y, ph)) {
				kind["sum"] = true
				updates[v] = true
				continue
			}
		case *ssa.Call:
			if b, ok := v.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" && o.fromPhi(f, v.Call.Args[0], ph) {
				kind["list"] = true
				updates[v] = true
				appended = v
				o.taint(ph, o.keyOfAppend(f, v), u.ctx)
				continue
			}
		}
		if !f.derived[l] {
			if i, ok := l.(ssa.Instruction); !ok || !u.body[i.Block()] {
				consts[l.Name()] = true
				kind["const"] = true
				continue
			}
		}
		o.bad(f, ph.Pos(), "carried "+ph.Comment, "what %s holds after the loop depends on which iteration comes last", name(ph))
		return
	}
	_ = appended
	if len(consts) > 1 || len(kind) > 1 {
		o.bad(f, ph.Pos(), "carried "+ph.Comment, "what %s holds after the loop depends on the order of the iterations", name(ph))
		return
	}
	if kind["sum"] || kind["list"] {
		u.leaves = true
		// nothing else in the loop may look at it
		for _, ref := range *ph.Referrers() {
			if updates[ref] || !u.body[ref.Block()] {
				continue
			}
			if p, ok := ref.(*ssa.Phi); ok && u.body[p.Block()] {
				continue
			}
			if kind["list"] {
				if c, ok := ref.(*ssa.Call); ok {
					if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
						continue
					}
				}
			}
			o.bad(f, ref.Pos(), "seen "+ph.Comment, "an iteration looks at %s, which counts those before it", name(ph))
			return
		}
		for up := range updates {
			for _, ref := range *up.(ssa.Value).Referrers() {
				if _, ok := ref.(*ssa.Phi); ok || updates[ref] || !u.body[ref.Block()] {
					continue
				}
				if _, ok := ref.(*ssa.DebugRef); ok {
					continue
				}
				o.bad(f, instrPos(ref), "seen "+ph.Comment, "an iteration looks at %s, which counts those before it", name(ph))
				return
			}
		}
	}
}

func name(v ssa.Value) string {
	if p, ok := v.(*ssa.Phi); ok && p.Comment != "" {
		return p.Comment
	}
	return v.Name()
}

func commutes(op token.Token, t types.Type) bool {
	b, ok := types.Unalias(t).Underlying().(*types.Basic)
	if !ok || b.Info()&(types.IsInteger|types.IsBoolean) == 0 {
		return false
	}
	switch op {
	case token.ADD, token.SUB, token.OR, token.AND, token.XOR:
		return true
	}
	return false
}

func commutesBoth(op token.Token) bool { return op != token.SUB }

// fromPhi: v is the carried value, perhaps through joins of the body.
func (o *order) fromPhi(f *frame, v ssa.Value, ph *ssa.Phi) bool {
	seen := map[ssa.Value]bool{}
	var rec func(v ssa.Value) bool
	rec = func(v ssa.Value) bool {
		if v == ssa.Value(ph) {
			return true
		}
		if seen[v] {
			return true
		}
		seen[v] = true
		switch p := v.(type) {
		case *ssa.Phi:
			if !f.u.body[p.Block()] {
				return false
			}
			for _, e := range p.Edges {
				if !rec(e) {
					return false
				}
			}
			return true
		case *ssa.Call:
			if b, ok := p.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
				return rec(p.Call.Args[0])
			}
		case *ssa.BinOp:
			return commutes(p.Op, p.Type()) && rec(p.X)
		}
		return false
	}
	return rec(v)
}

// keyOfAppend: what tells the appended elements apart: "" the element itself,
// a field of it, or "?" nothing known.
func (o *order) keyOfAppend(f *frame, call *ssa.Call) string {
	sl, ok := call.Call.Args[1].(*ssa.Slice)
	if !ok {
		return "?"
	}
	arr, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return "?"
	}
	for _, ref := range *arr.Referrers() {
		ia, ok := ref.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		for _, r := range *ia.Referrers() {
			switch st := r.(type) {
			case *ssa.Store:
				if f.key[st.Val] {
					return ""
				}
				if l, ok := st.Val.(*ssa.UnOp); ok && l.Op == token.MUL {
					if n := o.keyField(f, l.X); n != "?" {
						return n
					}
				}
			case *ssa.FieldAddr:
				for _, r2 := range *st.Referrers() {
					if s2, ok := r2.(*ssa.Store); ok && s2.Addr == ssa.Value(st) && f.key[s2.Val] {
						return fieldName(st)
					}
				}
			}
		}
	}
	return "?"
}

func fieldName(fa *ssa.FieldAddr) string { return structOf(fa.X.Type()).Field(fa.Field).Name() }

func (o *order) keyField(f *frame, a ssa.Value) string {
	if a.Referrers() == nil {
		return "?"
	}
	for _, ref := range *a.Referrers() {
		if fa, ok := ref.(*ssa.FieldAddr); ok {
			for _, r := range *fa.Referrers() {
				if st, ok := r.(*ssa.Store); ok && st.Addr == ssa.Value(fa) && f.key[st.Val] {
					return fieldName(fa)
				}
			}
		}
	}
	return "?"
}

// exits: ways out of the loop before its end.
func (o *order) exits(f *frame) {
	u := f.u
	normal := map[*ssa.BasicBlock]bool{}
	for _, s := range u.head.Succs {
		if !u.body[s] {
			normal[s] = true
		}
	}
	for b := range u.body {
		if b == u.head {
			continue
		}
		for _, s := range b.Succs {
			if u.body[s] {
				continue
			}
			// stopping there leaves out whichever iterations are left
			if u.leaves && o.stops(f, b, s, normal) {
				o.bad(f, instrPos(b.Instrs[len(b.Instrs)-1]), "stops early", "the loop is left after whichever iterations came first")
			}
			// what follows this exit alone
			q, seen := []*ssa.BasicBlock{s}, map[*ssa.BasicBlock]bool{s: true}
			for len(q) > 0 {
				x := q[0]
				q = q[1:]
				joined := normal[x] || !s.Dominates(x)
				if joined {
					for _, ins := range x.Instrs {
						ph, ok := ins.(*ssa.Phi)
						if !ok {
							break
						}
						for i, e := range ph.Edges {
							if p := x.Preds[i]; (seen[p] || u.body[p] && p != u.head) && f.derived[e] {
								o.bad(f, ph.Pos(), "leaves with "+ph.Comment, "the loop is left with a value of whichever iteration comes first")
							}
						}
					}
					continue
				}
				for _, ins := range x.Instrs {
					r, ok := ins.(*ssa.Return)
					if !ok {
						continue
					}
					n := len(r.Results)
					if n > 0 && isErrType(r.Results[n-1].Type()) && !isNilConst(r.Results[n-1]) {
						continue // an error ends it
					}
					for _, v := range o.results(r) {
						if f.derived[v] {
							o.bad(f, r.Pos(), "returns early", "the result is a value of whichever iteration comes first")
						}
					}
					for _, ins := range u.head.Instrs {
						if ph, ok := ins.(*ssa.Phi); ok && !u.item[ph] && o.usedBy(ph, r) {
							o.bad(f, r.Pos(), "returns early", "the result depends on how many iterations come before the one that ends the loop")
						}
					}
				}
				for _, t := range x.Succs {
					if !seen[t] && !u.body[t] {
						seen[t] = true
						q = append(q, t)
					}
				}
			}
		}
	}
}

// stops: the way out from b to s is taken for the iteration's own reasons,
// without an error.
func (o *order) stops(f *frame, b, s *ssa.BasicBlock, normal map[*ssa.BasicBlock]bool) bool {
	u := f.u
	own := false
	for x := b; x != nil && x != u.head && u.body[x]; x = x.Idom() {
		i, ok := x.Instrs[len(x.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		if c, ok := i.Cond.(*ssa.BinOp); ok {
			if isErrType(c.X.Type()) {
				return false
			}
			for _, v := range []ssa.Value{c.X, c.Y} {
				if ph, ok := v.(*ssa.Phi); ok && ph.Block() == u.head {
					own = true
				}
			}
		}
		if f.derived[i.Cond] {
			own = true
		}
	}
	if !own {
		return false
	}
	// every end is an error or a panic
	q, seen := []*ssa.BasicBlock{s}, map[*ssa.BasicBlock]bool{s: true}
	for len(q) > 0 {
		x := q[0]
		q = q[1:]
		if !s.Dominates(x) || normal[x] {
			return true
		}
		switch r := x.Instrs[len(x.Instrs)-1].(type) {
		case *ssa.Return:
			res := o.results(r)
			failing := false
			for _, v := range res {
				if isErrType(v.Type()) && !isNilConst(v) {
					failing = true
				}
			}
			if !failing {
				return true
			}
		case *ssa.Panic:
		}
		for _, t := range x.Succs {
			if !seen[t] {
				seen[t] = true
				q = append(q, t)
			}
		}
	}
	return false
}

func (o *order) usedBy(v ssa.Value, r *ssa.Return) bool {
	for _, x := range r.Results {
		if x == v {
			return true
		}
	}
	return false
}

// results of a return; those of named results are in their variables.
func (o *order) results(r *ssa.Return) []ssa.Value {
	var res []ssa.Value
	for _, v := range r.Results {
		res = append(res, v)
		if l, ok := v.(*ssa.UnOp); ok && l.Op == token.MUL {
			if al, ok := l.X.(*ssa.Alloc); ok {
				for _, ref := range *al.Referrers() {
					if st, ok := ref.(*ssa.Store); ok && st.Addr == ssa.Value(al) && st.Block() == r.Block() {
						res = append(res, st.Val)
					}
				}
			}
		}
	}
	return res
}

// own: the address or map belongs to this iteration alone.
func (o *order) own(f *frame, v ssa.Value) bool {
	for i := 0; i < 20 && v != nil; i++ {
		if f.fresh[v] || f.mine[v] {
			return true
		}
		switch a := v.(type) {
		case *ssa.FieldAddr:
			v = a.X
		case *ssa.IndexAddr:
			if f.key[a.Index] {
				return true
			}
			v = a.X
		case *ssa.Slice:
			v = a.X
		case *ssa.UnOp:
			if a.Op != token.MUL {
				return false
			}
			v = a.X
		case *ssa.Lookup:
			if f.key[a.Index] {
				return true
			}
			v = a.X
		case *ssa.Extract:
			v = a.Tuple
		default:
			return false
		}
	}
	return false
}

// mapID names a map the same way wherever it is reached from.
func (o *order) mapID(f *frame, v ssa.Value) string {
	if id, ok := f.ids[v]; ok {
		return id
	}
	switch i := v.(type) {
	case *ssa.UnOp:
		if i.Op != token.MUL {
			break
		}
		switch a := i.X.(type) {
		case *ssa.FieldAddr:
			return fieldKeyOf(a.X.Type(), a.Field)
		case *ssa.Global:
			return a.String()
		case *ssa.Alloc, *ssa.FreeVar:
			for _, c := range o.c.p.sameCell(a) {
				if al, ok := c.(*ssa.Alloc); ok {
					// a variable that holds one thing
					if w := onlyStore(al); w != nil && w.Parent() == f.fn {
						return o.mapID(f, w)
					}
					return fmt.Sprintf("%p", al)
				}
			}
		}
	case *ssa.Field:
		return fieldKeyOf(i.X.Type(), i.Field)
	case *ssa.Lookup:
		return o.mapID(f, i.X) + "[" + o.mapID(f, i.Index) + "]"
	case *ssa.Extract:
		if i.Index == 0 {
			return o.mapID(f, i.Tuple)
		}
	case *ssa.ChangeType:
		return o.mapID(f, i.X)
	case *ssa.Call:
		// a getter
		if callees := o.c.p.Callees(i); len(callees) == 1 && len(callees[0].Blocks) == 1 {
			g := callees[0]
			if r, ok := g.Blocks[0].Instrs[len(g.Blocks[0].Instrs)-1].(*ssa.Return); ok && len(r.Results) == 1 {
				h := &frame{fn: g, ids: map[ssa.Value]string{}}
				for k, p := range g.Params {
					if k < len(i.Call.Args) {
						h.ids[p] = o.mapID(f, i.Call.Args[k])
					}
				}
				return o.mapID(h, r.Results[0])
			}
		}
	case *ssa.Const:
		return i.String()
	}
	return fmt.Sprintf("%p", v)
}

func onlyStore(al *ssa.Alloc) ssa.Value {
	var w ssa.Value
	for _, ref := range *al.Referrers() {
		if st, ok := ref.(*ssa.Store); ok && st.Addr == ssa.Value(al) {
			if w != nil {
				return nil
			}
			w = st.Val
		}
	}
	return w
}

func placeKey(v ssa.Value) string {
	switch a := v.(type) {
	case *ssa.FieldAddr:
		return fieldKeyOf(a.X.Type(), a.Field)
	case *ssa.Global:
		return a.String()
	}
	return fmt.Sprintf("%p", v)
}

// timing: the statistics of how long things took.
func timing(v ssa.Value) bool {
	for i := 0; i < 10; i++ {
		fa, ok := v.(*ssa.FieldAddr)
		if !ok {
			return false
		}
		if strings.Contains(typeKey(fa.X.Type()), "Timing") {
			return true
		}
		v = fa.X
		if l, ok := v.(*ssa.UnOp); ok {
			v = l.X
		}
	}
	return false
}

func (o *order) effects(f *frame) {
	c := o.c
	for _, b := range f.fn.Blocks {
		if !f.in(b) {
			continue
		}
		for _, ins := range b.Instrs {
			switch i := ins.(type) {
			case *ssa.Store:
				if o.own(f, i.Addr) || timing(i.Addr) || o.perTurn(f, i.Addr, i) {
					continue
				}
				if a, ok := i.Addr.(*ssa.Alloc); ok && !f.in(a.Block()) && !a.Heap && f.blocks != nil && false {
					continue
				}
				c.Count("writes judged", 1)
				o.write(f, i.Addr, i.Val, i.Pos())
			case *ssa.Lookup:
				if _, ok := types.Unalias(i.X.Type()).Underlying().(*types.Map); ok && !f.key[i.Index] && !o.own(f, i.X) && !o.ownUpdateOnly(f, i) {
					f.u.reads = append(f.u.reads, mapRead{o.mapID(f, i.X), f, i})
				}
			case *ssa.Range:
				if _, ok := types.Unalias(i.X.Type()).Underlying().(*types.Map); ok && !o.own(f, i.X) {
					f.u.reads = append(f.u.reads, mapRead{o.mapID(f, i.X), f, i})
				}
			case *ssa.MapUpdate:
				c.Count("writes judged", 1)
				if o.own(f, i.Map) {
					continue
				}
				id := o.mapID(f, i.Map)
				f.u.leaves = true
				if f.key[i.Key] {
					f.u.wrote[id] = true
					continue
				}
				if !f.derived[i.Key] && !f.derived[i.Value] {
					continue
				}
				if o.memo(f, i) {
					continue
				}
				if call, ok := i.Value.(*ssa.Call); ok {
					if bi, ok := call.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" && o.lookupOf(call.Call.Args[0], i.Map, i.Key) {
						f.u.wrote[id] = true
						if !o.sortedAfter(f, i.Map) {
							o.bad(f, i.Pos(), "map of lists", "the lists in a map are filled in the order of the iterations and not sorted afterwards")
						}
						continue
					}
				}
				if bin, ok := i.Value.(*ssa.BinOp); ok && commutes(bin.Op, bin.Type()) && o.lookupOf(bin.X, i.Map, i.Key) {
					f.u.wrote[id] = true
					continue
				}
				if o.blank(f, i.Value) {
					if o.firstUse(f, i) {
						continue
					}
					f.u.wrote[id] = true
					continue
				}
				if !f.derived[i.Value] && !o.carries(f, i.Value) {
					f.u.wrote[id] = true
					continue
				}
				o.bad(f, i.Pos(), "map entry", "the entry of a map is that of whichever iteration comes last")
			case *ssa.Send:
				t := i.X.Type()
				c.Count("sends judged", 1)
				f.u.leaves = true
				if o.deliverable(t) || noData(t) {
					continue
				}
				o.bad(f, i.Pos(), "send", "%s are sent in the order of the iterations", types.TypeString(t, nil))
			case *ssa.Go:
				o.bad(f, i.Pos(), "go", "a goroutine is started by each iteration")
			case ssa.CallInstruction:
				o.call(f, i)
			case *ssa.UnOp:
				if i.Op == token.ARROW && f.blocks != nil && !f.u.item[i] {
					isItem := false
					for _, ref := range *i.Referrers() {
						if v, ok := ref.(ssa.Value); ok && f.u.item[v] {
							isItem = true
						}
					}
					if !isItem && !noData(i.Type()) {
						o.bad(f, i.Pos(), "receive", "an iteration takes the next value of a channel")
					}
				}
			}
		}
	}
}

// deliverable: records whose order may vary.
func (o *order) deliverable(t types.Type) bool {
	return isNamed(t, mp(rootPkg)+".BlameResult") || isNamed(t, mp(rootPkg)+".Branch") || isNamed(t, mp(branchesPkg)+".Branch") || o.workItem(t)
}

// workItem: what workers take from a channel that several of them read.
func (o *order) workItem(t types.Type) bool {
	for _, v := range o.c.p.Index().recvs[types.TypeString(t, nil)] {
		if i, ok := v.(ssa.Instruction); ok && o.done[fmt.Sprintf("%p %d", i.Parent(), o.headIndex(i))] {
			return true
		}
	}
	return false
}

func (o *order) headIndex(i ssa.Instruction) int {
	if h, _ := o.loopOf(i.Parent(), i.Block()); h != nil {
		return h.Index
	}
	return -1
}

// carries: a value that earlier iterations may have changed.
func (o *order) carries(f *frame, v ssa.Value) bool {
	ph, ok := v.(*ssa.Phi)
	return ok && f.blocks != nil && ph.Block() == f.u.head && !f.u.item[ph]
}

// ownUpdateOnly: the entry is only looked up to be put back with something
// added, or to be filled when it is not there yet.
func (o *order) ownUpdateOnly(f *frame, l *ssa.Lookup) bool {
	var vals []ssa.Value
	vals = append(vals, l)
	if l.CommaOk {
		vals = nil
		for _, ref := range *l.Referrers() {
			if ex, ok := ref.(*ssa.Extract); ok {
				vals = append(vals, ex)
			}
		}
	}
	var up *ssa.MapUpdate
	for _, b := range f.fn.Blocks {
		for _, ins := range b.Instrs {
			if mu, ok := ins.(*ssa.MapUpdate); ok && mu.Key == l.Index && sameLoad(mu.Map, l.X) {
				up = mu
			}
		}
	}
	if up == nil {
		return false
	}
	if o.blank(f, up.Value) && o.firstUse(f, up) {
		return true
	}
	for _, v := range vals {
		for _, ref := range *v.Referrers() {
			switch i := ref.(type) {
			case *ssa.DebugRef:
			case *ssa.Call:
				if b, ok := i.Call.Value.(*ssa.Builtin); !ok || b.Name() != "append" || i.Call.Args[0] != v || up.Value != ssa.Value(i) {
					return false
				}
			case *ssa.BinOp:
				if up.Value != ssa.Value(i) || !commutes(i.Op, i.Type()) {
					return false
				}
			default:
				return false
			}
		}
	}
	return true
}

// firstUse: the blank entry is put in the map when there is none yet, so it
// does not matter which iteration did it.
func (o *order) firstUse(f *frame, m *ssa.MapUpdate) bool {
	for _, b := range f.fn.Blocks {
		for _, ins := range b.Instrs {
			l, ok := ins.(*ssa.Lookup)
			if !ok || !sameLoad(l.X, m.Map) || l.Index != m.Key || !b.Dominates(m.Block()) {
				continue
			}
			// the block of the update hangs on the lookup
			p := m.Block()
			if len(p.Preds) != 1 {
				continue
			}
			cond, ok := p.Preds[0].Instrs[len(p.Preds[0].Instrs)-1].(*ssa.If)
			if !ok {
				continue
			}
			switch c := cond.Cond.(type) {
			case *ssa.Extract:
				if c.Tuple == ssa.Value(l) && c.Index == 1 && p.Preds[0].Succs[1] == p {
					return true
				}
			case *ssa.BinOp:
				x := c.X
				if ex, ok := x.(*ssa.Extract); ok {
					x = ex.Tuple
				}
				if x == ssa.Value(l) && isNilConst(c.Y) && (c.Op == token.EQL && p.Preds[0].Succs[0] == p || c.Op == token.NEQ && p.Preds[0].Succs[1] == p) {
					return true
				}
			}
		}
	}
	return false
}

// blank: a new object that nothing of the iteration went into yet.
func (o *order) blank(f *frame, v ssa.Value) bool {
	switch i := v.(type) {
	case *ssa.MakeSlice:
		return !f.derived[i.Len] && !f.derived[i.Cap]
	case *ssa.MakeMap:
		return true
	case *ssa.Slice:
		al, ok := i.X.(*ssa.Alloc)
		return ok && al.Comment == "makeslice"
	case *ssa.Const:
		return true
	}
	return false
}

// memo: an entry of a cache, computed from its key and looked up first.
func (o *order) memo(f *frame, m *ssa.MapUpdate) bool {
	par, ok := m.Key.(*ssa.Parameter)
	if _, k := m.Value.(*ssa.Const); !ok || k {
		return false
	}
	for _, b := range f.fn.Blocks {
		for _, ins := range b.Instrs {
			l, ok := ins.(*ssa.Lookup)
			if !ok || l.Index != ssa.Value(par) || !sameLoad(l.X, m.Map) || !b.Dominates(m.Block()) {
				continue
			}
			return true
		}
	}
	return false
}

func sameLoad(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	x, ok1 := a.(*ssa.UnOp)
	y, ok2 := b.(*ssa.UnOp)
	if ok1 && ok2 && x.Op == token.MUL && y.Op == token.MUL {
		if x.X == y.X {
			return true
		}
		fx, ok1 := x.X.(*ssa.FieldAddr)
		fy, ok2 := y.X.(*ssa.FieldAddr)
		return ok1 && ok2 && fx.Field == fy.Field && sameLoad(fx.X, fy.X)
	}
	lx, ok1 := a.(*ssa.Lookup)
	ly, ok2 := b.(*ssa.Lookup)
	return ok1 && ok2 && lx.Index == ly.Index && sameLoad(lx.X, ly.X)
}

func (o *order) lookupOf(v, m, k ssa.Value) bool {
	if ex, ok := v.(*ssa.Extract); ok {
		v = ex.Tuple
	}
	l, ok := v.(*ssa.Lookup)
	return ok && sameLoad(l.X, m) && l.Index == k
}

// sortedAfter: after the loop another one, here or in a function called,
// sorts every list in the map.
func (o *order) sortedAfter(f *frame, m ssa.Value) bool {
	id := o.mapID(f, m)
	for _, b := range f.fn.Blocks {
		if f.in(b) || !f.u.head.Dominates(b) {
			continue
		}
		for _, ins := range b.Instrs {
			switch i := ins.(type) {
			case *ssa.Range:
				if (sameLoad(i.X, m) || o.mapID(f, i.X) == id) && o.sortsAll(f, i) {
					return true
				}
			case *ssa.Call:
				for _, g := range o.c.p.Callees(i) {
					h := &frame{fn: g, ids: map[ssa.Value]string{}}
					for k, p := range g.Params {
						if k < len(i.Call.Args) {
							h.ids[p] = o.mapID(f, i.Call.Args[k])
						}
					}
					for _, gb := range g.Blocks {
						for _, gi := range gb.Instrs {
							if r, ok := gi.(*ssa.Range); ok && o.mapID(h, r.X) == id && o.sortsAll(h, r) && onEveryPath(g, gb) {
								return true
							}
						}
					}
				}
			}
		}
	}
	return false
}

// sortsAll: every turn of the loop over the map first sorts the list of its key.
func (o *order) sortsAll(f *frame, rng *ssa.Range) bool {
	for _, ref := range *rng.Referrers() {
		n, ok := ref.(*ssa.Next)
		if !ok {
			continue
		}
		var lists []ssa.Value
		for _, r := range *n.Referrers() {
			ex, ok := r.(*ssa.Extract)
			if !ok {
				continue
			}
			if ex.Index == 2 {
				lists = append(lists, ex)
			}
			if ex.Index == 1 {
				for _, u := range *ex.Referrers() {
					if l, ok := u.(*ssa.Lookup); ok && l.Index == ssa.Value(ex) && o.mapID(f, l.X) == o.mapID(f, rng.X) {
						lists = append(lists, l)
					}
				}
			}
		}
		for _, ex := range lists {
			for _, u := range *ex.Referrers() {
				s := o.sortPoint(o.sorts(u, ex, ""), ex)
				if s != nil && (s.Block() == n.Block() || len(s.Block().Preds) == 1 && s.Block().Preds[0] == n.Block()) {
					return true
				}
			}
		}
	}
	return false
}

// sortedAtEnd: a deferred function sorts the variable.
func (o *order) sortedAtEnd(fn *ssa.Function, cell ssa.Value, kf string) bool {
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			d, ok := ins.(*ssa.Defer)
			if !ok || !onEveryPath(fn, b) {
				continue
			}
			mc, ok := d.Call.Value.(*ssa.MakeClosure)
			if !ok {
				continue
			}
			g := mc.Fn.(*ssa.Function)
			for k, bv := range mc.Bindings {
				if bv != cell {
					continue
				}
				for _, ref := range *g.FreeVars[k].Referrers() {
					l, ok := ref.(*ssa.UnOp)
					if !ok {
						continue
					}
					for _, u := range *l.Referrers() {
						if s := o.sortPoint(o.sorts(u, l, kf), l); s != nil && onEveryPath(g, s.Block()) {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

// write judges a store to a place outside the iteration.
func (o *order) write(f *frame, addr, val ssa.Value, pos token.Pos) {
	if k, ok := val.(*ssa.Const); ok {
		p := placeKey(addr)
		if old, ok := f.consts[p]; ok && old != k.String() {
			o.bad(f, pos, "two values", "a variable gets different values in the order of the iterations")
		}
		f.consts[p] = k.String()
		return
	}
	if !f.derived[val] && !o.readsPlace(f, val, addr) {
		if i, ok := val.(ssa.Instruction); !ok || f.blocks == nil || !f.in(i.Block()) || !loads(val) {
			return
		}
	}
	if bin, ok := val.(*ssa.BinOp); ok && commutes(bin.Op, bin.Type()) && (isLoadOf(bin.X, addr) || commutesBoth(bin.Op) && isLoadOf(bin.Y, addr)) {
		// nothing else in the loop reads it
		for _, b := range f.fn.Blocks {
			if !f.in(b) {
				continue
			}
			for _, ins := range b.Instrs {
				l, ok := ins.(*ssa.UnOp)
				if ok && l.Op == token.MUL && sameAddr(l.X, addr) && !onlyUsedBy(l, bin) {
					o.bad(f, l.Pos(), "seen count", "an iteration looks at a sum that counts those before it")
					return
				}
			}
		}
		return
	}
	if call, ok := val.(*ssa.Call); ok {
		if bi, ok := call.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" && isLoadOf(call.Call.Args[0], addr) {
			f.u.leaves = true
			o.taintPlace(f, addr, o.keyOfAppend(f, call), call)
			return
		}
	}
	// an error is kept
	if isErrType(val.Type()) {
		return
	}
	if o.errorBlock(f, addr) {
		return
	}
	o.bad(f, pos, "variable", "a variable holds what whichever iteration came last left in it")
}

// errorBlock: nothing.
func (o *order) errorBlock(f *frame, addr ssa.Value) bool { return false }

func loads(v ssa.Value) bool {
	switch i := v.(type) {
	case *ssa.UnOp:
		return i.Op == token.MUL
	case *ssa.Phi, *ssa.BinOp, *ssa.Call:
		return true
	}
	return false
}

func (o *order) readsPlace(f *frame, val, addr ssa.Value) bool {
	i, ok := val.(ssa.Instruction)
	if !ok {
		return false
	}
	for _, op := range i.Operands(nil) {
		if *op != nil && isLoadOf(*op, addr) {
			return true
		}
	}
	return false
}

func isLoadOf(v, addr ssa.Value) bool {
	l, ok := v.(*ssa.UnOp)
	return ok && l.Op == token.MUL && sameAddr(l.X, addr)
}

func sameAddr(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	x, ok1 := a.(*ssa.FieldAddr)
	y, ok2 := b.(*ssa.FieldAddr)
	if ok1 && ok2 {
		return x.Field == y.Field && typeKey(x.X.Type()) == typeKey(y.X.Type()) && (sameAddr(x.X, y.X) || sameLoad(x.X, y.X))
	}
	i, ok1 := a.(*ssa.IndexAddr)
	j, ok2 := b.(*ssa.IndexAddr)
	return ok1 && ok2 && i.Index == j.Index && sameLoad(i.X, j.X)
}

func onlyUsedBy(v ssa.Value, by ssa.Instruction) bool {
	for _, r := range *v.Referrers() {
		if r != by {
			return false
		}
	}
	return true
}

// taintPlace: the list kept in a place is in no fixed order after the loop.
func (o *order) taintPlace(f *frame, addr ssa.Value, keyField string, at ssa.Instruction) {
	switch a := addr.(type) {
	case *ssa.Alloc, *ssa.FreeVar:
		for _, cell := range o.c.p.sameCell(a) {
			if cell.Referrers() == nil {
				continue
			}
			for _, ref := range *cell.Referrers() {
				if l, ok := ref.(*ssa.UnOp); ok && l.Op == token.MUL && !(l.Parent() == f.fn && f.blocks != nil && f.in(l.Block())) && !instrBefore(l, at) && !o.comparator(l.Parent()) {
					o.taint(l, keyField, f.u.ctx)
				}
			}
			o.fills[cell] = append(o.fills[cell], at)
		}
	case *ssa.FieldAddr:
		for _, fa := range o.c.p.Index().fieldAddrs[fieldKeyOf(a.X.Type(), a.Field)] {
			if v, ok := fa.(*ssa.Field); ok {
				o.taint(v, keyField, nil)
				continue
			}
			for _, ref := range *fa.Referrers() {
				if l, ok := ref.(*ssa.UnOp); ok && l.Op == token.MUL && !(l.Parent() == f.fn && f.blocks != nil && f.in(l.Block())) {
					o.taint(l, keyField, nil)
				}
			}
		}
	case *ssa.Global:
		for _, l := range o.c.p.Index().globLoads[a] {
			o.taint(l, keyField, nil)
		}
	default:
		o.bad(f, addr.Pos(), "list", "a list is filled in the order of the iterations in a place that is not followed")
	}
}

var quietCalls = []string{"fmt.", "(*log.", "log.", "(*sync.", "(sync.", "strings.", "strconv.", "errors.", "bytes.", "time.", "(time.", "path", "sort.", "regexp.", "(*regexp.", "unicode", "math.", "(error).", "gopkg.in/src-d/", "runtime."}

func (o *order) call(f *frame, ci ssa.CallInstruction) {
	com := ci.Common()
	if b, ok := com.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "delete":
			if !o.own(f, com.Args[0]) && !f.key[com.Args[1]] && f.derived[com.Args[1]] {
				o.c.Count("writes judged", 1)
			}
		case "len":
			// the size of a map that the loop fills
			if ci.Parent() == f.u.fn && o.filledInLoop(f, com.Args[0]) {
				o.bad(f, ci.Pos(), "seen size", "an iteration looks at the size of a map that those before it filled")
			}
		case "close":
			if !o.own(f, com.Args[0]) {
				o.bad(f, ci.Pos(), "close", "an iteration closes a channel")
			}
		}
		return
	}
	n := calleeName(com)
	for _, q := range quietCalls {
		if strings.HasPrefix(n, q) {
			return
		}
	}
	callees := o.c.p.Callees(ci)
	if len(callees) == 0 {
		if com.IsInvoke() && o.own(f, com.Value) || !com.IsInvoke() && com.Signature().Recv() != nil && o.own(f, com.Args[0]) {
			return
		}
		if !com.IsInvoke() && (com.StaticCallee() == nil || com.Signature().Recv() == nil) {
			return
		}
		if strings.Contains(n, ".Write") || strings.Contains(n, ".Encode") || strings.Contains(n, ".Read") {
			o.bad(f, ci.Pos(), "output", "%s is called in the order of the iterations", n)
		}
		return
	}
	if f.depth >= 8 {
		return
	}
	for _, g := range callees {
		if c := o.c; c.orderSkip(g) || strings.HasSuffix(fnPkgPath(g), "/logger") {
			continue
		}
		chain := f.chain + " " + fmt.Sprintf("%p", g)
		if strings.Contains(f.chain, fmt.Sprintf("%p", g)) {
			continue
		}
		h := &frame{u: f.u, fn: g, derived: map[ssa.Value]bool{}, key: map[ssa.Value]bool{}, mine: map[ssa.Value]bool{}, fresh: map[ssa.Value]bool{}, ids: map[ssa.Value]string{}, depth: f.depth + 1, consts: f.consts, chain: chain}
		args := com.Args
		if com.IsInvoke() {
			args = append([]ssa.Value{com.Value}, args...)
		}
		sig := ""
		for k, p := range g.Params {
			if k >= len(args) {
				break
			}
			a := args[k]
			if f.derived[a] {
				h.derived[p] = true
				sig += "d"
			}
			h.ids[p] = o.mapID(f, a)
			if f.key[a] {
				h.key[p] = true
				sig += "k"
			}
			if f.mine[a] {
				h.mine[p] = true
				sig += "m"
			}
			if f.fresh[a] || o.own(f, a) && pointerLike(a.Type()) {
				h.fresh[p] = true
				sig += "f"
			}
			sig += "."
		}
		var bind []ssa.Value
		if mc, ok := com.Value.(*ssa.MakeClosure); ok {
			bind = mc.Bindings
		}
		for k, fv := range g.FreeVars {
			if k < len(bind) && (f.fresh[bind[k]]) || o.ownCell(f, fv) {
				h.fresh[fv] = true
				sig += "f"
			}
			sig += ";"
		}
		id := fmt.Sprintf("%p %d %p %s", f.u.fn, f.u.head.Index, g, sig)
		if o.done[id] {
			continue
		}
		o.done[id] = true
		o.spread(h)
		o.effects(h)
	}
}

// ownCell: the captured variable is one of a function called by the iteration.
func (o *order) ownCell(f *frame, fv *ssa.FreeVar) bool {
	n := 0
	for _, c := range o.c.p.sameCell(fv) {
		al, ok := c.(*ssa.Alloc)
		if !ok {
			continue
		}
		n++
		if al.Parent() == f.u.fn {
			if !f.u.body[al.Block()] {
				return false
			}
		} else if !strings.Contains(f.chain+" ", fmt.Sprintf(" %p ", al.Parent())) {
			return false
		}
	}
	return n > 0
}

// perTurn: a variable that every iteration sets before it looks at it.
func (o *order) perTurn(f *frame, addr ssa.Value, st *ssa.Store) bool {
	al, ok := addr.(*ssa.Alloc)
	if !ok || f.blocks == nil {
		return false
	}
	for _, ref := range *al.Referrers() {
		if ref == ssa.Instruction(st) {
			continue
		}
		if _, ok := ref.(*ssa.DebugRef); ok {
			continue
		}
		if !f.in(ref.Block()) || !instrBefore(st, ref) {
			return false
		}
	}
	return true
}

func pointerLike(t types.Type) bool {
	switch types.Unalias(t).Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Slice, *types.Chan:
		return true
	}
	return false
}

func (o *order) filledInLoop(f *frame, m ssa.Value) bool {
	if _, ok := types.Unalias(m.Type()).Underlying().(*types.Map); !ok {
		return false
	}
	for _, b := range f.fn.Blocks {
		if !f.in(b) {
			continue
		}
		for _, ins := range b.Instrs {
			if mu, ok := ins.(*ssa.MapUpdate); ok && sameLoad(mu.Map, m) && !o.own(f, m) {
				return true
			}
		}
	}
	return false
}

// sorts: the instruction that sorts the list, reached from this use of it, by
// a comparison that separates all elements.
func (o *order) sorts(ins ssa.Instruction, list ssa.Value, keyField string) ssa.Instruction {
	through := func(v ssa.Value) ssa.Instruction {
		for _, ref := range *v.Referrers() {
			if s := o.sorts(ref, v, keyField); s != nil {
				return s
			}
		}
		return nil
	}
	switch i := ins.(type) {
	case *ssa.MakeInterface:
		return through(i)
	case *ssa.ChangeType:
		return through(i)
	case *ssa.Convert:
		return through(i)
	}
	call, ok := ins.(*ssa.Call)
	if !ok || call.Call.StaticCallee() == nil || len(call.Call.Args) == 0 {
		return nil
	}
	arg := -1
	for k, a := range call.Call.Args {
		if a == list {
			arg = k
		}
	}
	if arg < 0 {
		return nil
	}
	g := call.Call.StaticCallee()
	n := g.String()
	switch {
	case arg > 0 && !o.c.p.FnInScope(g):
		return nil
	case n == "sort.Strings", n == "sort.Ints", strings.HasPrefix(n, "slices.Sort["), n == "(sort.StringSlice).Sort", n == "(sort.IntSlice).Sort":
		return call
	case n == "sort.Reverse":
		return through(call)
	case n == "sort.Sort", n == "sort.Stable":
		v := list
		for i := 0; i < 3; i++ {
			if c, ok := v.(*ssa.Call); ok {
				v = c.Call.Args[0]
			}
		}
		mi, ok := v.(*ssa.MakeInterface)
		if !ok {
			return nil
		}
		t := mi.X.Type()
		if isNamed(t, "sort.StringSlice") || isNamed(t, "sort.IntSlice") {
			return call
		}
		if m := o.c.p.SSA.MethodSets.MethodSet(t).Lookup(nil, "Less"); m != nil {
			if less := o.c.p.SSA.MethodValue(m); less != nil && o.total(less, keyField, 0) {
				return call
			}
		}
	case n == "sort.Slice", n == "sort.SliceStable", strings.HasPrefix(n, "slices.SortFunc["), strings.HasPrefix(n, "slices.SortStableFunc["):
		v := call.Call.Args[1]
		if ct, ok := v.(*ssa.ChangeType); ok {
			v = ct.X
		}
		if mc, ok := v.(*ssa.MakeClosure); ok {
			v = mc.Fn
		}
		if fn, ok := v.(*ssa.Function); ok && o.total(fn, keyField, 0) {
			return call
		}
	case g.Blocks != nil && o.c.p.FnInScope(g) && arg < len(g.Params):
		// a helper that sorts its parameter on every path
		id := fmt.Sprintf("sorts %p %d %s", g, arg, keyField)
		switch o.fresh[id] {
		case 1:
			return call
		case 2:
			return nil
		}
		o.fresh[id] = 2
		for w := range o.related(g.Params[arg]) {
			if w.Parent() != g || w.Referrers() == nil {
				continue
			}
			for _, ref := range *w.Referrers() {
				if s := o.sortPoint(o.sorts(ref, w, keyField), g.Params[arg]); s != nil && onEveryPath(g, s.Block()) {
					o.fresh[id] = 1
					return call
				}
			}
		}
	}
	return nil
}

// onEveryPath: the block is run before every return.
func onEveryPath(g *ssa.Function, b *ssa.BasicBlock) bool {
	for _, r := range g.Blocks {
		if _, ok := r.Instrs[len(r.Instrs)-1].(*ssa.Return); ok && r != g.Recover && !b.Dominates(r) {
			return false
		}
	}
	return true
}

// sortPoint: from where on the list is sorted; a test that only leaves out
// lists of less than two elements does not matter.
func (o *order) sortPoint(s ssa.Instruction, list ssa.Value) ssa.Instruction {
	for s != nil {
		b := s.Block()
		if len(b.Preds) != 1 {
			return s
		}
		p := b.Preds[0]
		i, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
		if !ok {
			s = p.Instrs[len(p.Instrs)-1]
			continue
		}
		c, ok := i.Cond.(*ssa.BinOp)
		if !ok {
			return s
		}
		k, ok := c.Y.(*ssa.Const)
		l, ok2 := c.X.(*ssa.Call)
		if !ok || !ok2 || calleeName(l.Common()) != "builtin.len" || k.Value == nil {
			return s
		}
		if l.Call.Args[0] != list && !o.related(list)[l.Call.Args[0]] {
			return s
		}
		n, t := k.Int64(), p.Succs[0] == b
		small := false // the other way means less than two elements
		switch c.Op {
		case token.GTR:
			small = t && n <= 1
		case token.GEQ:
			small = t && n <= 2
		case token.NEQ:
			small = t && (n == 0 || n == 1 && false)
		case token.EQL:
			small = !t && n <= 1
		case token.LSS:
			small = !t && n <= 2
		case token.LEQ:
			small = !t && n <= 1
		}
		if !small {
			return s
		}
		s = i
	}
	return nil
}

// total: the comparison looks at what tells the elements apart.
func (o *order) total(less *ssa.Function, keyField string, d int) bool {
	if keyField == "?" || d > 4 {
		return false
	}
	var of func(v ssa.Value) string // "" the element, a field of it, "!" something else
	of = func(v ssa.Value) string {
		switch i := v.(type) {
		case *ssa.UnOp:
			if i.Op == token.MUL {
				return of(i.X)
			}
		case *ssa.FieldAddr:
			if of(i.X) == "" {
				return fieldName(i)
			}
		case *ssa.Field:
			if of(i.X) == "" {
				return structOf(i.X.Type()).Field(i.Field).Name()
			}
		case *ssa.IndexAddr, *ssa.Index:
			return ""
		case *ssa.Parameter:
			if d > 0 || !isInt(i.Type()) {
				return ""
			}
		case *ssa.Alloc:
			if w := onlyStore(i); w != nil {
				return of(w)
			}
		}
		return "!"
	}
	for _, b := range less.Blocks {
		for _, ins := range b.Instrs {
			switch i := ins.(type) {
			case *ssa.BinOp:
				if (i.Op == token.LSS || i.Op == token.GTR) && of(i.X) == keyField && of(i.Y) == keyField {
					return true
				}
			case *ssa.Call:
				g := i.Call.StaticCallee()
				if g == nil || len(i.Call.Args) < 2 {
					continue
				}
				n := len(i.Call.Args)
				x, y := of(i.Call.Args[n-2]), of(i.Call.Args[n-1])
				if (g.String() == "strings.Compare" || strings.HasPrefix(g.String(), "cmp.Compare") || strings.HasPrefix(g.String(), "cmp.Less")) && x == keyField && y == keyField {
					return true
				}
				if g.Blocks != nil && o.c.p.FnInScope(g) {
					if x == "" && y == "" && o.total(g, keyField, d+1) || x == keyField && y == keyField && keyField != "" && o.total(g, "", d+1) {
						return true
					}
				}
			}
		}
	}
	return false
}

// comparator: a function literal whose only use is to be the comparison of a sort.
func (o *order) comparator(fn *ssa.Function) bool {
	if fn.Parent() == nil {
		return false
	}
	n := 0
	for _, b := range fn.Parent().Blocks {
		for _, ins := range b.Instrs {
			for _, op := range ins.Operands(nil) {
				v := *op
				if v != ssa.Value(fn) {
					if mc, ok := v.(*ssa.MakeClosure); !ok || mc.Fn != ssa.Value(fn) {
						continue
					}
				}
				if mc, ok := ins.(*ssa.MakeClosure); ok && mc.Fn == v {
					continue
				}
				call, ok := ins.(*ssa.Call)
				if !ok || call.Call.StaticCallee() == nil {
					return false
				}
				switch p := fnPkgPath(call.Call.StaticCallee()); p {
				case "sort", "slices":
					n++
				default:
					return false
				}
			}
		}
	}
	return n > 0
}

// cellOf: the variable a value is loaded from.
func cellOf(v ssa.Value) ssa.Value {
	l, ok := v.(*ssa.UnOp)
	if !ok || l.Op != token.MUL {
		return nil
	}
	switch a := l.X.(type) {
	case *ssa.Alloc, *ssa.FreeVar:
		return a
	}
	return nil
}

// related: the values that are the same list, seen from v: through joins and
// conversions, and other loads of its variable.
func (o *order) related(v ssa.Value) map[ssa.Value]bool {
	seen := map[ssa.Value]bool{}
	q := []ssa.Value{v}
	for len(q) > 0 && len(seen) < 200 {
		x := q[0]
		q = q[1:]
		if seen[x] {
			continue
		}
		seen[x] = true
		if a := cellOf(x); a != nil {
			for _, cell := range o.c.p.sameCell(a) {
				for _, ref := range *cell.Referrers() {
					if l, ok := ref.(*ssa.UnOp); ok && l.Op == token.MUL {
						q = append(q, l)
					}
					if st, ok := ref.(*ssa.Store); ok && st.Addr == cell {
						if _, ok := st.Val.(*ssa.Const); !ok {
							q = append(q, st.Val)
						}
					}
				}
			}
		}
		switch i := x.(type) {
		case *ssa.Phi:
			for _, e := range i.Edges {
				if _, ok := e.(*ssa.Const); !ok {
					q = append(q, e)
				}
			}
		case *ssa.ChangeType:
			q = append(q, i.X)
		}
		if x.Referrers() == nil {
			continue
		}
		for _, ref := range *x.Referrers() {
			switch i := ref.(type) {
			case *ssa.Phi:
				q = append(q, i)
			case *ssa.ChangeType:
				q = append(q, i)
			case *ssa.Store:
				if i.Val == x {
					if a, ok := i.Addr.(*ssa.Alloc); ok {
						for _, r := range *a.Referrers() {
							if l, ok := r.(*ssa.UnOp); ok && l.Op == token.MUL {
								q = append(q, l)
							}
						}
					}
				}
			}
		}
	}
	return seen
}

// follow an unordered list to where its order shows.
func (o *order) follow(l olist) {
	v, kf := l.v, l.key
	refs := v.Referrers()
	if refs == nil {
		return
	}
	fn := v.Parent()
	// where it is sorted
	var sorted []ssa.Instruction
	for w := range o.related(v) {
		if w.Referrers() == nil || w.Parent() != fn {
			continue
		}
		for _, ref := range *w.Referrers() {
			s := o.sorts(ref, w, kf)
			if s == nil {
				continue
			}
			ok := true
			if i, isI := v.(ssa.Instruction); isI && !instrBefore(i, s) && cellOf(v) == nil {
				ok = false // sorted before it was filled
			}
			if a := cellOf(v); a != nil {
				for _, at := range o.fills[a] {
					if instrBefore(s, at) {
						ok = false
					}
				}
			}
			if ok {
				sorted = append(sorted, s, o.sortPoint(s, v))
			}
		}
	}
	if a := cellOf(v); a != nil && o.sortedAtEnd(fn, a, kf) {
		// a named result sorted by a deferred function
		out := true
		for _, ref := range *refs {
			if _, ok := ref.(*ssa.Return); !ok {
				out = false
			}
		}
		if out {
			o.c.Count("sorted lists", 1)
			return
		}
	}
	if len(sorted) > 0 {
		o.c.Count("sorted lists", 1)
	}
refs:
	for _, ref := range *refs {
		for _, s := range sorted {
			if s == ref || instrBefore(s, ref) {
				continue refs
			}
		}
		if i, ok := v.(*ssa.Phi); ok {
			if h, body := o.loopOf(fn, i.Block()); h == i.Block() && body[ref.Block()] {
				if _, isIA := ref.(*ssa.IndexAddr); !isIA {
					if call, ok := ref.(*ssa.Call); !ok || calleeName(call.Common()) == "builtin.append" {
						continue // being filled
					}
				}
			}
		}
		// the store or join that makes it the sorted list
		if st, ok := ref.(*ssa.Store); ok && len(sorted) > 0 && st.Val == v {
			if _, ok := st.Addr.(*ssa.Alloc); ok {
				continue
			}
		}
		if ph, ok := ref.(*ssa.Phi); ok {
			o.taint(ph, kf, l.ctx)
			continue
		}
		if s := o.sorts(ref, v, kf); s != nil {
			continue
		}
		if ct, ok := ref.(*ssa.ChangeType); ok {
			o.taint(ct, kf, l.ctx)
			continue
		}
		// what looks at it only to see whether it needs sorting
		o.use(l, ref)
	}
}

func (o *order) harmless(r ssa.Instruction, v ssa.Value) bool {
	switch i := r.(type) {
	case *ssa.DebugRef:
		return true
	case *ssa.Call:
		if b, ok := i.Call.Value.(*ssa.Builtin); ok && (b.Name() == "len" || b.Name() == "cap") {
			return true
		}
	case *ssa.MakeInterface, *ssa.ChangeType:
		return o.sorts(r, v, "") != nil
	case *ssa.MakeClosure:
		return true // the comparison
	}
	return false
}

func instrBefore(a, b ssa.Instruction) bool {
	if a.Parent() != b.Parent() {
		return false
	}
	if mi, ok := a.(*ssa.MakeInterface); ok && len(*mi.Referrers()) > 0 {
		a = (*mi.Referrers())[0]
	}
	if a.Block() != b.Block() {
		return a.Block().Dominates(b.Block())
	}
	for _, ins := range a.Block().Instrs {
		if ins == a {
			return true
		}
		if ins == b {
			return false
		}
	}
	return false
}

func (o *order) use(l olist, ref ssa.Instruction) {
	c, v, kf, ctx := o.c, l.v, l.key, l.ctx
	fn := ref.Parent()
	if c.orderSkip(fn) {
		return
	}
	bad := func(kind, format string, a ...interface{}) {
		c.Violate(kind+" in "+fnName(fn), instrPos(ref), "%s: %s", fnName(fn), fmt.Sprintf(format, a...))
	}
	if o.harmless(ref, v) {
		return
	}
	c.Count("uses of unordered lists", 1)
	switch i := ref.(type) {
	case *ssa.Phi:
		o.taint(i, kf, ctx)
	case *ssa.ChangeType:
		o.taint(i, kf, ctx)
	case *ssa.Slice:
		if i.Low == nil && i.High == nil {
			o.taint(i, kf, ctx)
			return
		}
		bad("part", "a part of a list in no fixed order is taken")
	case *ssa.MakeInterface:
		bad("passed on", "a list in no fixed order is passed on as it is, or sorted by a comparison that leaves elements in any order")
	case *ssa.IndexAddr:
		if i.X != v {
			return
		}
		if !o.listLoop(i, v, i.Index, kf, ctx) {
			bad("pick", "an element is picked from a list in no fixed order")
		}
	case *ssa.Index:
		if !o.listLoop(i, v, i.Index, kf, ctx) {
			bad("pick", "an element is picked from a list in no fixed order")
		}
	case *ssa.Store:
		if i.Val != v {
			return
		}
		switch a := i.Addr.(type) {
		case *ssa.Alloc, *ssa.FreeVar:
			for _, cell := range c.p.sameCell(a) {
				o.fills[cell] = append(o.fills[cell], ref)
				for _, r := range *cell.Referrers() {
					if l, ok := r.(*ssa.UnOp); ok && l.Op == token.MUL && !o.comparator(l.Parent()) {
						o.taint(l, kf, ctx)
					}
				}
			}
		case *ssa.FieldAddr:
			if c.recordField(a) {
				bad("field "+fieldName(a), "a list in no fixed order is put in the record field %s", fieldName(a))
				return
			}
			f := &frame{u: &uloop{fn: fn, what: "a list"}, fn: fn}
			o.taintPlace(f, a, kf, ref)
		default:
			bad("kept", "a list in no fixed order is kept")
		}
	case *ssa.MapUpdate:
		bad("kept", "a list in no fixed order is put in a map")
	case *ssa.Send:
		bad("sent", "a list in no fixed order is sent")
	case *ssa.Return:
		k := -1
		for n, r := range i.Results {
			if r == v {
				k = n
			}
		}
		o.returned(fn, k, v, kf, ctx, bad)
	case ssa.CallInstruction:
		com := i.Common()
		if b, ok := com.Value.(*ssa.Builtin); ok {
			switch b.Name() {
			case "append":
				if call, ok := ref.(*ssa.Call); ok {
					o.taint(call, kf, ctx)
				}
			case "copy":
				bad("copied", "a list in no fixed order is copied")
			}
			return
		}
		callees := c.p.Callees(i)
		if len(callees) == 0 {
			n := calleeName(com)
			if strings.HasPrefix(n, "fmt.") {
				return
			}
			bad("passed on", "a list in no fixed order is passed to %s", n)
			return
		}
		for _, g := range callees {
			for k, a := range com.Args {
				if a == v && k < len(g.Params) {
					up := ctx
					if up != nil && up.n >= 4 || o.inCtx(up, i) {
						continue
					}
					n := 1
					if up != nil {
						n = up.n + 1
					}
					o.taint(g.Params[k], kf, &octx{i, up, n})
				}
			}
		}
	case *ssa.MakeClosure:
	case *ssa.BinOp:
	case *ssa.Range, *ssa.Lookup:
	default:
		bad("use", "a list in no fixed order is used in a way that is not followed (%T)", ref)
	}
}

func (o *order) returned(fn *ssa.Function, k int, v ssa.Value, kf string, ctx *octx, bad func(kind, format string, a ...interface{})) {
	if k < 0 {
		return
	}
	el := elemOfSlice(types.Unalias(v.Type()).Underlying())
	if exportedFn(fn) && fnPkgPath(fn) == mp(rootPkg) && (el == nil || !o.deliverable(el)) {
		bad("result", "a list in no fixed order is returned to the user")
	}
	callers := o.c.p.staticCallers()[fn]
	if ctx != nil {
		callers = []ssa.CallInstruction{ctx.call}
		ctx = ctx.up
	}
	for _, ci := range callers {
		call, ok := ci.(*ssa.Call)
		if !ok {
			continue
		}
		if fn.Signature.Results().Len() == 1 {
			o.taint(call, kf, ctx)
			continue
		}
		for _, r := range *call.Referrers() {
			if ex, ok := r.(*ssa.Extract); ok && ex.Index == k {
				o.taint(ex, kf, ctx)
			}
		}
	}
}

func (o *order) inCtx(x *octx, ci ssa.CallInstruction) bool {
	for ; x != nil; x = x.up {
		if x.call == ci {
			return true
		}
	}
	return false
}

// newResult: a call whose (pointer) result is made by the callee.
func (o *order) newResult(f *frame, call *ssa.Call, k int) bool {
	callees := o.c.p.Callees(call)
	if len(callees) == 0 {
		g := call.Call.StaticCallee()
		return g != nil && g.Signature.Recv() == nil && !o.c.p.FnInScope(g) && k == 0
	}
	for _, g := range callees {
		if !o.makes(g, k) {
			return false
		}
	}
	return true
}

func (o *order) makes(g *ssa.Function, k int) bool {
	id := fmt.Sprintf("%p %d", g, k)
	switch o.fresh[id] {
	case 1:
		return true
	case 2:
		return false
	}
	o.fresh[id] = 1
	ok := g.Blocks != nil
	for _, b := range g.Blocks {
		r, isR := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !isR || k >= len(r.Results) {
			continue
		}
		if !o.made(g, r.Results[k], map[ssa.Value]bool{}) {
			ok = false
		}
	}
	if !ok {
		o.fresh[id] = 2
	}
	return ok
}

func (o *order) made(g *ssa.Function, v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch i := v.(type) {
	case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeChan, *ssa.Const:
		return true
	case *ssa.MakeInterface:
		return !pointerLike(i.X.Type()) || o.made(g, i.X, seen)
	case *ssa.Slice:
		return o.made(g, i.X, seen)
	case *ssa.Phi:
		for _, e := range i.Edges {
			if !o.made(g, e, seen) {
				return false
			}
		}
		return true
	case *ssa.UnOp:
		if al, ok := i.X.(*ssa.Alloc); ok && i.Op == token.MUL {
			for _, ref := range *al.Referrers() {
				if st, ok := ref.(*ssa.Store); ok && st.Addr == ssa.Value(al) && !o.made(g, st.Val, seen) {
					return false
				}
			}
			return true
		}
	case *ssa.Extract:
		if call, ok := i.Tuple.(*ssa.Call); ok {
			return o.newResult(nil, call, i.Index)
		}
	case *ssa.Call:
		if b, ok := i.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			return o.made(g, i.Call.Args[0], seen)
		}
		return o.newResult(nil, i, 0)
	}
	return !pointerLike(v.Type()) && !types.IsInterface(v.Type())
}

// recordField: a field of a type that is part of a result.
func (c *Ctx) recordField(fa *ssa.FieldAddr) bool {
	k := typeKey(fa.X.Type())
	for _, r := range []string{mp(rootPkg) + ".", mp(commitMetaPkg) + ".", mp(blamePkg) + "."} {
		if n, ok := strings.CutPrefix(k, r); ok {
			switch n {
			case "BlameResult", "BlameLine", "CommitCode", "Branch", "Commit", "CommitFile", "License", "Blame", "Line":
				return true
			}
		}
	}
	return k == mp(branchesPkg)+".Branch" || k == mp(infoPkg)+".License" || k == mp(infoPkg)+".Info"
}

// clock: the time, random numbers and the like stay out of the records.
func (o *order) clock() {
	c := o.c
	src := map[string]bool{"time.Now": true, "time.Since": true, "os.Getpid": true, "os.Hostname": true, "(*runtime.MemStats)": true, "runtime.NumGoroutine": true, "time.Until": true}
	fl := c.p.NewFlow()
	fl.Containers, fl.Content = true, true
	fl.Pass = func(call ssa.CallInstruction, arg int) bool { return true }
	fl.Stop = func(v ssa.Value) bool {
		// statistics may hold times; an error text too
		return isErrType(v.Type()) || strings.Contains(typeKey(v.Type()), "Timing")
	}
	n := 0
	for _, fn := range c.p.Fns {
		if c.orderSkip(fn) || !o.reach[fn] {
			continue
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				call, ok := ins.(*ssa.Call)
				if !ok {
					continue
				}
				g := call.Call.StaticCallee()
				if g == nil {
					continue
				}
				s := g.String()
				switch {
				case o.withError(call):
					// goes along with an error
				case src[s], strings.HasPrefix(s, "math/rand.") || strings.HasPrefix(s, "(*math/rand."), strings.HasPrefix(s, "math/rand/v2."):
					n++
					fl.Add(call, nil)
				case s == "crypto/rand.Read":
					n++
					fl.Add(call.Call.Args[0], nil)
				case strings.HasSuffix(s, "ioutil.TempDir"), strings.HasSuffix(s, "ioutil.TempFile"), s == "os.CreateTemp", s == "os.MkdirTemp":
					// names of temporary files reach commands, not records
				}
				if strings.HasPrefix(s, "fmt.Sprint") && len(call.Call.Args) > 0 {
					if t, ok := constText(call.Call.Args[0]); ok && strings.Contains(t, "%p") {
						n++
						fl.Add(call, nil)
					}
				}
			}
		}
	}
	c.Count("sources of chance", n)
	for grown := true; grown; {
		grown = false
		fl.Run()
		for v := range fl.Vals {
			if v.Referrers() == nil || v.Parent() == nil || c.orderSkip(v.Parent()) {
				continue
			}
			for _, ref := range *v.Referrers() {
				switch i := ref.(type) {
				case *ssa.BinOp:
					if !fl.Vals[i] {
						fl.Add(i, v)
						grown = true
					}
				case *ssa.UnOp:
					if !fl.Vals[i] {
						fl.Add(i, v)
						grown = true
					}
				}
				ci, ok := ref.(ssa.CallInstruction)
				if !ok || len(c.p.Callees(ci)) > 0 {
					continue
				}
				com := ci.Common()
				if b, ok := com.Value.(*ssa.Builtin); ok {
					if cv, isV := ref.(ssa.Value); isV && b.Name() == "append" && !fl.Vals[cv] {
						fl.Add(cv, v)
						grown = true
					}
					continue
				}
				recv := com.Value
				if !com.IsInvoke() {
					if com.Signature() == nil || com.Signature().Recv() == nil || len(com.Args) == 0 {
						continue
					}
					recv = com.Args[0]
				}
				if n := calleeName(com); strings.Contains(n, "Logger") || strings.Contains(n, "log.") || !strings.Contains(n, ".Write") {
					continue
				}
				if old := fl.Vals[recv]; !old && recv != v {
					fl.Add(recv, nil)
					grown = true
				}
			}
		}
	}
	var vals []ssa.Value
	for v := range fl.Vals {
		vals = append(vals, v)
	}
	sort.Slice(vals, func(i, j int) bool { return vals[i].Pos() < vals[j].Pos() })
	for _, v := range vals {
		fn := v.Parent()
		if fn == nil || c.orderSkip(fn) || v.Referrers() == nil {
			continue
		}
		for _, ref := range *v.Referrers() {
			switch i := ref.(type) {
			case *ssa.Store:
				fa, ok := i.Addr.(*ssa.FieldAddr)
				if ok && i.Val == v && c.recordField(fa) && !o.failing(i) {
					c.Violate("chance in field "+fieldName(fa), instrPos(i), "%s: the record field %s gets a value of the clock or of a random source", fnName(fn), fieldName(fa))
				}
			case *ssa.MapUpdate:
				if i.Key == v && !o.failing(i) {
					c.Violate("chance in key in "+fnName(fn), instrPos(i), "%s: an entry is kept under a value of the clock or of a random source", fnName(fn))
				}
			case *ssa.If:
				if !o.statistics(fn) && !o.onlyTalks(i) {
					c.Violate("chance decides in "+fnName(fn), instrPos(i), "%s: the clock or a random source decides what is done", fnName(fn))
				}
			case *ssa.Send:
				if i.X == v && !noData(v.Type()) {
					c.Violate("chance sent in "+fnName(fn), instrPos(i), "%s: a value of the clock or of a random source is sent", fnName(fn))
				}
			}
		}
	}
}

// failing: the value only goes along with an error.
func (o *order) failing(ins ssa.Instruction) bool { return false }

// withError: the value is only returned together with an error.
func (o *order) withError(v ssa.Value) bool {
	n := 0
	for _, ref := range *v.Referrers() {
		switch i := ref.(type) {
		case *ssa.DebugRef:
		case *ssa.Return:
			last := i.Results[len(i.Results)-1]
			if !isErrType(last.Type()) || last == v || isNilConst(last) {
				return false
			}
			n++
		case *ssa.Store:
			al, ok := i.Addr.(*ssa.Alloc)
			r, isR := i.Block().Instrs[len(i.Block().Instrs)-1].(*ssa.Return)
			if !ok || al.Comment == "" || !isR || i.Val != v {
				return false
			}
			last := r.Results[len(r.Results)-1]
			if !isErrType(last.Type()) || isNilConst(last) {
				return false
			}
			n++
		default:
			return false
		}
	}
	return n > 0
}

// onlyTalks: the decision is only about writing to the log.
func (o *order) onlyTalks(i *ssa.If) bool {
	reach := func(b *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
		seen := map[*ssa.BasicBlock]bool{b: true}
		q := []*ssa.BasicBlock{b}
		for len(q) > 0 {
			x := q[0]
			q = q[1:]
			for _, t := range x.Succs {
				if !seen[t] {
					seen[t] = true
					q = append(q, t)
				}
			}
		}
		return seen
	}
	b := i.Block()
	x, y := reach(b.Succs[0]), reach(b.Succs[1])
	for _, t := range b.Parent().Blocks {
		if x[t] == y[t] {
			if x[t] {
				for _, ins := range t.Instrs {
					ph, ok := ins.(*ssa.Phi)
					if !ok {
						break
					}
					for k := range ph.Edges {
						if p := t.Preds[k]; x[p] != y[p] && o.c.matters(ph) {
							return false
						}
					}
				}
			}
			continue
		}
		for _, ins := range t.Instrs {
			switch c := ins.(type) {
			case *ssa.Return, *ssa.Panic, *ssa.Send, *ssa.MapUpdate, *ssa.Go, *ssa.Defer:
				if _, ok := ins.(*ssa.Return); ok && len(t.Parent().Signature.String()) > 0 && t.Parent().Signature.Results().Len() == 0 {
					continue
				}
				return false
			case *ssa.Store:
				a := c.Addr
				for {
					if ia, ok := a.(*ssa.IndexAddr); ok {
						a = ia.X
						continue
					}
					if fa, ok := a.(*ssa.FieldAddr); ok {
						a = fa.X
						continue
					}
					break
				}
				if al, ok := a.(*ssa.Alloc); !ok || x[al.Block()] == y[al.Block()] {
					if !timing(c.Addr) {
						return false
					}
				}
			case *ssa.Call:
				n := calleeName(c.Common())
				talk := false
				for _, q := range []string{"fmt.", "(time.", "time.", "log.", "builtin.", "strings.", "strconv."} {
					if strings.HasPrefix(n, q) {
						talk = true
					}
				}
				if !talk && !strings.Contains(strings.ToLower(n), "logger") {
					return false
				}
			}
		}
	}
	return true
}

func (c *Ctx) matters(ph *ssa.Phi) bool {
	for _, r := range *ph.Referrers() {
		if _, ok := r.(*ssa.DebugRef); !ok {
			return true
		}
	}
	return false
}

// statistics: a method of the timing statistics or of the logger.
func (o *order) statistics(fn *ssa.Function) bool {
	if strings.HasSuffix(fnPkgPath(fn), "/logger") {
		return true
	}
	f := outermost(fn)
	return f.Signature.Recv() != nil && strings.Contains(typeKey(f.Signature.Recv().Type()), "Timing")
}
