package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C17", "For every go statement of the library, everything the goroutine does is set against everything that can happen at the same time: the rest of the function that starts it, up to where it waits for the goroutine's last signal (its send or close on a channel, or Done, with the Add before the go statement), of its callers when it does not wait, the goroutines these start, and the other goroutines the same statement starts. Two accesses of the same variable, field, map or list elements, one of them a write, must have a lock in common, unless what they touch was made by one side alone, or was received from a channel. What was sent on a channel is not written afterwards. Every function that takes a lock is followed on every path: a lock is not taken twice, not released without being held, and released by every return. The log is written with the lock held, one whole record at a time; the license library is called with its lock held.", runC17)
}

// tctx is an activation of a function.
type tctx struct {
	fn    *ssa.Function
	args  []ssa.Value
	up    *tctx
	local bool // what it makes belongs to the side looked at
	depth int
}

// root is what a pointer, map, list or variable is.
type root struct {
	shared bool
	id     string
	obj    ssa.Value // the allocation, when it is known
}

type lockset map[string]bool // lock -> held for writing

func (l lockset) id() string {
	var k []string
	for n, w := range l {
		k = append(k, fmt.Sprint(n, w))
	}
	sort.Strings(k)
	return strings.Join(k, ",")
}

type raccess struct {
	key   string
	obj   ssa.Value
	write bool
	locks lockset
	ins   ssa.Instruction
	fn    *ssa.Function
	top   ssa.Instruction // in the function looked at
	each  bool            // an element of a list that no other turn of the loop touches
	start ssa.Instruction // the go statement it was reached through
}

type races struct {
	c       *Ctx
	over    bool
	lockObj map[string]ssa.Value
}

func runC17(c *Ctx) {
	g := &races{c: c, lockObj: map[string]ssa.Value{}}
	n := 0
	for _, fn := range c.p.Fns {
		if !libraryFn(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if gi, ok := ins.(*ssa.Go); ok {
					n++
					c.Saw(fn)
					g.goSite(fn, gi)
				}
				if s, ok := ins.(*ssa.Send); ok {
					g.sent(fn, s)
				}
			}
		}
	}
	c.Count("go statements", n)
	c.Min("go statements", 5)
	if g.over {
		c.Violate("size", 0, "the accesses of a goroutine could not be followed to the end")
	}
	g.discipline()
}

func (g *races) origin(x *tctx, al ssa.Value) *tctx {
	fn := al.Parent()
	for y := x; y != nil; y = y.up {
		if y.fn == fn {
			return y
		}
	}
	return nil
}

func objID(v ssa.Value) string { return fmt.Sprintf("obj %p", v) }

func mergeRoots(a, b root) root {
	if a.shared && b.shared && a.id != b.id {
		if a.id > b.id {
			a, b = b, a
		}
		return a
	}
	if a.shared {
		return a
	}
	if b.shared {
		return b
	}
	return a
}

// resolve: what v points to.
func (g *races) resolve(v ssa.Value, x *tctx, at ssa.Instruction, d int) root {
	fresh := root{}
	if d > 24 || v == nil {
		return fresh
	}
	own := func(v ssa.Value) root {
		y := g.origin(x, v)
		if y == nil || y.local {
			return root{false, objID(v), v}
		}
		return root{true, objID(v), v}
	}
	switch i := v.(type) {
	case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeChan:
		return own(v)
	case *ssa.Global:
		return root{true, i.String(), nil}
	case *ssa.FreeVar:
		for _, c := range g.c.p.sameCell(i) {
			if al, ok := c.(*ssa.Alloc); ok {
				return own(al)
			}
		}
		// captured by value or handed on
		for _, b := range g.c.p.bindingsOf(i) {
			if y := g.origin(x, b); y != nil {
				return g.resolve(b, y, nil, d+1)
			}
		}
		return fresh
	case *ssa.Parameter:
		for k, p := range x.fn.Params {
			if p == i && k < len(x.args) && x.up != nil {
				return g.resolve(x.args[k], x.up, nil, d+1)
			}
		}
		if x.local && x.up != nil {
			return fresh
		}
		return root{true, objID(v), nil}
	case *ssa.FieldAddr:
		b := g.resolve(i.X, x, i, d+1)
		if !b.shared {
			return fresh
		}
		return root{true, fieldKeyOf(i.X.Type(), i.Field), b.obj}
	case *ssa.Field:
		b := g.resolve(i.X, x, i, d+1)
		if !b.shared {
			return fresh
		}
		return root{true, fieldKeyOf(i.X.Type(), i.Field), nil}
	case *ssa.IndexAddr:
		b := g.resolve(i.X, x, i, d+1)
		if !b.shared {
			return fresh
		}
		return root{true, b.id + "[]", b.obj}
	case *ssa.Lookup:
		b := g.resolve(i.X, x, i, d+1)
		if !b.shared {
			return fresh
		}
		return root{true, b.id + "[]", nil}
	case *ssa.UnOp:
		if i.Op != token.MUL {
			return fresh // received: handed over
		}
		return g.content(i.X, x, i, d+1)
	case *ssa.Phi:
		r := fresh
		for _, e := range i.Edges {
			if e != v {
				r = mergeRoots(r, g.resolve(e, x, at, d+6))
			}
		}
		return r
	case *ssa.Slice:
		return g.resolve(i.X, x, i, d+1)
	case *ssa.ChangeType:
		return g.resolve(i.X, x, i, d+1)
	case *ssa.ChangeInterface:
		return g.resolve(i.X, x, i, d+1)
	case *ssa.MakeInterface:
		return g.resolve(i.X, x, i, d+1)
	case *ssa.TypeAssert:
		return g.resolve(i.X, x, i, d+1)
	case *ssa.Extract:
		switch t := i.Tuple.(type) {
		case *ssa.Call:
			return g.result(t, i.Index, x, d+1)
		case *ssa.Lookup:
			if i.Index == 0 {
				return g.resolve(t, x, i, d+1)
			}
		case *ssa.Next:
			if r, ok := t.Iter.(*ssa.Range); ok && i.Index == 2 {
				b := g.resolve(r.X, x, i, d+1)
				if b.shared {
					return root{true, b.id + "[]", nil}
				}
			}
		case *ssa.TypeAssert:
			if i.Index == 0 {
				return g.resolve(t.X, x, i, d+1)
			}
		}
		return fresh
	case *ssa.Call:
		return g.result(i, 0, x, d+1)
	}
	return fresh
}

// content: what is kept at an address.
func (g *races) content(a ssa.Value, x *tctx, at ssa.Instruction, d int) root {
	switch i := a.(type) {
	case *ssa.Alloc, *ssa.FreeVar:
		var al *ssa.Alloc
		for _, c := range g.c.p.sameCell(i) {
			if v, ok := c.(*ssa.Alloc); ok {
				al = v
			}
		}
		if al == nil {
			return g.resolve(a, x, at, d)
		}
		if _, isStruct := types.Unalias(deref(al.Type())).Underlying().(*types.Struct); isStruct {
			return g.resolve(al, x, at, d)
		}
		y := g.origin(x, al)
		if y == nil {
			return root{}
		}
		r := root{}
		for _, st := range g.stores(al, x, at) {
			sx := y
			if st.Parent() != al.Parent() {
				if z := g.origin(x, st.Addr); z != nil {
					sx = z
				} else {
					continue
				}
			}
			r = mergeRoots(r, g.resolve(st.Val, sx, st, d+3))
		}
		return r
	case *ssa.FieldAddr:
		b := g.resolve(i.X, x, i, d)
		if b.shared {
			return root{true, fieldKeyOf(i.X.Type(), i.Field), nil}
		}
		// an own object may hold something shared
		if al, ok := b.obj.(*ssa.Alloc); ok {
			y := g.origin(x, al)
			r := root{}
			for _, ref := range *al.Referrers() {
				fa, ok := ref.(*ssa.FieldAddr)
				if !ok || fa.Field != i.Field || fa.X != ssa.Value(al) {
					continue
				}
				for _, u := range *fa.Referrers() {
					if st, ok := u.(*ssa.Store); ok && st.Addr == ssa.Value(fa) && y != nil {
						r = mergeRoots(r, g.resolve(st.Val, y, st, d+3))
					}
				}
			}
			return r
		}
		return root{}
	}
	b := g.resolve(a, x, at, d)
	if !b.shared {
		return root{}
	}
	if _, ok := a.(*ssa.Global); ok {
		return b
	}
	return root{true, b.id, nil}
}

// stores that can be what a load of the variable sees.
func (g *races) stores(al *ssa.Alloc, x *tctx, at ssa.Instruction) []*ssa.Store {
	var all []*ssa.Store
	for _, c := range g.c.p.sameCell(al) {
		for _, ref := range *c.Referrers() {
			if st, ok := ref.(*ssa.Store); ok && st.Addr == c {
				all = append(all, st)
			}
		}
	}
	// the point in the variable's function from which it is looked at
	var from []ssa.Instruction
	if at != nil && at.Parent() == al.Parent() {
		from = []ssa.Instruction{at}
	} else if at != nil {
		f := at.Parent()
		for f != nil && f.Parent() != al.Parent() {
			f = f.Parent()
		}
		if f != nil {
			for _, b := range al.Parent().Blocks {
				for _, ins := range b.Instrs {
					if mc, ok := ins.(*ssa.MakeClosure); ok && mc.Fn == ssa.Value(f) {
						from = append(from, mc)
					}
				}
			}
		}
	}
	if len(from) == 0 {
		return all
	}
	var out []*ssa.Store
	for _, st := range all {
		if st.Parent() != al.Parent() {
			out = append(out, st)
			continue
		}
		ok := false
		for _, p := range from {
			// reaches the point without another store
			if g.path(st, p, func(i ssa.Instruction) bool {
				s, isS := i.(*ssa.Store)
				return isS && s != st && s.Addr == ssa.Value(al)
			}) {
				ok = true
			}
			if p != at && g.path(p, st, nil) {
				ok = true // set after the function was made
			}
		}
		if ok {
			out = append(out, st)
		}
	}
	return out
}

// path: control can go from just after a to b without passing an instruction that cuts.
func (g *races) path(a, b ssa.Instruction, cut func(ssa.Instruction) bool) bool {
	hit := false
	g.flood(a, func(i ssa.Instruction) bool {
		if i == b {
			hit = true
			return false
		}
		return cut == nil || !cut(i)
	}, nil)
	return hit
}

// flood visits what can run after a; visit says whether to go on from there.
func (g *races) flood(a ssa.Instruction, visit func(ssa.Instruction) bool, edge func(from, to *ssa.BasicBlock) bool) {
	seen := map[*ssa.BasicBlock]bool{}
	var run func(b *ssa.BasicBlock, k int)
	run = func(b *ssa.BasicBlock, k int) {
		for ; k < len(b.Instrs); k++ {
			if !visit(b.Instrs[k]) {
				return
			}
		}
		for _, s := range b.Succs {
			if !seen[s] && (edge == nil || edge(b, s)) {
				seen[s] = true
				run(s, 0)
			}
		}
	}
	b := a.Block()
	for k, i := range b.Instrs {
		if i == a {
			run(b, k+1)
			return
		}
	}
}

func (g *races) result(call *ssa.Call, k int, x *tctx, d int) root {
	if b, ok := call.Call.Value.(*ssa.Builtin); ok {
		if b.Name() == "append" {
			return g.resolve(call.Call.Args[0], x, call, d+1)
		}
		return root{}
	}
	r := root{}
	for _, f := range g.c.p.Callees(call) {
		y := g.enter(x, f, call, true)
		if y == nil {
			continue
		}
		for _, b := range f.Blocks {
			ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			if !ok || k >= len(ret.Results) {
				continue
			}
			r = mergeRoots(r, g.resolve(ret.Results[k], y, ret, d+4))
		}
	}
	return r
}

func (g *races) enter(x *tctx, f *ssa.Function, ci ssa.CallInstruction, local bool) *tctx {
	n := 0
	for y := x; y != nil; y = y.up {
		if y.fn == f {
			n++
		}
	}
	if n > 1 || x != nil && x.depth > 20 {
		return nil
	}
	com := ci.Common()
	args := com.Args
	if com.IsInvoke() {
		args = append([]ssa.Value{com.Value}, args...)
	}
	d := 0
	if x != nil {
		d = x.depth + 1
	}
	return &tctx{fn: f, args: args, up: x, local: local, depth: d}
}

// ---- accesses

type rwalk struct {
	g     *races
	out   []raccess
	seen  map[string]bool
	n     int
	each  bool
	start ssa.Instruction
}

// lockOp: the mutex and what is done to it.
func lockOp(com *ssa.CallCommon) (string, ssa.Value) {
	n := calleeName(com)
	for _, t := range []string{"(*sync.Mutex).", "(*sync.RWMutex).", "(sync.Locker)."} {
		if m, ok := strings.CutPrefix(n, t); ok {
			if com.IsInvoke() {
				return m, com.Value
			}
			return m, com.Args[0]
		}
	}
	return "", nil
}

// walk collects the accesses of an activation; keep limits it to some instructions.
func (w *rwalk) walk(x *tctx, held lockset, top ssa.Instruction, keep map[ssa.Instruction]bool) {
	g := w.g
	if w.n++; w.n > 60000 {
		g.over = true
		return
	}
	fn := x.fn
	// locks held on entry of each block
	in := map[*ssa.BasicBlock]lockset{fn.Blocks[0]: held}
	report := false
	step := func(l lockset, ins ssa.Instruction) lockset {
		ci, ok := ins.(*ssa.Call)
		if !ok {
			return l
		}
		op, m := lockOp(&ci.Call)
		if op == "" {
			// a helper that takes or gives back a lock
			for _, f := range g.c.p.Callees(ci) {
				for _, e := range g.lockEffect(x, f, ci) {
					n := lockset{}
					for k, v := range l {
						n[k] = v
					}
					if e.take {
						n[e.id] = e.write
					} else {
						delete(n, e.id)
					}
					l = n
				}
			}
			return l
		}
		r := g.resolve(m, x, ins, 0)
		id := r.id
		if !r.shared || id == "" {
			return l // a lock of its own excludes nobody
		}
		g.lockObj[id] = r.obj
		if report && op != "RUnlock" && op != "Unlock" && (strings.HasPrefix(id, "obj ") || !strings.Contains(id, ")")) {
			if w, ok := l[id]; ok && (w || op == "Lock") {
				g.c.Violate("taken twice in "+fnName(outermost(fn)), instrPos(ins), "%s: a lock is taken that is already held on this path", fnName(fn))
			}
		}
		n := lockset{}
		for k, v := range l {
			n[k] = v
		}
		switch op {
		case "Lock":
			n[id] = true
		case "RLock":
			n[id] = false
		case "Unlock", "RUnlock":
			delete(n, id)
		}
		return n
	}
	for changed := true; changed; {
		changed = false
		for _, b := range fn.Blocks {
			l, ok := in[b]
			if !ok {
				continue
			}
			for _, ins := range b.Instrs {
				l = step(l, ins)
			}
			for _, s := range b.Succs {
				old, ok := in[s]
				if !ok {
					in[s] = l
					changed = true
					continue
				}
				m := lockset{}
				for k, v := range old {
					if v2, ok := l[k]; ok {
						m[k] = v && v2
					}
				}
				if m.id() != old.id() {
					in[s] = m
					changed = true
				}
			}
		}
	}
	report = true
	for _, b := range fn.Blocks {
		l, ok := in[b]
		if !ok {
			continue
		}
		for _, ins := range b.Instrs {
			before := l
			l = step(l, ins)
			if keep != nil && !keep[ins] {
				continue
			}
			t := top
			if t == nil {
				t = ins
			}
			w.one(x, ins, before, t)
		}
	}
}

func (w *rwalk) add(key string, obj ssa.Value, write bool, l lockset, ins, top ssa.Instruction) {
	if key == "" {
		return
	}
	w.out = append(w.out, raccess{key, obj, write, l, ins, ins.Parent(), top, w.each, w.start})
}

// at: an access to what is at an address.
func (w *rwalk) at(x *tctx, a ssa.Value, write bool, l lockset, ins, top ssa.Instruction) {
	r := w.g.resolve(a, x, ins, 0)
	if !r.shared {
		return
	}
	w.each = w.g.ownElement(a, x)
	defer func() { w.each = false }()
	if st, ok := types.Unalias(deref(a.Type())).Underlying().(*types.Struct); ok {
		for i := 0; i < st.NumFields(); i++ {
			w.add(fieldKeyOf(a.Type(), i), r.obj, write, l, ins, top)
		}
	}
	w.add(r.id, r.obj, write, l, ins, top)
}

// ownElement: the element of a list whose index counts the turns of the loop
// that starts the goroutine.
func (g *races) ownElement(a ssa.Value, x *tctx) bool {
	for d := 0; d < 12; d++ {
		switch i := a.(type) {
		case *ssa.FieldAddr:
			a = i.X
		case *ssa.IndexAddr:
			return g.turn(i.Index, x, 0)
		case *ssa.UnOp:
			return false
		case *ssa.Parameter:
			ok := false
			for k, p := range x.fn.Params {
				if p == i && k < len(x.args) && x.up != nil {
					a, x = x.args[k], x.up
					ok = true
					break
				}
			}
			if !ok {
				return false
			}
		default:
			return false
		}
	}
	return false
}

// turn: the number of the turn of a loop, in the function that is looked at.
func (g *races) turn(v ssa.Value, x *tctx, d int) bool {
	if d > 12 {
		return false
	}
	switch i := v.(type) {
	case *ssa.Convert:
		return g.turn(i.X, x, d+1)
	case *ssa.Parameter:
		for k, p := range x.fn.Params {
			if p == i && k < len(x.args) && x.up != nil {
				return g.turn(x.args[k], x.up, d+1)
			}
		}
	case *ssa.UnOp:
		if i.Op != token.MUL {
			return false
		}
		// a variable made anew in every turn
		var only ssa.Value
		n := 0
		var al *ssa.Alloc
		for _, cell := range g.c.p.sameCell(i.X) {
			if a, ok := cell.(*ssa.Alloc); ok {
				al = a
			}
			if cell.Referrers() == nil {
				continue
			}
			for _, ref := range *cell.Referrers() {
				if st, ok := ref.(*ssa.Store); ok && st.Addr == cell {
					only = st.Val
					n++
				}
			}
		}
		if n == 1 && al != nil {
			return g.turn(only, g.origin(x, al), d+1)
		}
	case *ssa.BinOp:
		if _, ok := i.Y.(*ssa.Const); ok && (i.Op == token.ADD || i.Op == token.SUB) {
			return g.turn(i.X, x, d+1)
		}
	case *ssa.Phi:
		if x == nil || x.up != nil {
			return false // not in the function that starts it
		}
		body := g.c.p.Loops(i.Parent()).header[i.Block()]
		if body == nil {
			return false
		}
		for k, e := range i.Edges {
			if !body[i.Block().Preds[k]] {
				continue
			}
			b, ok := e.(*ssa.BinOp)
			if !ok || b.X != ssa.Value(i) || b.Op != token.ADD && b.Op != token.SUB {
				return false
			}
			if c, ok := b.Y.(*ssa.Const); !ok || c.Value == nil || c.Value.ExactString() == "0" {
				return false
			}
		}
		return true
	}
	return false
}

func (w *rwalk) elems(x *tctx, v ssa.Value, write bool, l lockset, ins, top ssa.Instruction) {
	r := w.g.resolve(v, x, ins, 0)
	if r.shared {
		w.add(r.id+"[]", r.obj, write, l, ins, top)
	}
}

func (w *rwalk) one(x *tctx, ins ssa.Instruction, l lockset, top ssa.Instruction) {
	g := w.g
	switch i := ins.(type) {
	case *ssa.Store:
		w.at(x, i.Addr, true, l, ins, top)
	case *ssa.UnOp:
		if i.Op == token.MUL {
			w.at(x, i.X, false, l, ins, top)
		}
	case *ssa.MapUpdate:
		w.elems(x, i.Map, true, l, ins, top)
	case *ssa.Lookup:
		if _, ok := types.Unalias(i.X.Type()).Underlying().(*types.Map); ok {
			w.elems(x, i.X, false, l, ins, top)
		}
	case *ssa.Range:
		if _, ok := types.Unalias(i.X.Type()).Underlying().(*types.Map); ok {
			w.elems(x, i.X, false, l, ins, top)
		}
	case ssa.CallInstruction:
		com := i.Common()
		if b, ok := com.Value.(*ssa.Builtin); ok {
			switch b.Name() {
			case "delete", "clear":
				w.elems(x, com.Args[0], true, l, ins, top)
			case "copy":
				w.elems(x, com.Args[0], true, l, ins, top)
				w.elems(x, com.Args[1], false, l, ins, top)
			case "len":
				if _, ok := types.Unalias(com.Args[0].Type()).Underlying().(*types.Map); ok {
					w.elems(x, com.Args[0], false, l, ins, top)
				}
			case "append":
				if len(com.Args) > 1 {
					w.elems(x, com.Args[1], false, l, ins, top)
				}
			}
			return
		}
		n := calleeName(com)
		if op, _ := lockOp(com); op != "" {
			return
		}
		callees := g.c.p.Callees(i)
		if len(callees) == 0 {
			w.external(x, n, com, l, ins, top)
			return
		}
		for _, f := range callees {
			h := l
			if _, ok := ins.(*ssa.Go); ok {
				h = lockset{}
			}
			if _, ok := ins.(*ssa.Defer); ok {
				h = lockset{}
				for k, v := range l {
					h[k] = v
				}
			}
			y := g.enter(x, f, i, true)
			if y == nil {
				continue
			}
			id := fmt.Sprintf("%p %s ", f, h.id())
			for _, a := range y.args {
				r := g.resolve(a, x, ins, 0)
				id += fmt.Sprint(r.shared, r.id, ";")
			}
			for _, fv := range f.FreeVars {
				r := g.resolve(fv, y, nil, 0)
				id += fmt.Sprint(r.shared, r.id, ";")
				r = g.content(fv, y, nil, 0)
				id += fmt.Sprint(r.shared, r.id, ";")
			}
			id += fmt.Sprintf("%p", top)
			if w.seen[id] {
				continue
			}
			w.seen[id] = true
			old := w.start
			if _, ok := ins.(*ssa.Go); ok {
				w.start = ins
			}
			w.walk(y, h, top, nil)
			w.start = old
		}
	}
}

var mutators = []string{"(*bytes.Buffer).", "(*strings.Builder).", "(*bufio.", "(*math/rand.Rand).", "(*container/", "(io.Writer).", "(io.WriteCloser).", "(io.StringWriter).", "(io.ReadWriter).", "(hash.Hash).", "(io.Reader).", "(io.ReadCloser)."}

func (w *rwalk) external(x *tctx, n string, com *ssa.CallCommon, l lockset, ins, top ssa.Instruction) {
	recv := ssa.Value(nil)
	for _, m := range mutators {
		if strings.HasPrefix(n, m) {
			if com.IsInvoke() {
				recv = com.Value
			} else if len(com.Args) > 0 {
				recv = com.Args[0]
			}
		}
	}
	switch {
	case strings.HasPrefix(n, "fmt.Fprint") || n == "io.WriteString" || n == "io.Copy":
		recv = com.Args[0]
	case strings.HasPrefix(n, "sort.") && !strings.HasPrefix(n, "sort.Search"), strings.HasPrefix(n, "slices.Sort"), n == "slices.Reverse", n == "math/rand.Shuffle":
		if len(com.Args) > 0 {
			w.elems(x, com.Args[0], true, l, ins, top)
		}
	case strings.HasPrefix(n, "sync/atomic."):
		a := lockset{}
		for k, v := range l {
			a[k] = v
		}
		a["atomic"] = true
		w.at(x, com.Args[0], true, a, ins, top)
	}
	if recv == nil {
		return
	}
	if g, ok := recv.(*ssa.UnOp); ok {
		if gl, ok := g.X.(*ssa.Global); ok && strings.HasPrefix(gl.String(), "os.Std") {
			return
		}
	}
	if mi, ok := recv.(*ssa.MakeInterface); ok && typeKey(mi.X.Type()) == "os.File" {
		return
	}
	r := w.g.resolve(recv, x, ins, 0)
	if r.shared {
		w.add(r.id+".*", r.obj, true, l, ins, top)
	}
}

// ---- go statements

type signal struct {
	kind     string // send, close, done
	id       string
	ins      ssa.Instruction
	deferred bool
	added    bool // the wait group counts it before it starts
}

func (g *races) goSite(fn *ssa.Function, gi *ssa.Go) {
	c := g.c
	x := &tctx{fn: fn}
	for _, body := range c.p.Callees(gi) {
		y := g.enter(x, body, gi, true)
		w := &rwalk{g: g, seen: map[string]bool{}}
		w.walk(y, lockset{}, nil, nil)
		c.Count("accesses of goroutines", len(w.out))
		g.judge(x, gi, y, w.out)
	}
}

// signals that end the goroutine.
func (g *races) signals(y *tctx) []signal {
	var out []signal
	var add func(x *tctx, ins ssa.Instruction, at ssa.Instruction, def bool, d int)
	add = func(x *tctx, ins ssa.Instruction, at ssa.Instruction, def bool, d int) {
		switch i := ins.(type) {
		case *ssa.Send:
			out = append(out, signal{kind: "send", id: g.resolve(i.Chan, x, i, 0).id, ins: at, deferred: def})
		case ssa.CallInstruction:
			if _, ok := ins.(*ssa.Go); ok {
				return
			}
			com := i.Common()
			if b, ok := com.Value.(*ssa.Builtin); ok && b.Name() == "close" {
				out = append(out, signal{kind: "close", id: g.resolve(com.Args[0], x, i, 0).id, ins: at, deferred: def})
				return
			}
			if calleeName(com) == "(*sync.WaitGroup).Done" {
				out = append(out, signal{kind: "done", id: g.resolve(com.Args[0], x, i, 0).id, ins: at, deferred: def})
				return
			}
			if d > 2 {
				return
			}
			for _, f := range g.c.p.Callees(i) {
				z := g.enter(x, f, i, true)
				if z == nil {
					continue
				}
				for _, b := range f.Blocks {
					for _, j := range b.Instrs {
						if onEveryPath(f, b) {
							add(z, j, at, def, d+1)
						}
					}
				}
			}
		}
	}
	for _, b := range y.fn.Blocks {
		for _, ins := range b.Instrs {
			_, def := ins.(*ssa.Defer)
			add(y, ins, ins, def, 0)
		}
	}
	return out
}

// after: the access can come after the signal.
func (g *races) after(a raccess, s signal) bool {
	if !s.deferred {
		return a.top != s.ins && g.path(s.ins, a.top, nil)
	}
	// deferred functions run after it when they were registered before
	d, ok := a.top.(*ssa.Defer)
	return ok && a.top != s.ins && g.path(d, s.ins, nil)
}

func (g *races) judge(x *tctx, gi *ssa.Go, y *tctx, acc []raccess) {
	c := g.c
	if len(acc) == 0 {
		return
	}
	keys := map[string]bool{}
	for _, a := range acc {
		keys[a.key] = true
	}
	sigs := g.signals(y)
	for i, s := range sigs {
		sigs[i].added = s.kind == "done" && g.addedBefore(gi, s.id)
	}
	cut, edge := g.joins(gi.Parent(), x, gi, sigs, sigs)

	many := false
	// started again before it is waited for?
	g.flood(gi, func(i ssa.Instruction) bool {
		if i == ssa.Instruction(gi) {
			many = true
		}
		return !cut(i)
	}, edge)
	report := func(a, b raccess, how string) {
		k := fmt.Sprintf("race on %s in %s", strings.TrimPrefix(showKey(a, b), modPath+"/"), fnName(gi.Parent()))
		wa, wb := "reads", "reads"
		if a.write {
			wa = "writes"
		}
		if b.write {
			wb = "writes"
		}
		c.ViolateAt(k, c.p.Pos(instrPos(a.ins)), nil, "the goroutine started at %s %s %s at %s (%s) while %s %s it at %s (%s), without a lock they have in common", c.p.Pos(gi.Pos()), wa, showKey(a, b), c.p.Pos(instrPos(a.ins)), fnName(a.fn), how, wb, c.p.Pos(instrPos(b.ins)), fnName(b.fn))
	}
	var fresh map[ssa.Value]bool
	if !many {
		many, fresh = g.startedAgain(gi, cut, edge, sigs)
	}
	own := func(a raccess) bool {
		for p := range fresh {
			if strings.HasPrefix(a.key, objID(p)) {
				return true
			}
		}
		return g.perInstance(gi, a.obj)
	}
	// several instances
	if many {
		for _, a := range acc {
			for _, b := range acc {
				if !conflict(g.sharedLocks(gi, a), b) || a.each && b.each {
					continue
				}
				if !own(a) && !own(b) {
					report(a, b, "another one from the same place")
				}
			}
		}
		c.Count("goroutines started several at a time", 1)
	}
	// what the function goes on to do, up to where it waits for a signal that
	// comes after the access
	type tail struct {
		sigs []signal
		acc  []raccess
	}
	tails := map[string]*tail{}
	for _, a := range acc {
		id := ""
		t := &tail{}
		for i, s := range sigs {
			if !g.after(a, s) {
				t.sigs = append(t.sigs, s)
				id += fmt.Sprint(i, " ")
			}
		}
		if tails[id] == nil {
			tails[id] = t
		}
		tails[id].acc = append(tails[id].acc, a)
	}
	var ids []string
	for id := range tails {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	for _, id := range ids {
		t := tails[id]
		cut, edge := g.joins(gi.Parent(), x, gi, t.sigs, sigs)
		rest := g.continuation(x, gi, gi, cut, edge, keys, t.sigs, sigs, 0)
		c.Count("accesses at the same time", len(rest))
		how := " goes on and"
		if len(t.sigs) < len(sigs) {
			how = " goes on, or was told that it is done, and"
		}
		for _, a := range t.acc {
			for _, b := range rest {
				if !conflict(a, b) || b.start == ssa.Instruction(gi) {
					continue // (another start of the goroutine: above)
				}
				if b.obj != nil && b.top.Parent() == gi.Parent() {
					if al, ok := b.obj.(ssa.Instruction); ok && al.Parent() == gi.Parent() && !g.path(gi, b.top, func(i ssa.Instruction) bool { return i == al }) {
						continue // made anew by the next turn of a loop
					}
				}
				report(a, b, fnName(gi.Parent())+how)
			}
		}
	}
}

func showKey(a, b raccess) string {
	k := a.key
	if strings.HasPrefix(k, "obj ") {
		n := "a variable"
		v := a.obj
		if v == nil {
			v = b.obj
		}
		switch o := v.(type) {
		case *ssa.Alloc:
			n = "variable " + o.Comment
		case *ssa.MakeMap:
			n = "a map"
		case *ssa.MakeSlice:
			n = "a list"
		}
		if i := strings.IndexAny(k, ".["); i >= 0 {
			return "what is in " + n
		}
		return n
	}
	return k
}

func conflict(a, b raccess) bool {
	if a.key != b.key || !a.write && !b.write {
		return false
	}
	if a.obj != nil && b.obj != nil && a.obj != b.obj {
		return false
	}
	for k, w := range a.locks {
		if w2, ok := b.locks[k]; ok && (w || w2) {
			return false
		}
	}
	return true
}

// sharedLocks: without the locks that every start of the goroutine has for itself.
func (g *races) sharedLocks(gi *ssa.Go, a raccess) raccess {
	n := lockset{}
	for k, w := range a.locks {
		if !g.perInstance(gi, g.lockObj[k]) {
			n[k] = w
		}
	}
	a.locks = n
	return a
}

// startedAgain: a caller of the function that starts the goroutine does so
// again before it waited for the first; fresh are the parameters that stand
// for something made anew each time.
func (g *races) startedAgain(gi *ssa.Go, cut func(ssa.Instruction) bool, edge func(a, b *ssa.BasicBlock) bool, sigs []signal) (bool, map[ssa.Value]bool) {
	fn := gi.Parent()
	many := false
	fresh := map[ssa.Value]bool{}
	{
		returns := false
		g.flood(gi, func(i ssa.Instruction) bool {
			if cut(i) {
				return false
			}
			if _, ok := i.(*ssa.Return); ok {
				returns = true
			}
			return true
		}, edge)
		if !returns {
			return false, nil
		}
		for i := range fn.Params {
			fresh[fn.Params[i]] = true
		}
		for _, ci := range g.c.p.staticCallers()[fn] {
			call, ok := ci.(*ssa.Call)
			if !ok || !libraryFn(call.Parent()) {
				continue
			}
			z := &tctx{fn: call.Parent()}
			ccut, cedge := g.joins(call.Parent(), z, gi, g.rename(fn, call, z, sigs), g.rename(fn, call, z, sigs))
			again := false
			g.flood(call, func(i ssa.Instruction) bool {
				if i == ssa.Instruction(call) {
					again = true
				}
				return !ccut(i)
			}, cedge)
			if !again {
				continue
			}
			many = true
			for k, p := range fn.Params {
				if k < len(call.Call.Args) {
					o := g.resolve(call.Call.Args[k], z, call, 0).obj
					ins, ok := o.(ssa.Instruction)
					if g.ownElement(call.Call.Args[k], z) {
						continue
					}
					if !ok || ins.Parent() != call.Parent() || g.path(call, call, func(i ssa.Instruction) bool { return i == ins }) {
						delete(fresh, p)
					}
				}
			}
		}
	}
	return many, fresh
}

// rename: the signals under the names of the caller.
func (g *races) rename(fn *ssa.Function, call *ssa.Call, z *tctx, sigs []signal) []signal {
	var out []signal
	for _, s := range sigs {
		for k, p := range fn.Params {
			if s.id == objID(p) && k < len(call.Call.Args) {
				s.id = g.resolve(call.Call.Args[k], z, call, 0).id
				s.added = s.added || s.kind == "done" && g.addedBefore(call, s.id)
				break
			}
		}
		out = append(out, s)
	}
	return out
}

// perInstance: the object is made anew before every start of the goroutine.
func (g *races) perInstance(gi *ssa.Go, obj ssa.Value) bool {
	al, ok := obj.(ssa.Instruction)
	if !ok || al.Parent() != gi.Parent() {
		return false
	}
	return !g.path(gi, gi, func(i ssa.Instruction) bool { return i == al })
}

// callees: with the functions that another call returned.
func (g *races) callees(call *ssa.Call) []*ssa.Function {
	out := g.c.p.Callees(call)
	v := call.Call.Value
	k := 0
	if ex, ok := v.(*ssa.Extract); ok {
		v, k = ex.Tuple, ex.Index
	}
	if ld, ok := v.(*ssa.UnOp); ok && ld.Op == token.MUL {
		// kept in a variable
		var only ssa.Value
		n := 0
		for _, cell := range g.c.p.sameCell(ld.X) {
			if cell.Referrers() == nil {
				continue
			}
			for _, ref := range *cell.Referrers() {
				if st, ok := ref.(*ssa.Store); ok && st.Addr == cell {
					only = st.Val
					n++
				}
			}
		}
		if n == 1 {
			v = only
			if ex, ok := v.(*ssa.Extract); ok {
				v, k = ex.Tuple, ex.Index
			}
		}
	}
	mk, ok := v.(*ssa.Call)
	if !ok {
		return out
	}
	for _, f := range g.c.p.Callees(mk) {
		for _, b := range f.Blocks {
			if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && k < len(ret.Results) {
				mc, ok := ret.Results[k].(*ssa.MakeClosure)
				if !ok {
					return g.c.p.Callees(call)
				}
				out = append(out, mc.Fn.(*ssa.Function))
			}
		}
	}
	return out
}

// joins: the instructions and branches of fn after which the goroutine has given its signal.
func (g *races) joins(fn *ssa.Function, z *tctx, gi *ssa.Go, sigs, every []signal) (func(ssa.Instruction) bool, func(from, to *ssa.BasicBlock) bool) {
	loops := g.c.p.Loops(fn)
	data := map[string]int{}
	for _, s := range every {
		if s.kind == "send" {
			data[s.id]++
			// a send in a loop is data
			for _, body := range g.c.p.Loops(s.ins.Parent()).header {
				if body[s.ins.Block()] {
					data[s.id] += 2
				}
			}
		}
	}
	var isJoin func(f *ssa.Function, y *tctx, i ssa.Instruction, d int) bool
	isJoin = func(f *ssa.Function, y *tctx, i ssa.Instruction, d int) bool {
		switch j := i.(type) {
		case *ssa.UnOp:
			if j.Op != token.ARROW {
				return false
			}
			id := g.resolve(j.X, y, j, 0).id
			for _, s := range sigs {
				if s.id != id || id == "" {
					continue
				}
				if s.kind == "send" && data[id] == 1 || s.kind == "close" && data[id] == 0 {
					return true
				}
			}
		case *ssa.Call:
			if calleeName(&j.Call) == "(*sync.WaitGroup).Wait" {
				id := g.resolve(j.Call.Args[0], y, j, 0).id
				for _, s := range sigs {
					if s.kind == "done" && s.id == id && s.added {
						return true
					}
				}
				return false
			}
			if d > 3 {
				return false
			}
			if calleeName(&j.Call) == "(*sync.Once).Do" && len(j.Call.Args) > 1 {
				if mc, ok := j.Call.Args[1].(*ssa.MakeClosure); ok {
					h := mc.Fn.(*ssa.Function)
					hz := &tctx{fn: h, up: y, local: true, depth: d + 1}
					for _, b := range h.Blocks {
						for _, k := range b.Instrs {
							if onEveryPath(h, b) && isJoin(h, hz, k, d+1) {
								return true
							}
						}
					}
				}
				return false
			}
			for _, h := range g.callees(j) {
				if !libraryFn(h) {
					continue
				}
				hz := g.enter(y, h, j, true)
				if hz == nil {
					continue
				}
				if m := h.Parent(); m != nil {
					known := false
					for u := y; u != nil; u = u.up {
						known = known || u.fn == m
					}
					if !known {
						hz.up = &tctx{fn: m, up: y, depth: hz.depth}
					}
				}
				for _, b := range h.Blocks {
					if !onEveryPath(h, b) {
						continue
					}
					for _, k := range b.Instrs {
						if isJoin(h, hz, k, d+1) {
							return true
						}
					}
				}
				// a loop that ends when the channel is closed
				for _, b := range h.Blocks {
					for _, k := range b.Instrs {
						if g.closedLoop(k, hz, sigs) && onEveryPath(h, b) {
							return true
						}
					}
				}
			}
		case *ssa.If:
			// waits unless it did before
			cond := j.Cond
			neg := false
			if u, ok := cond.(*ssa.UnOp); ok && u.Op == token.NOT {
				cond, neg = u.X, true
			}
			ld, ok := cond.(*ssa.UnOp)
			if !ok || ld.Op != token.MUL {
				return false
			}
			first := j.Block().Succs[1]
			if neg {
				first = j.Block().Succs[0]
			}
			if len(first.Preds) != 1 {
				return false
			}
			waits := func(b *ssa.BasicBlock, h *ssa.Function, hz *tctx) bool {
				for _, k := range b.Instrs {
					if _, ok := k.(*ssa.If); !ok && isJoin(h, hz, k, d+1) {
						return true
					}
				}
				return false
			}
			if !waits(first, f, y) {
				return false
			}
			set := false
			for _, cell := range g.c.p.sameCell(ld.X) {
				for _, ref := range *cell.Referrers() {
					if st, ok := ref.(*ssa.Store); ok && st.Addr == cell {
						if k, ok := st.Val.(*ssa.Const); ok && k.Value != nil && k.Value.ExactString() == "false" {
							continue
						}
						if st.Block() != first {
							return false
						}
						set = true
					}
				}
			}
			return set
		case *ssa.RunDefers:
			for _, b := range f.Blocks {
				for _, k := range b.Instrs {
					dd, ok := k.(*ssa.Defer)
					if !ok || !b.Dominates(i.Block()) {
						continue
					}
					com := dd.Common()
					if calleeName(com) == "(*sync.WaitGroup).Wait" {
						id := g.resolve(com.Args[0], y, dd, 0).id
						for _, s := range sigs {
							if s.kind == "done" && s.id == id && s.added {
								return true
							}
						}
					}
					for _, h := range g.c.p.Callees(dd) {
						hz := g.enter(y, h, dd, true)
						if hz == nil {
							continue
						}
						for _, hb := range h.Blocks {
							for _, k := range hb.Instrs {
								if onEveryPath(h, hb) && isJoin(h, hz, k, d+1) {
									return true
								}
							}
						}
					}
				}
			}
		}
		return false
	}
	inLoop := func(i ssa.Instruction) map[*ssa.BasicBlock]bool {
		var best map[*ssa.BasicBlock]bool
		for _, body := range loops.header {
			if body[i.Block()] && !body[gi.Block()] && (best == nil || len(body) > len(best)) {
				best = body
			}
		}
		if gi.Parent() != fn {
			return nil
		}
		return best
	}
	goInLoop := false
	if gi.Parent() == fn {
		for _, body := range loops.header {
			if body[gi.Block()] {
				goInLoop = true
			}
		}
	}
	cut := func(i ssa.Instruction) bool {
		if !isJoin(fn, z, i, 0) {
			return false
		}
		if _, recv := i.(*ssa.UnOp); recv && goInLoop {
			sameLoop := false
			for _, body := range loops.header {
				if body[gi.Block()] && body[i.Block()] {
					sameLoop = true
				}
			}
			if !sameLoop {
				return false // one signal of several
			}
		}
		return true
	}
	edge := func(from, to *ssa.BasicBlock) bool {
		// the end of a loop over a channel that the goroutine closes
		if i, ok := from.Instrs[len(from.Instrs)-1].(*ssa.If); ok && to == from.Succs[1] {
			if ex, ok := i.Cond.(*ssa.Extract); ok && ex.Index == 1 {
				if r, ok := ex.Tuple.(*ssa.UnOp); ok && r.Op == token.ARROW {
					id := g.resolve(r.X, z, r, 0).id
					for _, s := range sigs {
						if s.kind == "close" && s.id == id && !goInLoop {
							return false
						}
					}
				}
			}
		}
		// the end of a loop that takes one signal of each goroutine
		if goInLoop {
			for _, b := range fn.Blocks {
				for _, ins := range b.Instrs {
					if r, ok := ins.(*ssa.UnOp); ok && r.Op == token.ARROW && isJoin(fn, z, r, 0) {
						if body := inLoop(r); body != nil && body[from] && !body[to] {
							return false
						}
					}
				}
			}
		}
		return true
	}
	return cut, edge
}

func (g *races) closedLoop(k ssa.Instruction, z *tctx, sigs []signal) bool {
	r, ok := k.(*ssa.UnOp)
	if !ok || r.Op != token.ARROW || !r.CommaOk {
		return false
	}
	id := g.resolve(r.X, z, r, 0).id
	for _, s := range sigs {
		if s.kind == "close" && s.id == id {
			return true
		}
	}
	return false
}

// addedBefore: the Add of the wait group comes before the go statement.
func (g *races) addedBefore(gi ssa.CallInstruction, id string) bool {
	fn := gi.Parent()
	x := &tctx{fn: fn}
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			call, ok := ins.(*ssa.Call)
			if ok && calleeName(&call.Call) == "(*sync.WaitGroup).Add" && g.resolve(call.Call.Args[0], x, ins, 0).id == id && instrBefore(ins, gi) {
				return true
			}
		}
	}
	return false
}

// continuation: the accesses of what can run while the goroutine does.
func (g *races) continuation(x *tctx, gi *ssa.Go, from ssa.Instruction, cut func(ssa.Instruction) bool, edge func(a, b *ssa.BasicBlock) bool, keys map[string]bool, sigs, every []signal, d int) []raccess {
	fn := from.Parent()
	keep := map[ssa.Instruction]bool{}
	returns := false
	g.flood(from, func(i ssa.Instruction) bool {
		keep[i] = true
		switch i.(type) {
		case *ssa.RunDefers:
			if cut(i) {
				return false
			}
			for _, b := range fn.Blocks {
				for _, k := range b.Instrs {
					if _, ok := k.(*ssa.Defer); ok {
						keep[k] = true
					}
				}
			}
			return true
		case *ssa.Return:
			returns = true
		}
		return !cut(i)
	}, edge)
	w := &rwalk{g: g, seen: map[string]bool{}}
	w.walk(x, lockset{}, nil, keep)
	var out []raccess
	for _, a := range w.out {
		if keys[a.key] {
			out = append(out, a)
		}
	}
	if !returns || d > 5 {
		return out
	}
	for _, ci := range g.c.p.staticCallers()[fn] {
		call, ok := ci.(*ssa.Call)
		if !ok || !libraryFn(call.Parent()) {
			continue
		}
		z := &tctx{fn: call.Parent()}
		// the same things have other names there
		tr := map[string]string{}
		rev := map[string]bool{}
		for k, p := range fn.Params {
			if k < len(call.Call.Args) {
				r := g.resolve(call.Call.Args[k], z, call, 0)
				for key := range keys {
					if rest, ok := strings.CutPrefix(key, objID(p)); ok && r.id != "" {
						tr[r.id+rest] = key
						rev[r.id+rest] = true
					}
				}
			}
		}
		for key := range keys {
			if !strings.HasPrefix(key, "obj ") {
				rev[key] = true
			}
		}
		if len(rev) == 0 {
			continue
		}
		s1, s2 := g.rename(fn, call, z, sigs), g.rename(fn, call, z, every)
		ccut, cedge := g.joins(call.Parent(), z, gi, s1, s2)
		for _, a := range g.continuation(z, gi, call, ccut, cedge, rev, s1, s2, d+1) {
			if k, ok := tr[a.key]; ok {
				a.key = k
				a.obj = nil
			}
			out = append(out, a)
		}
	}
	return out
}

// sent: what was handed over on a channel is not written any more.
func (g *races) sent(fn *ssa.Function, s *ssa.Send) {
	g.c.Count("sends", 1)
	var given []ssa.Value
	var rec func(v ssa.Value, d int)
	rec = func(v ssa.Value, d int) {
		if d > 4 {
			return
		}
		switch i := v.(type) {
		case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice:
			given = append(given, v)
			if al, ok := v.(*ssa.Alloc); ok {
				for _, ref := range *al.Referrers() {
					if fa, ok := ref.(*ssa.FieldAddr); ok {
						for _, u := range *fa.Referrers() {
							if st, ok := u.(*ssa.Store); ok && st.Addr == ssa.Value(fa) && pointerLike(st.Val.Type()) {
								rec(st.Val, d+1)
							}
						}
					}
				}
			}
		case *ssa.UnOp:
			// a struct is copied, what it points to is not
			if al, ok := i.X.(*ssa.Alloc); ok && i.Op == token.MUL {
				if _, isStruct := types.Unalias(i.Type()).Underlying().(*types.Struct); isStruct {
					for _, ref := range *al.Referrers() {
						if fa, ok := ref.(*ssa.FieldAddr); ok {
							for _, u := range *fa.Referrers() {
								if st, ok := u.(*ssa.Store); ok && st.Addr == ssa.Value(fa) && pointerLike(st.Val.Type()) {
									rec(st.Val, d+1)
								}
							}
						}
					}
					return
				}
				for _, ref := range *al.Referrers() {
					if st, ok := ref.(*ssa.Store); ok && st.Addr == ssa.Value(al) {
						rec(st.Val, d+1)
					}
				}
			}
		case *ssa.Call:
			given = append(given, v)
		case *ssa.Phi:
			for _, e := range i.Edges {
				rec(e, d+1)
			}
		case *ssa.MakeInterface:
			rec(i.X, d+1)
		}
	}
	if !pointerLike(s.X.Type()) {
		if _, ok := types.Unalias(s.X.Type()).Underlying().(*types.Struct); !ok {
			return
		}
	}
	rec(s.X, 0)
	for _, v := range given {
		def, ok := v.(ssa.Instruction)
		if !ok {
			continue
		}
		if _, isCall := v.(*ssa.Call); isCall && !pointerLike(v.Type()) {
			continue
		}
		g.flood(s, func(i ssa.Instruction) bool {
			if i == def {
				return false
			}
			hit := false
			switch w := i.(type) {
			case *ssa.MapUpdate:
				hit = w.Map == v
			case *ssa.Call:
				if b, ok := w.Call.Value.(*ssa.Builtin); ok {
					switch b.Name() {
					case "delete", "clear", "copy":
						hit = w.Call.Args[0] == v
					}
				}
			case *ssa.Store:
				a := w.Addr
				n := 0
				for {
					if fa, ok := a.(*ssa.FieldAddr); ok {
						a = fa.X
						n++
						continue
					}
					if ia, ok := a.(*ssa.IndexAddr); ok {
						a = ia.X
						n++
						continue
					}
					break
				}
				hit = a == v && n > 0
			}
			if hit {
				g.c.Violate("written after it was sent in "+fnName(fn), instrPos(i), "%s: what was sent on a channel at %s is written afterwards", fnName(fn), g.c.p.Pos(s.Pos()))
			}
			return true
		}, nil)
	}
}

// ---- locks

type lockEff struct {
	id          string
	take, write bool
}

// lockEffect: the locks a helper takes, or gives back, for its caller.
func (g *races) lockEffect(x *tctx, f *ssa.Function, ci ssa.CallInstruction) []lockEff {
	if f.Blocks == nil || len(f.Blocks) > 1 || !libraryFn(f) {
		return nil
	}
	held := map[string]lockEff{}
	var order []string
	var y *tctx
	for _, ins := range f.Blocks[0].Instrs {
		call, ok := ins.(*ssa.Call)
		if !ok {
			if d, ok := ins.(*ssa.Defer); ok {
				if op, m := lockOp(&d.Call); op == "Unlock" || op == "RUnlock" {
					if y == nil {
						y = g.enter(x, f, ci, true)
					}
					if y != nil {
						delete(held, g.resolve(m, y, ins, 0).id)
						held["defer"+g.resolve(m, y, ins, 0).id] = lockEff{}
					}
				}
			}
			continue
		}
		op, m := lockOp(&call.Call)
		if op == "" {
			continue
		}
		if y == nil {
			if y = g.enter(x, f, ci, true); y == nil {
				return nil
			}
		}
		id := g.resolve(m, y, ins, 0).id
		order = append(order, id)
		switch op {
		case "Lock":
			held[id] = lockEff{id, true, true}
		case "RLock":
			held[id] = lockEff{id, true, false}
		default:
			if e, ok := held[id]; ok && e.take {
				delete(held, id)
			} else {
				held[id] = lockEff{id, false, false}
			}
		}
	}
	var out []lockEff
	for _, id := range order {
		if e, ok := held[id]; ok {
			if _, d := held["defer"+id]; d {
				continue
			}
			out = append(out, e)
			delete(held, id)
		}
	}
	return out
}

// discipline: every lock is released on every path.
func (g *races) discipline() {
	c := g.c
	p := c.p
	locks := func(f *ssa.Function, ins ssa.Instruction) bool {
		ci, ok := ins.(ssa.CallInstruction)
		if !ok {
			return false
		}
		op, _ := lockOp(ci.Common())
		return op != ""
	}
	var roots []*ssa.Function
	queued := map[*ssa.Function]bool{}
	add := func(fn *ssa.Function) {
		if !queued[fn] {
			queued[fn] = true
			roots = append(roots, fn)
		}
	}
	// goroutine bodies are their own roots
	goBody := map[*ssa.Function]bool{}
	for _, fn := range p.Fns {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if gi, ok := ins.(*ssa.Go); ok {
					for _, f := range p.Callees(gi) {
						goBody[f] = true
					}
				}
			}
		}
	}
	for _, fn := range p.Fns {
		if !libraryFn(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if locks(fn, ins) {
					c.Count("lock operations", 1)
					f := fn
					for f.Parent() != nil && !goBody[f] {
						f = f.Parent()
					}
					add(f)
				}
				if call, ok := ins.(*ssa.Call); ok && isLicenseDetect(calleeName(&call.Call)) {
					c.Count("calls of the license library", 1)
					add(outermost(fn))
				}
			}
		}
	}
	for i := 0; i < len(roots) && i < 40; i++ {
		g.lockRoot(roots[i], locks, queued, add)
	}
	// the log
	n := 0
	for _, fn := range p.Fns {
		if fnPkgPath(fn) == mp("ripsrc/pkg/logger") && fn.Parent() == nil && fn.Signature.Recv() != nil && exportedFn(fn) && p.transitively(fn, func(f *ssa.Function, ins ssa.Instruction) bool { return isWrite(ins) }) {
			n++
			g.logRoot(fn)
		}
	}
	c.Count("log methods", n)
	c.Min("log methods", 1)
}

func isLicenseDetect(n string) bool {
	return strings.HasSuffix(n, "licensedb.Detect")
}

func isWrite(ins ssa.Instruction) bool {
	ci, ok := ins.(ssa.CallInstruction)
	if !ok {
		return false
	}
	n := calleeName(ci.Common())
	return ci.Common().IsInvoke() && strings.Contains(n, ").Write") || strings.HasPrefix(n, "fmt.Fprint") || n == "io.WriteString"
}

func (g *races) lockRoot(root *ssa.Function, locks func(*ssa.Function, ssa.Instruction) bool, queued map[*ssa.Function]bool, add func(*ssa.Function)) {
	c := g.c
	p := c.p
	c.Saw(root)
	callers := p.staticCallers()[root]
	helper := !exportedFn(root) && root.Parent() == nil && len(callers) > 0
	handUp := false
	matters := func(f *ssa.Function, ins ssa.Instruction) bool {
		call, ok := ins.(*ssa.Call)
		return locks(f, ins) || ok && isLicenseDetect(calleeName(&call.Call))
	}
	own := map[string]bool{}
	r := &Rule{Name: "locks"}
	r.Inline = func(x *X, fn *ssa.Function, call ssa.CallInstruction) bool {
		if !libraryFn(fn) {
			return false
		}
		if _, ok := call.(*ssa.Go); ok {
			return false
		}
		return p.transitively(fn, matters) && (fn.Parent() != nil || queued[fn])
	}
	bad := func(x *X, e *Event, kind, format string, a ...interface{}) {
		if helper {
			handUp = true
			return
		}
		c.Violate(kind+" in "+fnName(root), e.Pos(), "%s: %s", fnName(root), fmt.Sprintf(format, a...))
	}
	r.OnEvent = func(x *X, e *Event) {
		switch e.Kind {
		case EvCall:
			ci, ok := e.Ins.(ssa.CallInstruction)
			if !ok {
				return
			}
			if isLicenseDetect(e.Name) {
				held := false
				for k := range x.St.auto {
					if strings.HasPrefix(k, "held ") && !own[k] {
						held = true
					}
				}
				if !held {
					bad(x, e, "license library", "the license library, which keeps state of its own, is called without the lock")
				}
				return
			}
			op, _ := lockOp(ci.Common())
			if op == "" {
				return
			}
			k := "held " + e.Args[0].key
			if e.Args[0].Op == "new" {
				own[k] = true // excludes nobody else
			}
			switch op {
			case "Lock":
				if x.Get(k) != "" {
					bad(x, e, "taken twice", "a lock is taken that is already held on this path")
				}
				x.Set(k, "w")
			case "RLock":
				if x.Get(k) == "w" {
					bad(x, e, "taken twice", "a lock is taken that is already held on this path")
				}
				x.Set(k, "r")
			case "Unlock", "RUnlock":
				if x.Get(k) == "" {
					bad(x, e, "not held", "a lock is released that is not held on this path")
				}
				x.Set(k, "")
			}
		case EvReturn:
			for k := range x.St.auto {
				if strings.HasPrefix(k, "held ") {
					bad(x, e, "kept", "a lock is still held on this way out")
				}
			}
		}
	}
	s := NewSim(p, r)
	s.Run(root, nil)
	c.sims++
	c.states += s.States
	if s.Over {
		c.Violate("size "+fnName(root), root.Pos(), "%s: too many states", fnName(root))
	}
	if handUp {
		for _, ci := range callers {
			f := ci.Parent()
			add(f)
		}
	}
}

// logRoot: one whole record at a time, under the lock.
func (g *races) logRoot(fn *ssa.Function) {
	c := g.c
	p := c.p
	c.Saw(fn)
	newline := func(t *Term) (yes, bare bool) {
		for d := 0; d < 6 && t != nil; d++ {
			if s, ok := t.Str(); ok {
				return strings.HasSuffix(s, "\n"), strings.Trim(s, "\n") == ""
			}
			switch t.Op {
			case "call":
				if strings.HasPrefix(t.S, "fmt.Sprintln") {
					return true, false
				}
				if strings.HasPrefix(t.S, "fmt.Sprintf") {
					if s, ok := t.A[0].Str(); ok {
						return strings.HasSuffix(s, "\n"), false
					}
				}
				return false, false
			case "conv", "convert", "bytes":
				t = t.A[0]
			case "+":
				t = t.A[len(t.A)-1]
			default:
				if len(t.A) == 1 {
					t = t.A[0]
					continue
				}
				return false, false
			}
		}
		return false, false
	}
	r := &Rule{Name: "log"}
	r.Inline = func(x *X, f *ssa.Function, call ssa.CallInstruction) bool {
		return fnPkgPath(f) == mp("ripsrc/pkg/logger")
	}
	r.OnEvent = func(x *X, e *Event) {
		if e.Kind != EvCall {
			return
		}
		ci, ok := e.Ins.(ssa.CallInstruction)
		if !ok {
			return
		}
		if op, _ := lockOp(ci.Common()); op != "" {
			switch op {
			case "Lock":
				x.Set("held", "1")
				x.Set("n", "")
				x.Set("end", "")
			case "Unlock":
				if x.Get("n") == "2" && x.Get("end") == "" {
					c.Violate("record cut in "+fnName(fn), e.Pos(), "%s: the lock is released before the end of the record is written", fnName(fn))
				}
				x.Set("held", "")
			}
			return
		}
		if !isWrite(e.Ins) {
			return
		}
		c.Count("writes of the log", 1)
		if x.Get("held") == "" {
			c.Violate("no lock in "+fnName(fn), e.Pos(), "%s: the log is written without the lock", fnName(fn))
			return
		}
		arg := e.Args[len(e.Args)-1]
		yes, bare := newline(arg)
		if strings.HasPrefix(e.Name, "fmt.Fprintln") {
			yes, bare = true, false
		}
		if strings.HasPrefix(e.Name, "fmt.Fprintf") && len(e.Args) > 1 {
			yes, bare = newline(e.Args[1])
		}
		if bare && x.Get("n") == "" {
			c.Violate("record cut in "+fnName(fn), e.Pos(), "%s: the end of a record is written in a turn of its own", fnName(fn))
		}
		if x.Get("n") == "" {
			x.Set("n", "1")
		} else {
			x.Set("n", "2")
		}
		x.Set("end", "")
		if yes {
			x.Set("end", "1")
		}
	}
	s := NewSim(p, r)
	s.Run(fn, nil)
	c.sims++
	c.states += s.States
}
