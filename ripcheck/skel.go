package main

import (
	"crypto/sha256"
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The communication skeleton: goroutines, channels, wait groups and locks of everything that runs within one
// call of an exported function, with all other data abstracted to nil / not nil / true / false / small counts /
// unknown. Every interleaving of the skeleton is explored, over the control flow graphs of the source.

type svKind uint8

const (
	kU svKind = iota
	kNil
	kNonNil
	kTrue
	kFalse
	kInt
	kChan
	kPtr
	kClo
	kTup // tuple or struct
)

// SV is an abstract value; never modified after creation.
type SV struct {
	k    svKind
	n    int    // int value, channel or object id
	path string // of a pointer: field numbers
	fn   *ssa.Function
	vs   []*SV
}

var (
	svU      = &SV{k: kU}
	svNil    = &SV{k: kNil}
	svNonNil = &SV{k: kNonNil}
	svTrue   = &SV{k: kTrue}
	svFalse  = &SV{k: kFalse}
)

const bigInt = 3

func svInt(n int) *SV {
	if n > bigInt {
		n = bigInt
	}
	return &SV{k: kInt, n: n}
}

func svBool(b bool) *SV {
	if b {
		return svTrue
	}
	return svFalse
}

type skObj struct {
	val  *SV
	typ  types.Type
	cell bool // a variable whose value is followed
}

type skChan struct {
	cap    int
	buf    []*SV
	closed bool
	elem   types.Type
	site   string
}

type skDefer struct {
	ins  *ssa.Defer
	fn   *SV
	args []*SV
}

type skFrame struct {
	fn       *ssa.Function
	b        *ssa.BasicBlock
	pc       int
	regs     map[ssa.Value]*SV
	defers   []skDefer
	deferred bool // runs as a deferred call of the frame below
	unwind   bool // a panic passes through this frame
	ondone   *SV  // wait group to signal at the end
}

type skProc struct {
	id     int
	site   ssa.Instruction // go statement
	frames []*skFrame
	panics bool
	env    []int // environment: channels it drains, last first
	isEnv  bool
	acc    []skAccess
}

type skState struct {
	procs   []*skProc
	heap    map[int]*skObj
	chans   map[int]*skChan
	globals map[*ssa.Global]int
	next    int
	done0   bool // the call has returned
	from    *skTrace
}

// skTrace is the way to a state.
type skTrace struct {
	up   *skTrace
	what string
	env  bool
	site ssa.Instruction
	ins  ssa.Instruction
}

// clone copies the state; processes are shared until own is called for them.
func (st *skState) clone() *skState {
	n := &skState{next: st.next, done0: st.done0, heap: make(map[int]*skObj, len(st.heap)), chans: make(map[int]*skChan, len(st.chans)), globals: st.globals, from: st.from}
	if len(st.globals) > 0 {
		n.globals = make(map[*ssa.Global]int, len(st.globals))
		for k, v := range st.globals {
			n.globals[k] = v
		}
	}
	for k, o := range st.heap {
		n.heap[k] = o
	}
	for k, o := range st.chans {
		n.chans[k] = o
	}
	n.procs = append([]*skProc(nil), st.procs...)
	return n
}

// own gives the state a copy of the process that it may change.
func (st *skState) own(id int) *skProc {
	for i, p := range st.procs {
		if p.id != id {
			continue
		}
		c := *p
		c.env = append([]int(nil), p.env...)
		c.frames = make([]*skFrame, len(p.frames))
		for i, f := range p.frames {
			g := *f
			g.regs = make(map[ssa.Value]*SV, len(f.regs))
			for k, v := range f.regs {
				g.regs[k] = v
			}
			g.defers = append([]skDefer(nil), f.defers...)
			c.frames[i] = &g
		}
		st.procs[i] = &c
		return &c
	}
	return nil
}

func (st *skState) setObj(id int, v *SV) {
	o := *st.heap[id]
	o.val = v
	st.heap[id] = &o
}

func (st *skState) ownChan(id int) *skChan {
	c := *st.chans[id]
	c.buf = append([]*SV(nil), c.buf...)
	st.chans[id] = &c
	return &c
}

func (st *skState) proc(id int) *skProc {
	for _, p := range st.procs {
		if p.id == id {
			return p
		}
	}
	return nil
}

// Skel explores one root.
type Skel struct {
	p        *Prog
	root     *ssa.Function
	name     string
	seen     map[skHash]bool
	work     []*skState
	States   int
	Ops      map[ssa.Instruction]bool
	Fns      map[*ssa.Function]bool
	Max      int
	Over     bool
	Failed   interface{}
	viol     map[string]*SimViolation
	kinds    map[string]string // violation key -> property
	liveAt   map[skPos][]ssa.Value
	order    map[*ssa.Function]map[ssa.Value]int
	sl       *skSlice
	ids      map[ssa.Value]string
	Unknowns map[ssa.Instruction]bool
}

type skPos struct {
	b  *ssa.BasicBlock
	pc int
}

func NewSkel(p *Prog, root *ssa.Function) *Skel {
	return &Skel{p: p, root: root, seen: map[skHash]bool{}, Ops: map[ssa.Instruction]bool{}, Fns: map[*ssa.Function]bool{}, Max: 200000, viol: map[string]*SimViolation{}, kinds: map[string]string{},
		liveAt: map[skPos][]ssa.Value{}, order: map[*ssa.Function]map[ssa.Value]int{}, sl: p.skSlice(), ids: map[ssa.Value]string{}, Unknowns: map[ssa.Instruction]bool{}}
}

// isComm: instructions that matter for communication between goroutines.
func isComm(f *ssa.Function, ins ssa.Instruction) bool {
	if isChanOp(f, ins) {
		return true
	}
	switch i := ins.(type) {
	case *ssa.Go, *ssa.MakeChan:
		return true
	case ssa.CallInstruction:
		return strings.HasPrefix(calleeName(i.Common()), "(*sync.WaitGroup)")
	}
	return false
}

// relType: values of the type can lead to channels, functions or wait groups.
func relType(t types.Type, depth int) bool {
	if depth > 4 {
		return false
	}
	switch u := types.Unalias(t).Underlying().(type) {
	case *types.Chan, *types.Signature:
		return true
	case *types.Pointer:
		return relType(u.Elem(), depth+1)
	case *types.Struct:
		n := namedOf(t)
		if n != nil && n.Obj().Pkg() != nil {
			if n.Obj().Pkg().Path() == "sync" {
				return true
			}
			if !inScopePkg(n.Obj().Pkg().Path()) {
				return false
			}
		}
		for i := 0; i < u.NumFields(); i++ {
			if relType(u.Field(i).Type(), depth+1) {
				return true
			}
		}
	}
	return false
}

func (s *Skel) relevant(fn *ssa.Function) bool {
	return fn != nil && fn.Blocks != nil && s.sl.rel[fn]
}

// norm forgets the parts of a value that cannot influence communication.
func (s *Skel) norm(st *skState, v *SV, t types.Type) (r *SV) {
	switch v.k {
	case kTup:
		switch u := types.Unalias(t).Underlying().(type) {
		case *types.Struct:
			n := &SV{k: kTup, vs: make([]*SV, len(v.vs))}
			all := true
			defer func() {
				for _, x := range n.vs {
					all = all && x.k == kU
				}
				if all {
					r = svU
				}
			}()
			for i, x := range v.vs {
				if i < u.NumFields() && s.sl.trackedField(types.Unalias(t), i, 0) {
					n.vs[i] = s.norm(st, x, u.Field(i).Type())
				} else {
					n.vs[i] = svU
				}
			}
			return n
		case *types.Tuple:
			return v
		}
	case kPtr:
		if o := st.heap[v.n]; o != nil && v.path == "" && !s.sl.tracked(o.typ) && !o.cell {
			return svNonNil
		}
	}
	return v
}

// alwaysNil: result i of the function is nil whenever it returns.
func alwaysNil(fn *ssa.Function, i int, seen map[*ssa.Function]bool) bool {
	if fn == nil || fn.Blocks == nil || i >= fn.Signature.Results().Len() {
		return false
	}
	if seen == nil {
		seen = map[*ssa.Function]bool{}
	}
	if seen[fn] {
		return true
	}
	seen[fn] = true
	var nilv func(v ssa.Value, d int) bool
	nilv = func(v ssa.Value, d int) bool {
		if d > 8 {
			return false
		}
		switch x := v.(type) {
		case *ssa.Const:
			return x.IsNil()
		case *ssa.Phi:
			for _, e := range x.Edges {
				if e != v && !nilv(e, d+1) {
					return false
				}
			}
			return true
		case *ssa.Call:
			return alwaysNil(x.Call.StaticCallee(), 0, seen)
		case *ssa.Extract:
			if c, ok := x.Tuple.(*ssa.Call); ok {
				return alwaysNil(c.Call.StaticCallee(), x.Index, seen)
			}
		}
		return false
	}
	for _, b := range fn.Blocks {
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && !nilv(r.Results[i], 0) {
			return false
		}
	}
	return true
}

func zeroSV(t types.Type) *SV {
	switch u := types.Unalias(t).Underlying().(type) {
	case *types.Pointer, *types.Chan, *types.Signature, *types.Interface, *types.Map, *types.Slice:
		return svNil
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return svFalse
		case u.Info()&types.IsInteger != 0:
			return svInt(0)
		}
		return svU
	case *types.Struct:
		if isSync(t) {
			return svInt(0)
		}
		v := &SV{k: kTup}
		for i := 0; i < u.NumFields(); i++ {
			v.vs = append(v.vs, zeroSV(u.Field(i).Type()))
		}
		return v
	}
	return svU
}

func isSync(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sync"
}

func (s *Skel) newObj(st *skState, t types.Type, v *SV) *SV {
	st.next++
	st.heap[st.next] = &skObj{val: v, typ: t}
	return &SV{k: kPtr, n: st.next}
}

func splitPath(p string) []int {
	var out []int
	for _, x := range strings.Split(p, ".") {
		if x != "" {
			n, _ := strconv.Atoi(x)
			out = append(out, n)
		}
	}
	return out
}

func (st *skState) loadPtr(p *SV) *SV {
	o := st.heap[p.n]
	if o == nil {
		return svU
	}
	v := o.val
	for _, i := range splitPath(p.path) {
		if v.k != kTup || i >= len(v.vs) {
			return svU
		}
		v = v.vs[i]
	}
	return v
}

func (st *skState) storePtr(p *SV, v *SV) {
	o := st.heap[p.n]
	if o == nil {
		return
	}
	var set func(cur *SV, t types.Type, path []int) *SV
	set = func(cur *SV, t types.Type, path []int) *SV {
		if len(path) == 0 {
			return v
		}
		u, ok := types.Unalias(t).Underlying().(*types.Struct)
		if !ok || path[0] >= u.NumFields() {
			return cur
		}
		n := &SV{k: kTup, vs: make([]*SV, u.NumFields())}
		for i := range n.vs {
			if cur.k == kTup && i < len(cur.vs) {
				n.vs[i] = cur.vs[i]
			} else {
				n.vs[i] = svU
			}
		}
		n.vs[path[0]] = set(n.vs[path[0]], u.Field(path[0]).Type(), path[1:])
		return n
	}
	st.setObj(p.n, set(o.val, o.typ, splitPath(p.path)))
}

func (s *Skel) eval(st *skState, f *skFrame, v ssa.Value) *SV {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			if _, ok := types.Unalias(x.Type()).Underlying().(*types.Struct); ok {
				return zeroSV(x.Type())
			}
			if x.IsNil() {
				return svNil
			}
			return svU
		}
		switch x.Value.Kind() {
		case constant.Bool:
			return svBool(constant.BoolVal(x.Value))
		case constant.Int:
			if b, ok := types.Unalias(x.Type()).Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
				return svInt(int(x.Int64()))
			}
		}
		return svU
	case *ssa.Function:
		return &SV{k: kClo, fn: x}
	case *ssa.Global:
		if t := types.Unalias(x.Type()).Underlying().(*types.Pointer).Elem(); !isSync(t) && !s.sl.slotNeeded(s.sl.cell(x)) && !s.sl.tracked(t) {
			return svU
		}
		if st.globals == nil {
			st.globals = map[*ssa.Global]int{}
		}
		id, ok := st.globals[x]
		if !ok {
			t := types.Unalias(x.Type()).Underlying().(*types.Pointer).Elem()
			val := svU
			if isSync(t) {
				val = svInt(0)
			}
			p := s.newObj(st, t, val)
			st.globals[x] = p.n
			id = p.n
		}
		return &SV{k: kPtr, n: id}
	}
	if r := f.regs[v]; r != nil {
		return r
	}
	return svU
}

// ---- canonical form ----

func (s *Skel) live(b *ssa.BasicBlock, pc int) []ssa.Value {
	k := skPos{b, pc}
	if l, ok := s.liveAt[k]; ok {
		return l
	}
	fn := b.Parent()
	ord := s.order[fn]
	if ord == nil {
		ord = map[ssa.Value]int{}
		for _, v := range fn.Params {
			ord[v] = len(ord)
		}
		for _, v := range fn.FreeVars {
			ord[v] = len(ord)
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if v, ok := ins.(ssa.Value); ok {
					ord[v] = len(ord)
				}
			}
		}
		s.order[fn] = ord
	}
	set := map[ssa.Value]bool{}
	if pc < len(b.Instrs) {
		if v, ok := b.Instrs[pc].(ssa.Value); ok {
			_ = v
		}
	}
	for v := range ord {
		if s.p.liveAfter(b, pc-1, v) {
			set[v] = true
		}
	}
	var out []ssa.Value
	for v := range set {
		out = append(out, v)
	}
	sort.Slice(out, func(i, j int) bool { return ord[out[i]] < ord[out[j]] })
	s.liveAt[k] = out
	return out
}

type skHash [16]byte

func (s *Skel) key(st *skState, prune bool) skHash {
	var sb strings.Builder
	objs, chans := map[int]int{}, map[int]int{}
	var queue []func()
	var val func(v *SV)
	val = func(v *SV) {
		switch v.k {
		case kU:
			sb.WriteByte('u')
		case kNil:
			sb.WriteByte('0')
		case kNonNil:
			sb.WriteByte('1')
		case kTrue:
			sb.WriteByte('t')
		case kFalse:
			sb.WriteByte('f')
		case kInt:
			sb.WriteByte('i')
			sb.WriteString(strconv.Itoa(v.n))
		case kChan:
			id, ok := chans[v.n]
			if !ok {
				id = len(chans) + 1
				chans[v.n] = id
				c := st.chans[v.n]
				queue = append(queue, func() {
					sb.WriteString("|C" + strconv.Itoa(id) + ":")
					sb.WriteString(strconv.Itoa(c.cap))
					if c.closed {
						sb.WriteByte('x')
					}
					for _, b := range c.buf {
						val(b)
						sb.WriteByte(',')
					}
				})
			}
			sb.WriteString("c" + strconv.Itoa(id))
		case kPtr:
			id, ok := objs[v.n]
			if !ok {
				id = len(objs) + 1
				objs[v.n] = id
				if o := st.heap[v.n]; o != nil {
					queue = append(queue, func() {
						sb.WriteString("|O" + strconv.Itoa(id) + ":")
						val(o.val)
					})
				}
			}
			sb.WriteString("p" + strconv.Itoa(id) + "/" + v.path)
		case kClo:
			sb.WriteString("F" + s.fnID(v.fn))
			for _, b := range v.vs {
				val(b)
			}
		case kTup:
			sb.WriteByte('(')
			for _, b := range v.vs {
				val(b)
			}
			sb.WriteByte(')')
		}
		sb.WriteByte(' ')
	}
	for _, p := range st.procs {
		sb.WriteString("\nP")
		if p.panics {
			sb.WriteByte('!')
		}
		if p.isEnv {
			for _, e := range p.env {
				val(&SV{k: kChan, n: e})
			}
			continue
		}
		for i, f := range p.frames {
			sb.WriteString(";" + s.fnID(f.fn) + "@" + strconv.Itoa(f.b.Index) + "." + strconv.Itoa(f.pc))
			if f.deferred {
				sb.WriteByte('d')
			}
			if f.unwind {
				sb.WriteByte('w')
			}
			if f.ondone != nil {
				val(f.ondone)
			}
			pc := f.pc
			if i < len(p.frames)-1 {
				if _, ok := f.b.Instrs[pc].(*ssa.RunDefers); !ok {
					pc++
				}
			}
			for _, v := range s.live(f.b, pc) {
				if r := f.regs[v]; r != nil {
					val(r)
				} else {
					sb.WriteByte('_')
				}
			}
			for _, d := range f.defers {
				sb.WriteString("D" + strconv.Itoa(int(d.ins.Pos())))
				val(d.fn)
				for _, a := range d.args {
					val(a)
				}
			}
		}
	}
	if st.done0 {
		sb.WriteString("\nR")
	}
	drain := func() {
		for len(queue) > 0 {
			q := queue[0]
			queue = queue[1:]
			q()
		}
	}
	drain()
	if len(st.globals) > 0 {
		var gs []*ssa.Global
		for g := range st.globals {
			gs = append(gs, g)
		}
		sort.Slice(gs, func(i, j int) bool { return gs[i].RelString(nil) < gs[j].RelString(nil) })
		for _, g := range gs {
			o := st.heap[st.globals[g]]
			if objs[st.globals[g]] == 0 && (o == nil || o.val.k == kU || o.val.k == kInt && o.val.n == 0) {
				continue
			}
			sb.WriteString("\nG" + s.fnID(g))
			val(&SV{k: kPtr, n: st.globals[g]})
			drain()
		}
	}
	if prune {
		for id := range st.heap {
			if objs[id] == 0 {
				delete(st.heap, id)
			}
		}
		for id := range st.chans {
			if chans[id] == 0 {
				delete(st.chans, id)
			}
		}
		for g, id := range st.globals {
			if objs[id] == 0 {
				delete(st.globals, g)
			}
		}
	}
	if prune && os.Getenv("SKDUMP") != "" {
		fmt.Println("SKSTATE", strings.ReplaceAll(sb.String(), "\n", "~"))
	}
	h := sha256.Sum256([]byte(sb.String()))
	var k skHash
	copy(k[:], h[:])
	return k
}

func (s *Skel) fnID(f ssa.Value) string {
	id, ok := s.ids[f]
	if !ok {
		id = strconv.Itoa(len(s.ids)) + " "
		s.ids[f] = id
	}
	return id
}

// ---- local execution ----

type skOp struct {
	kind  string // send recv close select wait lock env
	ch    *SV
	val   *SV
	obj   *SV
	sel   *ssa.Select
	ins   ssa.Instruction
	rlock bool
}

// op is the visible operation the process stands at; nil if it has ended.
func (s *Skel) op(st *skState, p *skProc) *skOp {
	if p.isEnv {
		if len(p.env) == 0 {
			return nil
		}
		return &skOp{kind: "env", ch: &SV{k: kChan, n: p.env[len(p.env)-1]}}
	}
	if len(p.frames) == 0 {
		return nil
	}
	f := p.frames[len(p.frames)-1]
	if f.unwind || p.panics {
		if n := len(f.defers); n > 0 && f.unwind {
			return s.callOp(st, f, f.defers[n-1].ins, f.defers[n-1].args)
		}
	}
	ins := f.b.Instrs[f.pc]
	switch i := ins.(type) {
	case *ssa.Send:
		return &skOp{kind: "send", ch: s.eval(st, f, i.Chan), val: s.eval(st, f, i.X), ins: ins}
	case *ssa.UnOp:
		if i.Op == token.ARROW {
			return &skOp{kind: "recv", ch: s.eval(st, f, i.X), ins: ins}
		}
	case *ssa.Select:
		return &skOp{kind: "select", sel: i, ins: ins}
	case *ssa.Call:
		var args []*SV
		for _, a := range i.Call.Args {
			args = append(args, s.eval(st, f, a))
		}
		// adding to a wait group inside a goroutine races with the wait
		if p.id != 0 && calleeName(&i.Call) == "(*sync.WaitGroup).Add" && args[1].k == kInt {
			return &skOp{kind: "wgadd", obj: args[0], val: args[1], ins: i}
		}
		return s.callOp(st, f, i, args)
	case *ssa.RunDefers:
		if n := len(f.defers); n > 0 {
			return s.callOp(st, f, f.defers[n-1].ins, f.defers[n-1].args)
		}
	}
	return nil
}

func (s *Skel) callOp(st *skState, f *skFrame, ci ssa.CallInstruction, args []*SV) *skOp {
	switch calleeName(ci.Common()) {
	case "builtin.close":
		return &skOp{kind: "close", ch: args[0], ins: ci}
	case "(*sync.WaitGroup).Wait":
		return &skOp{kind: "wait", obj: args[0], ins: ci}
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock":
		return &skOp{kind: "lock", obj: args[0], ins: ci}
	case "(*sync.RWMutex).RLock":
		return &skOp{kind: "lock", obj: args[0], ins: ci, rlock: true}
	}
	return nil
}

// runLocal advances process id to its next visible operation; every way of doing so is returned.
func (s *Skel) runLocal(st *skState, id int) []*skState {
	var out []*skState
	seen := map[skHash]bool{}
	st.own(id)
	work := []*skState{st}
	for len(work) > 0 {
		st := work[len(work)-1]
		work = work[:len(work)-1]
		for {
			if len(seen) > 60000 {
				s.Over = true
				return out
			}
			p := st.proc(id)
			if p == nil || p.isEnv {
				out = append(out, st)
				break
			}
			if len(p.frames) == 0 || s.op(st, p) != nil {
				s.reap(st)
				out = append(out, st)
				break
			}
			next, more, alive := s.step(st, p)
			if next {
				// entered a block: join equal states
				if f := p.frames[len(p.frames)-1]; alive && len(f.b.Preds) > 1 {
					k := s.key(st, false)
					if seen[k] {
						alive = false
					}
					seen[k] = true
				}
				for _, m := range more {
					k := s.key(m, false)
					if !seen[k] {
						seen[k] = true
						work = append(work, m)
					}
				}
			} else {
				work = append(work, more...)
			}
			if !alive {
				break
			}
		}
	}
	return out
}

// reap removes processes that have ended.
func (s *Skel) reap(st *skState) {
	var ps []*skProc
	for _, p := range st.procs {
		if !p.isEnv && len(p.frames) == 0 {
			if p.id == 0 {
				st.done0 = true
			}
			continue
		}
		if p.isEnv && len(p.env) == 0 {
			continue
		}
		ps = append(ps, p)
	}
	st.procs = ps
}

// step executes one instruction of the process that is no visible operation. It reports whether a block was
// entered, further states, and whether st itself goes on.
func (s *Skel) step(st *skState, p *skProc) (entered bool, more []*skState, alive bool) {
	f := p.frames[len(p.frames)-1]
	s.Fns[f.fn] = true
	if f.unwind {
		if len(f.defers) > 0 {
			return s.runDefer(st, p, f)
		}
		if p.panics {
			// up to the caller
			p.frames = p.frames[:len(p.frames)-1]
			if len(p.frames) == 0 {
				return false, nil, false // the process ends with a panic
			}
			p.frames[len(p.frames)-1].unwind = true
			return false, nil, true
		}
		// recovered
		f.unwind = false
		if f.fn.Recover == nil {
			s.ret(st, p, svU)
			return false, nil, true
		}
		f.b, f.pc = f.fn.Recover, 0
		return true, nil, true
	}
	ins := f.b.Instrs[f.pc]
	set := func(v ssa.Value, x *SV) {
		if s.sl.needed(v) {
			f.regs[v] = s.norm(st, x, v.Type())
		}
	}
	switch i := ins.(type) {
	case *ssa.Phi:
		// evaluated on entry
	case *ssa.Alloc:
		t := types.Unalias(i.Type()).Underlying().(*types.Pointer).Elem()
		cell := s.sl.slotNeeded(s.sl.cell(i))
		if !cell && !s.sl.tracked(t) {
			set(i, svNonNil)
			break
		}
		o := s.newObj(st, t, s.norm(st, zeroSV(t), t))
		st.heap[o.n].cell = cell
		f.regs[i] = o
	case *ssa.MakeChan:
		c := &skChan{site: fnName(f.fn)}
		c.elem = types.Unalias(i.Type()).Underlying().(*types.Chan).Elem()
		if k, ok := i.Size.(*ssa.Const); ok {
			c.cap = int(k.Int64())
			if c.cap > 2 {
				c.cap = 2
			}
		} else {
			c.cap = bigInt // as many as are needed
		}
		st.next++
		st.chans[st.next] = c
		set(i, &SV{k: kChan, n: st.next})
	case *ssa.MakeClosure:
		v := &SV{k: kClo, fn: i.Fn.(*ssa.Function)}
		for _, b := range i.Bindings {
			v.vs = append(v.vs, s.eval(st, f, b))
		}
		set(i, v)
	case *ssa.FieldAddr:
		b := s.eval(st, f, i.X)
		ft := structOf(i.X.Type()).Field(i.Field).Type()
		_ = ft
		if b.k == kU && inScopeStruct(i.X.Type()) && s.sl.trackedField(structOwner(i.X.Type()), i.Field, 0) {
			b = s.materialize(st, f, i.X)
		}
		if b.k == kPtr {
			set(i, &SV{k: kPtr, n: b.n, path: b.path + strconv.Itoa(i.Field) + "."})
		} else {
			set(i, svU)
		}
	case *ssa.Field:
		b := s.eval(st, f, i.X)
		if b.k == kTup && i.Field < len(b.vs) {
			set(i, b.vs[i.Field])
		} else {
			set(i, svU)
		}
	case *ssa.Store:
		if a := s.eval(st, f, i.Addr); a.k == kPtr {
			if s.sl.slotNeeded(s.sl.cell(i.Addr)) || s.sl.tracked(i.Val.Type()) {
				st.storePtr(a, s.norm(st, s.eval(st, f, i.Val), i.Val.Type()))
			}
		}
	case *ssa.UnOp:
		x := s.eval(st, f, i.X)
		switch i.Op {
		case token.MUL:
			if x.k == kPtr {
				set(i, st.loadPtr(x))
			} else {
				set(i, svU)
			}
		case token.NOT:
			switch x.k {
			case kTrue:
				set(i, svFalse)
			case kFalse:
				set(i, svTrue)
			default:
				set(i, svU)
			}
		default:
			set(i, svU)
		}
	case *ssa.BinOp:
		if more, ok := s.countChoice(st, p, f, i); ok {
			return false, more, false
		}
		set(i, s.binop(st, f, i))
	case *ssa.ChangeType:
		set(i, s.eval(st, f, i.X))
	case *ssa.ChangeInterface:
		set(i, s.eval(st, f, i.X))
	case *ssa.Convert:
		set(i, s.eval(st, f, i.X))
	case *ssa.MakeInterface:
		x := s.eval(st, f, i.X)
		switch x.k {
		case kPtr, kClo, kChan:
			set(i, x)
		default:
			set(i, svNonNil)
		}
	case *ssa.TypeAssert:
		x := s.eval(st, f, i.X)
		if x.k != kPtr {
			x = svU
		}
		if i.CommaOk {
			set(i, &SV{k: kTup, vs: []*SV{x, svU}})
		} else {
			set(i, x)
		}
	case *ssa.Extract:
		x := s.eval(st, f, i.Tuple)
		if x.k == kTup && i.Index < len(x.vs) {
			set(i, x.vs[i.Index])
		} else {
			set(i, svU)
		}
	case *ssa.Go:
		fnv, args, callee := s.callee(st, f, &i.Call)
		if callee != nil && s.relevant(callee) {
			n := 0
			for _, q := range st.procs {
				if q.site == ssa.Instruction(i) {
					n++
				}
			}
			if n >= 2 {
				return false, nil, false // two of a kind stand for all
			}
			st.next++
			q := &skProc{id: st.next, site: i}
			st.procs = append(st.procs, q)
			s.push(q, callee, fnv, args)
			f.pc++
			// bring it to its first operation
			var out []*skState
			for _, m := range s.runLocal(st.clone(), q.id) {
				m.own(p.id)
				out = append(out, m)
			}
			return false, out, false
		}
	case *ssa.Defer:
		fnv, args, callee := s.callee(st, f, &i.Call)
		if fnv == nil {
			fnv = svU
		}
		_ = callee
		f.defers = append(f.defers, skDefer{i, fnv, args})
	case *ssa.RunDefers:
		if len(f.defers) > 0 {
			return s.runDefer(st, p, f)
		}
	case *ssa.Call:
		return s.call(st, p, f, i)
	case *ssa.Panic:
		return s.raise(st, p)
	case *ssa.Return:
		var v *SV
		if len(i.Results) == 1 {
			v = s.eval(st, f, i.Results[0])
		} else {
			v = &SV{k: kTup}
			for _, r := range i.Results {
				v.vs = append(v.vs, s.eval(st, f, r))
			}
		}
		s.ret(st, p, v)
		return false, nil, true
	case *ssa.Jump:
		s.enter(st, f, f.b.Succs[0])
		return true, nil, true
	case *ssa.If:
		if !s.sl.essIf[f.b] {
			j := s.sl.skip(f.b)
			s.enter(st, f, j)
			return true, nil, true
		}
		c := s.eval(st, f, i.Cond)
		switch c.k {
		case kTrue:
			s.enter(st, f, f.b.Succs[0])
			return true, nil, true
		case kFalse:
			s.enter(st, f, f.b.Succs[1])
			return true, nil, true
		}
		o := st.clone()
		of := o.own(p.id).frames[len(p.frames)-1]
		s.refine(o, of, i.Cond, false, 0)
		s.enter(o, of, of.b.Succs[1])
		s.refine(st, f, i.Cond, true, 0)
		s.enter(st, f, f.b.Succs[0])
		return true, []*skState{o}, true
	case ssa.Value:
		set(i, svU)
	}
	f.pc++
	return false, nil, true
}

func inScopeStruct(t types.Type) bool {
	n := namedOf(t)
	return n != nil && n.Obj().Pkg() != nil && inScopePkg(n.Obj().Pkg().Path())
}

// materialize gives a pointer whose target is not known an object of its own.
func (s *Skel) materialize(st *skState, f *skFrame, v ssa.Value) *SV {
	pt, ok := types.Unalias(v.Type()).Underlying().(*types.Pointer)
	if !ok {
		return svU
	}
	o := s.newObj(st, pt.Elem(), svU)
	s.assign(st, f, v, o)
	return o
}

// assign sets a register and the variable it was read from.
func (s *Skel) assign(st *skState, f *skFrame, v ssa.Value, x *SV) {
	if !s.sl.needed(v) {
		return
	}
	f.regs[v] = x
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		if a := s.eval(st, f, u.X); a.k == kPtr && st.loadPtr(a).k == kU {
			st.storePtr(a, x)
		}
	}
}

func (s *Skel) enter(st *skState, f *skFrame, b *ssa.BasicBlock) {
	var vals []*SV
	n := 0
	for _, ins := range b.Instrs {
		phi, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		n++
		v := svU
		for j, pr := range b.Preds {
			if pr == f.b {
				v = s.eval(st, f, phi.Edges[j])
			}
		}
		if phi.Comment == "rangeindex" || !s.sl.needed(phi) {
			v = svU
		}
		vals = append(vals, v)
	}
	for j := 0; j < n; j++ {
		f.regs[b.Instrs[j].(*ssa.Phi)] = vals[j]
	}
	f.b, f.pc = b, n
	// forget what is dead
	live := map[ssa.Value]bool{}
	for _, v := range s.live(b, n) {
		live[v] = true
	}
	for v := range f.regs {
		if !live[v] {
			delete(f.regs, v)
		}
	}
}

func (s *Skel) refine(st *skState, f *skFrame, v ssa.Value, truth bool, d int) {
	if d > 4 {
		return
	}
	if _, ok := v.(*ssa.Const); ok {
		return
	}
	if s.eval(st, f, v).k == kU {
		s.assign(st, f, v, svBool(truth))
	}
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			s.refine(st, f, x.X, !truth, d+1)
		}
	case *ssa.BinOp:
		if x.Op != token.EQL && x.Op != token.NEQ {
			return
		}
		o := x.X
		k, ok := x.Y.(*ssa.Const)
		if !ok {
			o = x.Y
			k, ok = x.X.(*ssa.Const)
		}
		if !ok || !k.IsNil() || s.eval(st, f, o).k != kU {
			return
		}
		if truth == (x.Op == token.EQL) {
			s.assign(st, f, o, svNil)
		} else {
			s.assign(st, f, o, svNonNil)
		}
	}
}

func (s *Skel) binop(st *skState, f *skFrame, i *ssa.BinOp) *SV {
	a, b := s.eval(st, f, i.X), s.eval(st, f, i.Y)
	isnil := func(v *SV) (bool, bool) {
		switch v.k {
		case kNil:
			return true, true
		case kNonNil, kPtr, kClo, kChan:
			return false, true
		}
		return false, false
	}
	switch i.Op {
	case token.EQL, token.NEQ:
		eq := i.Op == token.EQL
		na, ka := isnil(a)
		nb, kb := isnil(b)
		if ka && kb && (na || nb) {
			return svBool((na == nb) == eq)
		}
		if a.k == kInt && b.k == kInt && !(a.n == bigInt && b.n == bigInt) {
			return svBool((a.n == b.n) == eq)
		}
		if (a.k == kTrue || a.k == kFalse) && (b.k == kTrue || b.k == kFalse) {
			return svBool((a.k == b.k) == eq)
		}
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if a.k == kInt && b.k == kInt && !(a.n == bigInt && b.n == bigInt) {
			switch i.Op {
			case token.LSS:
				return svBool(a.n < b.n)
			case token.LEQ:
				return svBool(a.n <= b.n)
			case token.GTR:
				return svBool(a.n > b.n)
			}
			return svBool(a.n >= b.n)
		}
	case token.ADD:
		if a.k == kInt && b.k == kInt && b.n >= 0 {
			return svInt(a.n + b.n)
		}
	case token.SUB:
		if a.k == kInt && b.k == kInt && a.n < bigInt && b.n < bigInt {
			return svInt(a.n - b.n)
		}
	}
	return svU
}

// countChoice: a number that is compared with a count and was read from a known place gets a small value.
func (s *Skel) countChoice(st *skState, p *skProc, f *skFrame, i *ssa.BinOp) ([]*skState, bool) {
	switch i.Op {
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
	default:
		return nil, false
	}
	a, b := s.eval(st, f, i.X), s.eval(st, f, i.Y)
	v := i.Y
	if b.k == kInt {
		a, b = b, a
		v = i.X
	}
	if a.k != kInt || b.k != kU {
		return nil, false
	}
	return s.choose(st, p, f, v)
}

func (s *Skel) choose(st *skState, p *skProc, f *skFrame, v ssa.Value) ([]*skState, bool) {
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return nil, false
	}
	if at := s.eval(st, f, u.X); at.k != kPtr || st.loadPtr(at).k != kU {
		return nil, false
	}
	var out []*skState
	for n := 1; n <= 2; n++ {
		o := st.clone()
		s.assign(o, o.own(p.id).frames[len(p.frames)-1], v, svInt(n))
		out = append(out, o)
	}
	return out, true
}

// callee resolves the called function and its arguments.
func (s *Skel) callee(st *skState, f *skFrame, c *ssa.CallCommon) (fnv *SV, args []*SV, fn *ssa.Function) {
	for _, a := range c.Args {
		args = append(args, s.eval(st, f, a))
	}
	if c.IsInvoke() {
		return nil, append([]*SV{s.eval(st, f, c.Value)}, args...), nil
	}
	if _, ok := c.Value.(*ssa.Builtin); ok {
		return nil, args, nil
	}
	fnv = s.eval(st, f, c.Value)
	if fnv.k == kClo {
		return fnv, args, fnv.fn
	}
	return fnv, args, nil
}

func (s *Skel) push(p *skProc, fn *ssa.Function, fnv *SV, args []*SV) *skFrame {
	g := &skFrame{fn: fn, b: fn.Blocks[0], regs: map[ssa.Value]*SV{}}
	for j, a := range args {
		if j < len(fn.Params) {
			g.regs[fn.Params[j]] = a
		}
	}
	if fnv != nil {
		for j, b := range fnv.vs {
			if j < len(fn.FreeVars) {
				g.regs[fn.FreeVars[j]] = b
			}
		}
	}
	p.frames = append(p.frames, g)
	return g
}

func (s *Skel) call(st *skState, p *skProc, f *skFrame, i *ssa.Call) (bool, []*skState, bool) {
	fnv, args, fn := s.callee(st, f, &i.Call)
	name := calleeName(&i.Call)
	if fn != nil {
		name = fn.RelString(nil)
	}
	if name == "(*sync.Once).Do" && len(args) == 2 {
		var done bool
		if fnv, done = s.once(st, args); done {
			f.pc++
			return false, nil, true
		}
		fn, args = fnv.fn, nil
		name = fn.RelString(nil)
	}
	if v, more, alive, handled := s.special(st, p, f, i, name, args, i.Call.Args); handled {
		if !alive || more != nil {
			return false, more, false
		}
		if s.sl.needed(i) {
			f.regs[i] = v
		}
		f.pc++
		return false, nil, true
	}
	if neverReturns(name) || fn != nil && inScopePkg(fnPkgPath(fn)) && alwaysPanics(fn) {
		if strings.HasPrefix(name, "os.") || strings.HasPrefix(name, "log.F") {
			return false, nil, false
		}
		return s.raise(st, p)
	}
	if fn != nil && s.relevant(fn) && len(p.frames) < 14 {
		n := 0
		for _, g := range p.frames {
			if g.fn == fn {
				n++
			}
		}
		if n < 2 {
			s.push(p, fn, fnv, args)
			return true, nil, true
		}
	}
	s.havoc(st, fnv, args)
	if s.sl.needed(i) {
		f.regs[i] = s.result(fn, i.Call.Signature())
	}
	f.pc++
	return false, nil, true
}

// once: the function that once.Do is to run; done if it ran before or is not known.
func (s *Skel) once(st *skState, args []*SV) (*SV, bool) {
	if args[1].k != kClo {
		return nil, true
	}
	if args[0].k == kPtr {
		if c := st.loadPtr(args[0]); c.k == kInt {
			if c.n != 0 {
				return nil, true
			}
			st.storePtr(args[0], svInt(1))
		}
	}
	return args[1], false
}

func neverReturns(name string) bool {
	switch name {
	case "os.Exit", "log.Fatal", "log.Fatalf", "log.Fatalln", "log.Panic", "log.Panicf", "log.Panicln":
		return true
	}
	return false
}

// result is what a call that is not followed gives.
func (s *Skel) result(fn *ssa.Function, sig *types.Signature) *SV {
	one := func(j int) *SV {
		if fn != nil && isErrType(sig.Results().At(j).Type()) && alwaysNil(fn, j, nil) {
			return svNil
		}
		return svU
	}
	switch sig.Results().Len() {
	case 0:
		return svU
	case 1:
		return one(0)
	}
	v := &SV{k: kTup}
	for j := 0; j < sig.Results().Len(); j++ {
		v.vs = append(v.vs, one(j))
	}
	return v
}

// havoc: code that is not followed may change the flags, counts and errors its arguments lead to.
func (s *Skel) havoc(st *skState, fnv *SV, args []*SV) {
	var leaf func(v *SV, t types.Type) *SV
	leaf = func(v *SV, t types.Type) *SV {
		switch v.k {
		case kTup:
			u, ok := types.Unalias(t).Underlying().(*types.Struct)
			if !ok {
				return v
			}
			n := &SV{k: kTup}
			for i, x := range v.vs {
				n.vs = append(n.vs, leaf(x, u.Field(i).Type()))
			}
			return n
		case kTrue, kFalse, kNonNil, kInt, kNil:
			if isSync(t) {
				return v
			}
			if _, ok := types.Unalias(t).Underlying().(*types.Chan); ok {
				return v
			}
			return svU
		}
		return v
	}
	if fnv != nil && fnv.fn != nil {
		for j, b := range fnv.vs {
			if b.k == kPtr && j < len(fnv.fn.FreeVars) && writesVar(fnv.fn, j) {
				if o := st.heap[b.n]; o != nil {
					st.setObj(b.n, leaf(o.val, o.typ))
				}
			}
		}
	}
	for _, a := range args {
		if a.k == kPtr && a.path == "" {
			if o := st.heap[a.n]; o != nil {
				st.setObj(a.n, leaf(o.val, o.typ))
			}
		}
	}
}

// special: synchronisation that is no visible operation, and builtins.
func (s *Skel) special(st *skState, p *skProc, f *skFrame, ci ssa.CallInstruction, name string, args []*SV, argv []ssa.Value) (v *SV, more []*skState, alive bool, handled bool) {
	wg := func(d int) {
		if args[0].k == kPtr {
			c := st.loadPtr(args[0])
			if c.k == kInt {
				if c.n+d < 0 {
					s.violate("C09", st, p, ci, "negative wait group", "the counter of a wait group can become negative, which ends the process")
					return
				}
				if !(c.n == bigInt && d < 0) {
					st.storePtr(args[0], svInt(c.n+d))
				} else {
					st.storePtr(args[0], svU)
				}
			}
		}
	}
	switch name {
	case "(*sync.WaitGroup).Add":
		switch args[1].k {
		case kInt:
			wg(args[1].n)
		default:
			if m, ok := s.choose(st, p, f, argv[1]); ok {
				return nil, m, false, true
			}
			if args[0].k == kPtr {
				st.storePtr(args[0], svU)
			}
		}
	case "(*sync.WaitGroup).Done":
		wg(-1)
	case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock":
		if args[0].k == kPtr {
			st.storePtr(args[0], svInt(0))
		}
	case "(*sync.RWMutex).RUnlock":
		if args[0].k == kPtr {
			if c := st.loadPtr(args[0]); c.k == kInt && c.n < 0 {
				st.storePtr(args[0], svInt(c.n+1))
			}
		}
	case "builtin.recover":
		if p.panics && len(p.frames) > 1 && f.deferred {
			p.panics = false
			return svNonNil, nil, true, true
		}
		return svNil, nil, true, true
	default:
		if strings.HasPrefix(name, "builtin.") {
			return svU, nil, true, true
		}
		return nil, nil, true, false
	}
	return svU, nil, true, true
}

func (s *Skel) runDefer(st *skState, p *skProc, f *skFrame) (bool, []*skState, bool) {
	d := f.defers[len(f.defers)-1]
	f.defers = f.defers[:len(f.defers)-1]
	name := calleeName(&d.ins.Call)
	if d.fn.fn != nil {
		name = d.fn.fn.RelString(nil)
	}
	if name == "(*sync.Once).Do" && len(d.args) == 2 {
		fnv, done := s.once(st, d.args)
		if done {
			return false, nil, true
		}
		d.fn, d.args = fnv, nil
		name = fnv.fn.RelString(nil)
	}
	if _, _, _, handled := s.special(st, p, f, d.ins, name, d.args, d.ins.Call.Args); handled {
		return false, nil, true
	}
	if fn := d.fn.fn; fn != nil && fn.Blocks != nil && inScopePkg(fnPkgPath(fn)) && (s.relevant(fn) || recovers(s.p, fn)) {
		g := s.push(p, fn, d.fn, d.args)
		g.deferred = true
		return true, nil, true
	}
	s.havoc(st, d.fn, d.args)
	return false, nil, true
}

func recovers(p *Prog, fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			if c, ok := ins.(*ssa.Call); ok && calleeName(&c.Call) == "builtin.recover" {
				return true
			}
		}
	}
	return false
}

func (s *Skel) raise(st *skState, p *skProc) (bool, []*skState, bool) {
	caught := false
	for _, g := range p.frames {
		for _, d := range g.defers {
			if d.fn.fn != nil && recovers(s.p, d.fn.fn) {
				caught = true
			}
		}
	}
	if !caught {
		return false, nil, false // the process ends with a panic
	}
	p.panics = true
	f := p.frames[len(p.frames)-1]
	f.unwind = true
	return false, nil, true
}

// ret leaves the top frame.
func (s *Skel) ret(st *skState, p *skProc, v *SV) {
	f := p.frames[len(p.frames)-1]
	p.frames = p.frames[:len(p.frames)-1]
	if f.ondone != nil {
		if c := st.loadPtr(f.ondone); c.k == kInt {
			st.storePtr(f.ondone, svInt(c.n-1))
		}
	}
	if len(p.frames) == 0 {
		if p.id == 0 {
			st.done0 = true
			// channels it gives back are the caller's to receive from
			var chans []int
			var find func(v *SV)
			find = func(v *SV) {
				if v != nil && v.k == kChan {
					chans = append(chans, v.n)
				}
				if v != nil && v.k == kTup {
					for _, x := range v.vs {
						find(x)
					}
				}
			}
			find(v)
			for _, id := range chans {
				st.next++
				st.procs = append(st.procs, &skProc{id: st.next, isEnv: true, env: []int{id}})
			}
		}
		return
	}
	up := p.frames[len(p.frames)-1]
	if f.deferred {
		return // the frame below goes on with its next deferred call
	}
	ins := up.b.Instrs[up.pc]
	if c, ok := ins.(*ssa.Call); ok && s.sl.needed(c) {
		up.regs[c] = v
	}
	up.pc++
}

// ---- visible operations ----

// advance moves past the visible operation the process stands at, with its result.
func (s *Skel) advance(st *skState, p *skProc, res *SV) {
	f := p.frames[len(p.frames)-1]
	if f.unwind {
		f.defers = f.defers[:len(f.defers)-1]
		return
	}
	ins := f.b.Instrs[f.pc]
	if _, ok := ins.(*ssa.RunDefers); ok {
		f.defers = f.defers[:len(f.defers)-1]
		return
	}
	if v, ok := ins.(ssa.Value); ok && res != nil && s.sl.needed(v) {
		f.regs[v] = res
	}
	f.pc++
}

func (s *Skel) recvVal(op *skOp, v *SV, ok bool) *SV {
	if u, is := op.ins.(*ssa.UnOp); is && u.CommaOk {
		return &SV{k: kTup, vs: []*SV{v, svBool(ok)}}
	}
	return v
}

// selRes is the result of a select statement that took case i.
func selRes(sel *ssa.Select, i int, v *SV, ok bool) *SV {
	r := &SV{k: kTup, vs: []*SV{svInt(i), svBool(ok)}}
	if i > bigInt {
		r.vs[0] = svU
	}
	for j, c := range sel.States {
		if c.Dir == types.RecvOnly {
			if j == i {
				r.vs = append(r.vs, v)
			} else {
				r.vs = append(r.vs, svU)
			}
		}
	}
	return r
}

type skRecv struct {
	p   int
	cas int // -1: plain receive
}

// receivers stand at a receive from the channel.
func (s *Skel) receivers(st *skState, ch int, not int) (out []skRecv) {
	for _, q := range st.procs {
		if q.id == not {
			continue
		}
		o := s.op(st, q)
		if o == nil {
			continue
		}
		switch o.kind {
		case "recv", "env":
			if o.ch.k == kChan && o.ch.n == ch {
				out = append(out, skRecv{q.id, -1})
			}
		case "select":
			f := q.frames[len(q.frames)-1]
			for j, c := range o.sel.States {
				if v := s.eval(st, f, c.Chan); c.Dir == types.RecvOnly && v.k == kChan && v.n == ch {
					out = append(out, skRecv{q.id, j})
				}
			}
		}
	}
	return
}

func (s *Skel) deliver(st *skState, r skRecv, v *SV, ok bool) {
	q := st.own(r.p)
	if q.isEnv {
		if !ok {
			q.env = q.env[:len(q.env)-1]
			return
		}
		var chans func(v *SV)
		chans = func(v *SV) {
			switch v.k {
			case kChan:
				q.env = append(q.env, v.n)
			case kTup:
				for i := len(v.vs) - 1; i >= 0; i-- {
					chans(v.vs[i])
				}
			}
		}
		chans(v)
		return
	}
	o := s.op(st, q)
	if r.cas >= 0 {
		s.advance(st, q, selRes(o.sel, r.cas, v, ok))
	} else {
		s.advance(st, q, s.recvVal(o, v, ok))
	}
}

// next gives all states after one visible operation.
func (s *Skel) next(st *skState, only int) (out []*skState, enabled bool) {
	add := func(n *skState, label *skTrace, ids ...int) {
		label.up = st.from
		n.from = label
		states := []*skState{n}
		for _, id := range ids {
			var all []*skState
			for _, x := range states {
				all = append(all, s.runLocal(x, id)...)
			}
			states = all
		}
		for _, x := range states {
			x.from = label
			s.reap(x)
			out = append(out, x)
		}
		enabled = true
	}
	send := func(p *skProc, ch, v *SV, ins ssa.Instruction, res *SV) {
		if ch.k == kU {
			s.Unknowns[ins] = true
			n := st.clone()
			s.advance(n, n.own(p.id), res)
			add(n, s.at("send", p, ins), p.id)
			return
		}
		if ch.k != kChan {
			return
		}
		c := st.chans[ch.n]
		if c.closed {
			s.violate("C09", st, p, ins, "send on closed", "a value can be sent on a channel of "+chanDesc(c)+" that is already closed")
			enabled = true
			return
		}
		if c.cap > 0 {
			if len(c.buf) < c.cap {
				n := st.clone()
				c := n.ownChan(ch.n)
				c.buf = append(c.buf, v)
				s.advance(n, n.own(p.id), res)
				add(n, s.at("send", p, ins), p.id)
			} else if c.cap == bigInt { // room for all; no more are told apart
				n := st.clone()
				s.advance(n, n.own(p.id), res)
				add(n, s.at("send", p, ins), p.id)
			}
			return
		}
		for _, r := range s.receivers(st, ch.n, p.id) {
			n := st.clone()
			s.advance(n, n.own(p.id), res)
			s.deliver(n, r, v, true)
			add(n, s.at("send", p, ins), p.id, r.p)
		}
	}
	recv := func(p *skProc, r skRecv, ch *SV, ins ssa.Instruction) {
		if ch.k == kU {
			s.Unknowns[ins] = true
			for _, ok := range []bool{true, false} {
				n := st.clone()
				s.deliver(n, r, svU, ok)
				add(n, s.at("receive", p, ins), p.id)
			}
			return
		}
		if ch.k != kChan {
			return
		}
		c := st.chans[ch.n]
		if len(c.buf) > 0 {
			n := st.clone()
			v := c.buf[0]
			nc := n.ownChan(ch.n)
			nc.buf = nc.buf[1:]
			s.deliver(n, r, v, true)
			add(n, s.at("receive", p, ins), p.id)
		} else if c.closed {
			n := st.clone()
			s.deliver(n, r, zeroSV(c.elem), false)
			add(n, s.at("receive (closed)", p, ins), p.id)
		}
	}
	for pi, p := range st.procs {
		if only >= 0 && pi != only {
			continue
		}
		o := s.op(st, p)
		if o == nil {
			continue
		}
		if o.ins != nil {
			s.Ops[o.ins] = true
		}
		switch o.kind {
		case "send":
			send(p, o.ch, o.val, o.ins, nil)
		case "recv", "env":
			recv(p, skRecv{p.id, -1}, o.ch, o.ins)
		case "select":
			f := p.frames[len(p.frames)-1]
			was := len(out)
			wasEn := enabled
			enabled = false
			for j, c := range o.sel.States {
				ch := s.eval(st, f, c.Chan)
				if c.Dir == types.RecvOnly {
					recv(p, skRecv{p.id, j}, ch, o.ins)
					// a sender offers the value in its own turn
				} else {
					send(p, ch, s.eval(st, f, c.Send), o.ins, selRes(o.sel, j, svU, false))
				}
			}
			ready := enabled || len(out) > was
			if !ready {
				for _, c := range o.sel.States {
					if ch := s.eval(st, f, c.Chan); c.Dir == types.RecvOnly && ch.k == kChan && s.hasSender(st, ch.n, p.id) {
						ready = true
					}
				}
			}
			enabled = enabled || wasEn
			if !o.sel.Blocking && !ready {
				n := st.clone()
				r := selRes(o.sel, -1, svU, false)
				s.advance(n, n.own(p.id), r)
				add(n, s.at("select default", p, o.ins), p.id)
			}
		case "close":
			switch o.ch.k {
			case kChan:
				c := st.chans[o.ch.n]
				if c.closed {
					s.violate("C09", st, p, o.ins, "closed twice", "a channel of "+chanDesc(c)+" can be closed a second time")
					enabled = true
					continue
				}
				n := st.clone()
				n.ownChan(o.ch.n).closed = true
				s.advance(n, n.own(p.id), nil)
				add(n, s.at("close", p, o.ins), p.id)
			case kNil:
				s.violate("C09", st, p, o.ins, "close of nil", "a nil channel can be closed")
				enabled = true
			default:
				s.Unknowns[o.ins] = true
				n := st.clone()
				s.advance(n, n.own(p.id), nil)
				add(n, s.at("close", p, o.ins), p.id)
			}
		case "wait":
			ok := true
			if o.obj.k == kPtr {
				c := st.loadPtr(o.obj)
				switch c.k {
				case kInt:
					ok = c.n == 0
				default:
					// as many as were added: wait for those that can still signal it
					for _, q := range st.procs {
						if q.id != p.id && !q.isEnv && s.reaches(st, q, o.obj.n) {
							ok = false
						}
					}
				}
			}
			if ok {
				n := st.clone()
				s.advance(n, n.own(p.id), nil)
				add(n, s.at("wait", p, o.ins), p.id)
			}
		case "wgadd":
			n := st.clone()
			np := n.own(p.id)
			nf := np.frames[len(np.frames)-1]
			ci := o.ins.(ssa.CallInstruction)
			s.special(n, np, nf, ci, "(*sync.WaitGroup).Add", []*SV{o.obj, o.val}, ci.Common().Args)
			s.advance(n, np, nil)
			add(n, s.at("add to wait group", p, o.ins), p.id)
		case "lock":
			ok := true
			if o.obj.k == kPtr {
				c := st.loadPtr(o.obj)
				ok = c.k != kInt || c.n == 0 || o.rlock && c.n < 0
			}
			if ok {
				n := st.clone()
				if o.obj.k == kPtr {
					if o.rlock {
						d := 0
						if c := st.loadPtr(o.obj); c.k == kInt {
							d = c.n
						}
						if d > -2 {
							d--
						}
						n.storePtr(o.obj, svInt(d))
					} else {
						n.storePtr(o.obj, svInt(1))
					}
				}
				s.advance(n, n.own(p.id), nil)
				add(n, s.at("lock", p, o.ins), p.id)
			}
		}
	}
	return
}

func (s *Skel) hasSender(st *skState, ch int, not int) bool {
	for _, q := range st.procs {
		if q.id == not {
			continue
		}
		if o := s.op(st, q); o != nil && o.kind == "send" && o.ch.k == kChan && o.ch.n == ch {
			return true
		}
	}
	return false
}

// reaches: the process refers to the object.
func (s *Skel) reaches(st *skState, p *skProc, obj int) bool {
	seen := map[int]bool{}
	var val func(v *SV) bool
	val = func(v *SV) bool {
		if v == nil {
			return false
		}
		if v.k == kPtr {
			if v.n == obj {
				return true
			}
			if !seen[v.n] {
				seen[v.n] = true
				if o := st.heap[v.n]; o != nil && val(o.val) {
					return true
				}
			}
		}
		for _, x := range v.vs {
			if val(x) {
				return true
			}
		}
		return false
	}
	for _, f := range p.frames {
		for _, v := range f.regs {
			if val(v) {
				return true
			}
		}
		for _, d := range f.defers {
			if val(d.fn) {
				return true
			}
			for _, a := range d.args {
				if val(a) {
					return true
				}
			}
		}
	}
	return false
}

func chanDesc(c *skChan) string {
	return strings.ReplaceAll(types.TypeString(c.elem, nil), modPath+"/", "")
}

func (s *Skel) at(what string, p *skProc, ins ssa.Instruction) *skTrace {
	return &skTrace{what: what, env: p.isEnv, site: p.site, ins: ins}
}

func (s *Skel) describe(t *skTrace) string {
	who := "call"
	if t.env {
		who = "caller"
	} else if t.site != nil {
		who = "goroutine started at " + s.p.Pos(instrPos(t.site))
	}
	if t.ins == nil {
		return who + ": " + t.what
	}
	return who + ": " + t.what + " at " + s.p.Pos(instrPos(t.ins))
}

func (s *Skel) violate(prop string, st *skState, p *skProc, ins ssa.Instruction, key, msg string) {
	where := fnName(s.root)
	pos := s.root.Pos()
	if ins != nil {
		where = fnName(ins.Parent())
		pos = instrPos(ins)
	}
	k := key + " in " + where
	if s.viol[prop+k] != nil {
		return
	}
	var trace []string
	for x := st.from; x != nil && len(trace) < 60; x = x.up {
		trace = append([]string{s.describe(x)}, trace...)
	}
	s.viol[prop+k] = &SimViolation{Key: k, Pos: pos, Msg: msg, Trace: trace}
	s.kinds[prop+k] = prop
}

// Run explores the root with a caller that receives from every channel it passed until it is closed.
func (s *Skel) Run() {
	st := &skState{heap: map[int]*skObj{}, chans: map[int]*skChan{}}
	p := &skProc{id: 0}
	st.procs = []*skProc{p}
	var args []*SV
	for _, pa := range s.root.Params {
		switch t := types.Unalias(pa.Type()).Underlying().(type) {
		case *types.Chan:
			st.next++
			st.chans[st.next] = &skChan{elem: t.Elem(), site: "the caller"}
			args = append(args, &SV{k: kChan, n: st.next})
			id := st.next
			st.next++
			st.procs = append(st.procs, &skProc{id: st.next, isEnv: true, env: []int{id}})
		case *types.Pointer:
			if inScopeStruct(pa.Type()) {
				args = append(args, s.newObj(st, t.Elem(), svU))
			} else {
				args = append(args, svU)
			}
		default:
			args = append(args, svU)
		}
	}
	s.push(p, s.root, nil, args)
	for _, x := range s.runLocal(st, 0) {
		s.work = append(s.work, x)
	}
	for len(s.work) > 0 {
		st := s.work[len(s.work)-1]
		s.work = s.work[:len(s.work)-1]
		k := s.key(st, true)
		if s.seen[k] {
			continue
		}
		s.seen[k] = true
		s.States++
		if s.States > s.Max {
			s.Over = true
			return
		}
		var nx []*skState
		enabled := false
		if a := s.ample(st); a >= 0 {
			nx, enabled = s.next(st, a)
			fresh := false
			for _, x := range nx {
				if !s.seen[s.key(x, true)] {
					fresh = true
				}
			}
			if !fresh {
				nx, enabled = s.next(st, -1) // nothing may be put off forever
			}
		} else {
			nx, enabled = s.next(st, -1)
		}
		if !enabled {
			s.terminal(st)
		}
		s.work = append(s.work, nx...)
	}
}

func (s *Skel) terminal(st *skState) {
	if len(st.procs) == 0 {
		return
	}
	done := st.done0
	for _, p := range st.procs {
		o := s.op(st, p)
		switch {
		case p.isEnv:
			if done {
				c := st.chans[p.env[len(p.env)-1]]
				s.violate("C09", st, p, nil, "never closed "+chanDesc(c), fnName(s.root)+" can return without closing the channel of "+chanDesc(c)+" it was given")
			}
		case o == nil:
		case p.id == 0:
			s.violate("C10", st, p, o.ins, "never returns, "+o.kind, fnName(s.root)+" can block forever at this "+o.kind)
		case done:
			s.violate("C10", st, p, o.ins, "left behind at "+o.kind, "a goroutine started by "+fnName(s.root)+" can stay blocked forever at this "+o.kind+" after the call has returned")
		default:
			s.violate("C10", st, p, o.ins, "blocked at "+o.kind, "a goroutine started by "+fnName(s.root)+" can block forever at this "+o.kind)
		}
	}
}

type skAccess struct{}

var _ = fmt.Sprint

// skelRoots: exported library functions whose calls start goroutines or serve channels, and the functions of the
// commands that use them through channels of their own.
func (p *Prog) skelRoots() (out []*ssa.Function) {
	for _, f := range p.Fns {
		if strings.Contains(fnPkgPath(f), "testutil") {
			continue
		}
		if strings.Contains(fnPkgPath(f), "/cmd") {
			mk, start := false, false
			for _, b := range f.Blocks {
				for _, ins := range b.Instrs {
					switch ins.(type) {
					case *ssa.MakeChan:
						mk = true
					case *ssa.Go:
						start = true
					}
				}
			}
			if mk && start {
				out = append(out, f)
			}
			continue
		}
		if f.Parent() == nil && exportedFn(f) && p.transitively(f, isComm) {
			out = append(out, f)
		}
	}
	return
}
