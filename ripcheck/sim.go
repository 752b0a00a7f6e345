package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Frame is one inlined activation, identified by its chain of call sites.
type Frame struct {
	id     int
	fn     *ssa.Function
	parent *Frame
	site   ssa.Instruction
	defr   bool // running as a deferred call
	depth  int
	spawn  bool // root of a goroutine body
}

type frameKey struct {
	p    *Frame
	site ssa.Instruction
	fn   *ssa.Function
	defr bool
}

type envKey struct {
	f *Frame
	v ssa.Value
}

type cell struct {
	addr *Term
	val  *Term
}

type deferRec struct {
	ins  *ssa.Defer
	fn   *Term
	args []*Term
}

type traceNode struct {
	prev *traceNode
	text string
	pos  token.Pos
	n    int
}

type Auto map[string]string

func (a Auto) clone() Auto {
	b := make(Auto, len(a)+1)
	for k, v := range a {
		b[k] = v
	}
	return b
}

type State struct {
	frame  *Frame
	blk    *ssa.BasicBlock
	idx    int
	env    map[envKey]*Term
	mem    map[string]cell
	hv     map[string]string
	facts  factMap
	defers map[*Frame][]deferRec
	auto   Auto
	trace  *traceNode
}

func (s *State) clone() *State {
	n := *s
	n.env = make(map[envKey]*Term, len(s.env)+4)
	for k, v := range s.env {
		n.env[k] = v
	}
	n.mem = make(map[string]cell, len(s.mem)+4)
	for k, v := range s.mem {
		n.mem[k] = v
	}
	n.hv = make(map[string]string, len(s.hv))
	for k, v := range s.hv {
		n.hv[k] = v
	}
	n.facts = make(factMap, len(s.facts)+2)
	for k, v := range s.facts {
		n.facts[k] = v
	}
	n.defers = make(map[*Frame][]deferRec, len(s.defers))
	for k, v := range s.defers {
		n.defers[k] = append([]deferRec(nil), v...)
	}
	n.auto = s.auto.clone()
	return &n
}

type EvKind int

const (
	EvCall     EvKind = iota // opaque call (after its result is defined)
	EvEnter                  // call that is inlined
	EvLeave                  // return from an inlined call
	EvStore                  // *addr = val
	EvMapSet                 // m[k] = v
	EvMapDel                 // delete(m,k)
	EvSend                   // ch <- v
	EvRecv                   // <-ch
	EvClose                  // close(ch)
	EvGo                     // go f(args)
	EvDefer                  // defer f(args)
	EvBranch                 // conditional branch, Cond normalised, Taken its truth
	EvIter                   // loop condition over a collection; Taken: another element
	EvReturn                 // return from the root function
	EvPanic                  // panic
	EvExit                   // os.Exit
	EvLoad                   // *addr
	EvRecLimit               // recursion limit reached
	EvAppend                 // append
	EvLookup                 // map lookup
	EvSlice                  // slice of an array or slice
	EvPre                    // a call that is not followed, before its effects
	EvAlloc                  // an object is made (Rule.WantAlloc)
	EvAdd                    // an addition of WantAdd, Val the operands' sum
)

type Event struct {
	Kind     EvKind
	Ins      ssa.Instruction
	Name     string // callee
	Fn       *ssa.Function
	Args     []*Term
	Res      *Term
	Addr     *Term
	Val      *Term
	Map      *Term
	Key      *Term
	Ch       *Term
	Cond     *Term
	Taken    bool
	Coll     *Term // iterated collection
	IKind    string
	Elem     *Term // element index/key term of the iteration
	Header   *ssa.BasicBlock
	CommaOk  bool
	Deferred bool
}

func (e *Event) Pos() token.Pos {
	if e.Ins == nil {
		return token.NoPos
	}
	return instrPos(e.Ins)
}

// Rule drives a simulation.
type Rule struct {
	Name      string
	OnEvent   func(x *X, e *Event)
	Inline    func(x *X, fn *ssa.Function, call ssa.CallInstruction) bool
	MaxRec    int // how many activations of one function on the stack (default 2)
	MaxState  int
	RecOK     bool       // reaching the recursion limit is fine
	Init      func(x *X) // prepares the initial state
	NoLoads   bool
	WantSlice bool // emit EvSlice
	WantPre   bool // emit EvPre
	// Gen: a function that calls itself; its first activation stands for any, so what it may change is
	// forgotten before and after it.
	Gen       func(x *X, fn *ssa.Function) bool
	WantAlloc bool
	WantAdd   map[ssa.Instruction]bool // additions that EvAdd is emitted for
	// values that are kept for X.Eval after their last use
	Keep map[ssa.Value]bool
}

// X is the context handed to a rule.
type X struct {
	*Sim
	St   *State
	dead bool
	alts []Auto
}

// Split goes on with each of these automaton states instead of the present one (at EvIter only).
func (x *X) Split(a []Auto) { x.alts = a }

func (x *X) Stop()               { x.dead = true }
func (x *X) Get(k string) string { return x.St.auto[k] }
func (x *X) Set(k, v string) {
	if v == "" {
		delete(x.St.auto, k)
	} else {
		x.St.auto[k] = v
	}
}
func (x *X) Fn() *ssa.Function { return x.St.frame.fn }
func (x *X) KnownCond(t *Term) (bool, bool) {
	c, pol := x.ts.Cond(t)
	v, ok := x.ts.Known(c, x.St.facts)
	return v == pol, ok
}
func (x *X) IsNil(t *Term) (bool, bool)   { return x.ts.Known(x.ts.mk("isnil", "", "", t), x.St.facts) }
func (x *X) IsEmpty(t *Term) (bool, bool) { return x.ts.Known(x.ts.mk("empty", "", "", t), x.St.facts) }
func (x *X) Assume(c *Term, v bool) {
	n, pol := x.ts.Cond(c)
	x.addFact(x.St, n, v == pol)
}

// Tag marks the value of t; the mark follows the value through loops.
func (x *X) Tag(name string, t *Term) { x.addFact(x.St, x.ts.mk("tag", name, "", t), true) }
func (x *X) HasTag(name string, t *Term) bool {
	_, ok := x.St.facts[x.ts.mk("tag", name, "", t).key]
	return ok
}
func (x *X) Tagged(name string) (out []*Term) {
	for _, f := range x.St.facts {
		if f.t.Op == "tag" && f.t.S == name {
			out = append(out, f.t.A[0])
		}
	}
	return
}
func (x *X) Untag(name string) {
	for k, f := range x.St.facts {
		if f.t.Op == "tag" && f.t.S == name {
			delete(x.St.facts, k)
		}
	}
}
func (x *X) Retag(name string, t *Term) { x.Untag(name); x.Tag(name, t) }
func (x *X) AssumeNil(t *Term, v bool)  { x.addFact(x.St, x.ts.mk("isnil", "", "", t), v) }

// Load reads the current value of a memory cell.
func (x *X) Load(addr *Term, t types.Type) *Term { return x.load(x.St, addr, t, nil) }

// Fork explores the body of a goroutine from the current state.
func (x *X) Fork(e *Event, auto Auto) {
	fn, binds := x.resolveFn(e.Args0())
	if fn == nil || fn.Blocks == nil {
		return
	}
	st := x.St.clone()
	fr := x.frameFor(x.St.frame, e.Ins, fn, false)
	fr.spawn = true
	x.bindFrame(st, fr, binds, e.Args[1:])
	st.auto = auto
	st.frame = fr
	st.trace = &traceNode{st.trace, "goroutine " + fnName(fn), e.Pos(), tn(st.trace)}
	x.enter(st, fn.Blocks[0], nil)
}

func (e *Event) Args0() *Term { return e.Args[0] }

func tn(t *traceNode) int {
	if t == nil {
		return 1
	}
	return t.n + 1
}

// Violate records a violation at the current point.
func (x *X) Violate(key string, pos token.Pos, msg string) {
	x.violate(x.St, key, pos, msg)
}

type SimViolation struct {
	Key   string
	Pos   token.Pos
	Msg   string
	Trace []string
}

// Sim explores one entry function under a rule.
type Sim struct {
	p         *Prog
	ts        *terms
	rule      *Rule
	root      *Frame
	frames    map[frameKey]*Frame
	nframes   int
	frameByID []*Frame
	instID    map[ssa.Instruction]int
	inst      map[string]envKey
	visited   map[string]bool
	work      []*State
	viol      map[string]*SimViolation
	States    int
	Steps     int
	Inlined   map[*ssa.Function]bool
	Over      bool
	RecHit    string
	phiIn     map[string]map[string]*Term // entry values of opaque phis
	liveAt    map[ssa.Instruction]map[ssa.Value]bool
}

func NewSim(p *Prog, r *Rule) *Sim {
	return &Sim{p: p, ts: &terms{m: map[string]*Term{}}, rule: r, frames: map[frameKey]*Frame{}, instID: map[ssa.Instruction]int{},
		inst: map[string]envKey{}, visited: map[string]bool{}, viol: map[string]*SimViolation{}, Inlined: map[*ssa.Function]bool{},
		phiIn: map[string]map[string]*Term{}, liveAt: map[ssa.Instruction]map[ssa.Value]bool{}}
}

func (s *Sim) violate(st *State, key string, pos token.Pos, msg string) {
	if v := s.viol[key]; v != nil {
		return
	}
	v := &SimViolation{Key: key, Pos: pos, Msg: msg}
	for t := st.trace; t != nil; t = t.prev {
		v.Trace = append(v.Trace, s.p.Pos(t.pos)+": "+t.text)
	}
	for i, j := 0, len(v.Trace)-1; i < j; i, j = i+1, j-1 {
		v.Trace[i], v.Trace[j] = v.Trace[j], v.Trace[i]
	}
	if len(v.Trace) > 60 {
		v.Trace = append([]string{"..."}, v.Trace[len(v.Trace)-60:]...)
	}
	s.viol[key] = v
}

func (s *Sim) frameFor(p *Frame, site ssa.Instruction, fn *ssa.Function, defr bool) *Frame {
	k := frameKey{p, site, fn, defr}
	if f := s.frames[k]; f != nil {
		return f
	}
	f := &Frame{id: s.nframes, fn: fn, parent: p, site: site, defr: defr}
	if p != nil {
		f.depth = p.depth + 1
	}
	s.nframes++
	s.frames[k] = f
	s.frameByID = append(s.frameByID, f)
	s.Inlined[fn] = true
	return f
}

func (s *Sim) id(f *Frame, ins ssa.Instruction) string {
	n, ok := s.instID[ins]
	if !ok {
		n = len(s.instID)
		s.instID[ins] = n
	}
	id := strconv.Itoa(f.id) + "." + strconv.Itoa(n)
	if _, ok := s.inst[id]; !ok {
		v, _ := ins.(ssa.Value)
		_ = v
		s.inst[id] = envKey{f, nil}
		s.instBlk(id, ins)
	}
	return id
}

var instBlkMap = map[*Sim]map[string]ssa.Instruction{}

func (s *Sim) instBlk(id string, ins ssa.Instruction) {
	m := instBlkMap[s]
	if m == nil {
		m = map[string]ssa.Instruction{}
		instBlkMap[s] = m
	}
	m[id] = ins
}

// ParamTerm is the term of the i-th parameter of the root function.
func (s *Sim) ParamTerm(i int) *Term {
	return s.ts.mk("param", strconv.Itoa(i), "")
}

// Run explores fn from its entry; auto is the initial automaton state.
func (s *Sim) Run(fn *ssa.Function, auto Auto) {
	if auto == nil {
		auto = Auto{}
	}
	st := &State{env: map[envKey]*Term{}, mem: map[string]cell{}, hv: map[string]string{}, facts: factMap{}, defers: map[*Frame][]deferRec{}, auto: auto.clone()}
	s.root = s.frameFor(nil, nil, fn, false)
	st.frame = s.root
	for i, p := range fn.Params {
		t := s.ParamTerm(i)
		t.V = p
		st.env[envKey{s.root, p}] = t
	}
	for _, f := range fn.FreeVars {
		t := s.ts.mk("free", f.Name(), "")
		t.V = f
		st.env[envKey{s.root, f}] = t
	}
	if s.rule.Init != nil {
		s.rule.Init(&X{Sim: s, St: st})
	}
	s.enter(st, fn.Blocks[0], nil)
	s.loop()
	delete(instBlkMap, s)
}

func (s *Sim) loop() {
	max := s.rule.MaxState
	if max == 0 {
		max = 200000
	}
	for len(s.work) > 0 {
		st := s.work[len(s.work)-1]
		s.work = s.work[:len(s.work)-1]
		if s.States > max {
			s.Over = true
			return
		}
		if os.Getenv("RIPCHECK_BLK") != "" {
			blkCount[fmt.Sprintf("%s.%d depth %d facts %d mem %d env %d", fnName(st.frame.fn), st.blk.Index, st.frame.depth, len(st.facts)/10*10, len(st.mem)/10*10, len(st.env)/10*10)]++
		}
		s.exec(st)
	}
}

var blkCount = map[string]int{}

func dumpBlk() {
	type kv struct {
		k string
		n int
	}
	var l []kv
	for k, n := range blkCount {
		l = append(l, kv{k, n})
	}
	sort.Slice(l, func(i, j int) bool { return l[i].n > l[j].n })
	for i := 0; i < len(l) && i < 40; i++ {
		fmt.Fprintln(os.Stderr, l[i].n, l[i].k)
	}
}

func (s *Sim) stateKey(st *State) string {
	var lines []string
	for k, v := range st.env {
		lines = append(lines, fmt.Sprintf("e%d.%p=%d", k.f.id, k.v, v.seq))
	}
	for k, c := range st.mem {
		lines = append(lines, "m"+k+"="+strconv.Itoa(c.val.seq))
	}
	for k, v := range st.hv {
		lines = append(lines, "h"+k+"="+v)
	}
	for k, f := range st.facts {
		lines = append(lines, "f"+k+"="+strconv.FormatBool(f.v))
	}
	for f, d := range st.defers {
		var b strings.Builder
		fmt.Fprintf(&b, "d%d:", f.id)
		for _, r := range d {
			fmt.Fprintf(&b, "%p/%d", r.ins, r.fn.seq)
			for _, a := range r.args {
				fmt.Fprintf(&b, ",%d", a.seq)
			}
		}
		lines = append(lines, b.String())
	}
	for k, v := range st.auto {
		lines = append(lines, "a"+k+"="+v)
	}
	sort.Strings(lines)
	return fmt.Sprintf("%d@%d.%d|", st.frame.id, st.blk.Index, st.idx) + strings.Join(lines, "|")
}

func (s *Sim) addFact(st *State, c *Term, v bool) {
	if c.IsConst() {
		return
	}
	st.facts[c.key] = fact{c, v}
}

// ---- block entry: phis, widening, garbage collection, deduplication ----

func (s *Sim) enter(st *State, b *ssa.BasicBlock, from *ssa.BasicBlock) {
	f := st.frame
	li := s.p.Loops(f.fn)
	isBack := from != nil && li.back[[2]int{from.Index, b.Index}]
	var phis []*ssa.Phi
	var incoming []*Term
	if from != nil {
		pi := -1
		for i, p := range b.Preds {
			if p == from {
				pi = i
			}
		}
		for _, ins := range b.Instrs {
			phi, ok := ins.(*ssa.Phi)
			if !ok {
				break
			}
			phis = append(phis, phi)
			incoming = append(incoming, s.eval(st, phi.Edges[pi]))
		}
	}
	type pend struct {
		key    envKey
		term   *Term
		facts  []fact
		opaque bool
	}
	var pends []pend
	for i, phi := range phis {
		in := incoming[i]
		k := envKey{f, phi}
		if _, isHeader := li.header[b]; isHeader && s.phiOpaque(phi, b, li) && !(in.IsConst() && s.counts(st, phi, b, li)) {
			id := s.id(f, phi)
			t := s.ts.mk("phi", "", id)
			t.V = phi
			if !isBack {
				if s.phiIn[id] == nil {
					s.phiIn[id] = map[string]*Term{}
				}
				s.phiIn[id][in.key] = in
			}
			pends = append(pends, pend{k, t, s.transfer(st, in, t), true})
		} else {
			pends = append(pends, pend{k, in, nil, false})
		}
	}
	if isBack {
		s.widen(st, f, b, li.header[b])
	} else if from != nil {
		// leaving loops: nothing to do, values stay valid
	}
	for _, p := range pends {
		st.env[p.key] = p.term
		if p.opaque {
			// facts of an earlier visit of the same phi
			for k, fc := range st.facts {
				if hasID(fc.t, p.term.ID) {
					delete(st.facts, k)
				}
			}
		}
	}
	for _, p := range pends {
		for _, fc := range p.facts {
			st.facts[fc.t.key] = fc
		}
	}
	// drop dead values of this frame
	live := s.p.Live(f.fn).in[b]
	for k := range st.env {
		if k.f == f && !live[k.v] && !s.rule.Keep[k.v] {
			if ph, ok := k.v.(*ssa.Phi); ok && ph.Block() == b {
				continue
			}
			delete(st.env, k)
		}
	}
	s.gc(st)
	st.blk = b
	st.idx = len(phis)
	if from == nil {
		st.idx = 0
	}
	key := s.stateKey(st)
	if s.visited[key] {
		return
	}
	s.visited[key] = true
	s.States++
	s.work = append(s.work, st)
}

func hasID(t *Term, id string) bool {
	i := sort.SearchStrings(t.ids, id)
	return i < len(t.ids) && t.ids[i] == id
}

// maxUnroll: loops over a list written out in the source are followed element by element up to this length.
const maxUnroll = 8

// counts: phi is the index of a loop over a list of known small length.
func (s *Sim) counts(st *State, phi *ssa.Phi, b *ssa.BasicBlock, li *loopInfo) bool {
	for i, e := range phi.Edges {
		if !li.back[[2]int{b.Preds[i].Index, b.Index}] {
			if c, ok := e.(*ssa.Const); !ok || c.Value == nil || c.Value.Kind() != constant.Int {
				return false
			}
			continue
		}
		bo, ok := e.(*ssa.BinOp)
		if !ok || bo.Op != token.ADD || bo.X != ssa.Value(phi) {
			return false
		}
		if c, ok := bo.Y.(*ssa.Const); !ok || c.Value == nil || c.Value.ExactString() != "1" {
			return false
		}
	}
	iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	cmp, ok := iff.Cond.(*ssa.BinOp)
	if !ok || cmp.Op != token.LSS {
		return false
	}
	if cmp.X != ssa.Value(phi) {
		bo, ok := cmp.X.(*ssa.BinOp)
		if !ok || bo.Op != token.ADD || bo.X != ssa.Value(phi) || bo.Block() != b {
			return false
		}
	}
	small := func(t *Term) bool {
		if n, ok := t.Int(); ok {
			return n <= maxUnroll
		}
		n, ok := fixedLen(t)
		return ok && n <= maxUnroll
	}
	body := li.header[b]
	if ins, ok := cmp.Y.(ssa.Instruction); ok && body[ins.Block()] {
		call, ok := cmp.Y.(*ssa.Call)
		if !ok || ins.Block() != b {
			return false
		}
		if bi, ok := call.Call.Value.(*ssa.Builtin); !ok || bi.Name() != "len" {
			return false
		}
		if ins, ok := call.Call.Args[0].(ssa.Instruction); ok && body[ins.Block()] {
			return false
		}
		return small(s.ts.mk("len", "", "", s.eval(st, call.Call.Args[0])))
	}
	return small(s.eval(st, cmp.Y))
}

// phiOpaque: a loop phi is opaque unless everything flowing around the loop into it is constant.
func (s *Sim) phiOpaque(phi *ssa.Phi, b *ssa.BasicBlock, li *loopInfo) bool {
	body := li.header[b]
	seen := map[*ssa.Phi]bool{phi: true}
	var constOnly func(v ssa.Value) bool
	constOnly = func(v ssa.Value) bool {
		switch x := v.(type) {
		case *ssa.Const:
			return true
		case *ssa.Phi:
			if seen[x] {
				return true
			}
			seen[x] = true
			if !body[x.Block()] {
				return true
			}
			for _, e := range x.Edges {
				if !constOnly(e) {
					return false
				}
			}
			return true
		case ssa.Instruction:
			return !body[x.Block()]
		default:
			return true
		}
	}
	for i, e := range phi.Edges {
		if li.back[[2]int{b.Preds[i].Index, b.Index}] && !constOnly(e) {
			return true
		}
	}
	return false
}

// transfer computes facts about to that hold because it currently equals from.
func (s *Sim) transfer(st *State, from, to *Term) []fact {
	var out []fact
	ts := s.ts
	add := func(c *Term, v bool) { out = append(out, fact{c, v}) }
	for _, f := range st.facts {
		if f.t.Op == "tag" && f.v && f.t.A[0] == from {
			add(ts.mk("tag", f.t.S, "", to), true)
		}
	}
	if from.IsConst() {
		switch from.S {
		case "true", "false":
			add(to, from.S == "true")
			return out
		case "nil":
			add(ts.mk("isnil", "", "", to), true)
			return out
		}
		if _, ok := from.Str(); ok {
			add(ts.mk("eq", "", "", to, from), true)
			return out
		}
	}
	if v, ok := ts.Known(from, st.facts); ok && !from.IsConst() {
		add(to, v)
	}
	if v, ok := ts.Known(ts.mk("isnil", "", "", from), st.facts); ok {
		if !from.IsConst() {
			add(ts.mk("isnil", "", "", to), v)
		}
	}
	if v, ok := ts.Known(ts.mk("empty", "", "", from), st.facts); ok && !from.IsConst() {
		add(ts.mk("empty", "", "", to), v)
	}
	for _, f := range st.facts {
		if f.t.Op == "eq" && f.v && f.t.A[0] == from && f.t.A[1].IsConst() {
			if _, ok := f.t.A[1].Str(); ok {
				add(ts.mk("eq", "", "", to, f.t.A[1]), true)
			}
		}
	}
	lo, hi, a, b := ts.bounds(from, st.facts)
	if a && b && lo == hi && lo == 0 {
		add(ts.mk("eq", "", "", to, ts.IntConst(0)), true)
	} else if a && lo >= 1 {
		add(ts.mk("lt", "", "", ts.IntConst(0), to), true)
	} else if a && lo >= 0 {
		add(ts.mk("lt", "", "", to, ts.IntConst(0)), false)
	}
	return out
}

// widen forgets the identity of values produced in the previous iteration of a loop.
func (s *Sim) widen(st *State, f *Frame, h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) {
	inLoop := map[string]bool{}
	check := func(id string) bool {
		if v, ok := inLoop[id]; ok {
			return v
		}
		ins := instBlkMap[s][id]
		fr := s.inst[id].f
		r := false
		if strings.HasPrefix(id, "old:") {
			// widened cells of an inner loop of this body are renamed as well
			r = true
			if i := strings.LastIndexByte(id, '@'); i >= 0 {
				// a value forgotten by a loop outside this body keeps its identity
				var fi, bi int
				if n, err := fmt.Sscanf(id[i+1:], "%d.%d", &fi, &bi); err == nil && n == 2 && fi < len(s.frameByID) {
					g := s.frameByID[fi]
					blk := g.fn.Blocks[bi]
					for g != nil && g != f {
						if g.site == nil {
							g = nil
							break
						}
						blk = g.site.Block()
						g = g.parent
					}
					r = g == f && body[blk]
				}
			}
			inLoop[id] = r
			return r
		}
		for fr != nil && fr != f {
			ins = fr.site
			fr = fr.parent
		}
		if fr == f && ins != nil && body[ins.Block()] {
			r = true
		}
		inLoop[id] = r
		return r
	}
	stale := func(t *Term) bool {
		for _, id := range t.ids {
			if check(id) {
				return true
			}
		}
		return t.depth > maxTermDepth
	}
	arith := func(t *Term) bool { return t.Op == "b" && (t.S == "+" || t.S == "-" || t.S == "*") || t.Op == "app" }
	type upd struct {
		k     string
		c     cell
		facts []fact
	}
	var upds []upd
	for k, c := range st.mem {
		if stale(c.addr) {
			// cell of an object created in the previous iteration
			upds = append(upds, upd{k: k})
			continue
		}
		if stale(c.val) || arith(c.val) {
			nt := s.ts.mk("old", "", fmt.Sprintf("old:%s@%d.%d", k, f.id, h.Index))
			upds = append(upds, upd{k, cell{c.addr, nt}, s.transfer(st, c.val, nt)})
		}
	}
	for _, u := range upds {
		if u.c.addr == nil {
			delete(st.mem, u.k)
			continue
		}
		st.mem[u.k] = u.c
	}
	for k, v := range st.env {
		if k.f != f && stale(v) {
			// values of callers cannot come from inside this loop unless recursive
			nt := s.ts.mk("old", "", fmt.Sprintf("old:e%d.%s@%d.%d", k.f.id, k.v.Name(), f.id, h.Index))
			upds = append(upds, upd{facts: s.transfer(st, v, nt), k: "-"})
			st.env[k] = nt
		}
	}
	for k, fc := range st.facts {
		if stale(fc.t) {
			delete(st.facts, k)
		}
	}
	// what was known about the forgotten values holds for their successors
	for _, u := range upds {
		for _, fc := range u.facts {
			st.facts[fc.t.key] = fc
		}
	}
}

// gc drops facts and cells that nothing reachable mentions.
func (s *Sim) gc(st *State) {
	reach := map[string]bool{}
	markT := func(t *Term) bool {
		ch := false
		for _, id := range t.ids {
			if !reach[id] {
				reach[id] = true
				ch = true
			}
		}
		return ch
	}
	for _, v := range st.env {
		markT(v)
	}
	for _, d := range st.defers {
		for _, r := range d {
			markT(r.fn)
			for _, a := range r.args {
				markT(a)
			}
		}
	}
	done := map[string]bool{}
	for ch := true; ch; {
		ch = false
		for k, c := range st.mem {
			if done[k] {
				continue
			}
			ok := true
			for _, id := range c.addr.ids {
				if !reach[id] {
					ok = false
				}
			}
			if ok {
				done[k] = true
				if markT(c.val) {
					ch = true
				}
				ch = true
			}
		}
	}
	for k := range st.mem {
		if !done[k] {
			delete(st.mem, k)
		}
	}
	// variables changed elsewhere can be read again
	for k, id := range st.hv {
		if strings.HasPrefix(k, "new:") && reach[k[4:]] {
			reach[id] = true
		}
	}
	for k, fc := range st.facts {
		for _, id := range fc.t.ids {
			if !reach[id] {
				delete(st.facts, k)
				break
			}
		}
	}
	for k := range st.hv {
		if strings.HasPrefix(k, "new:") && !reach[k[4:]] || strings.HasPrefix(k, "shared:") && !reach[k[7:]] {
			delete(st.hv, k)
		}
	}
}

// ---- evaluation ----

func (s *Sim) eval(st *State, v ssa.Value) *Term {
	switch x := v.(type) {
	case *ssa.Const:
		return s.ts.Const(x)
	case *ssa.Function:
		t := s.ts.mk("fn", x.RelString(nil), "")
		t.V = x
		return t
	case *ssa.Global:
		t := s.ts.mk("glob", x.RelString(nil), "")
		t.V = x
		return t
	case *ssa.Builtin:
		return s.ts.mk("fn", "builtin."+x.Name(), "")
	}
	if t := st.env[envKey{st.frame, v}]; t != nil {
		return t
	}
	// not tracked (dead on some path); treat as opaque
	return s.ts.mk("top", v.Name(), strconv.Itoa(st.frame.id)+".v"+v.Name())
}

func (x *X) Eval(v ssa.Value) *Term { return x.eval(x.St, v) }

func (s *Sim) load(st *State, addr *Term, t types.Type, ins ssa.Instruction) *Term {
	// overlay of separately stored fields
	overlay := func(base *Term) *Term {
		var names []string
		for _, c := range st.mem {
			if c.addr.Op == "fa" && c.addr.A[0] == addr {
				names = append(names, c.addr.key)
			}
		}
		sort.Strings(names)
		for _, k := range names {
			c := st.mem[k]
			v := c.val
			if _, ok := types.Unalias(fieldType(t, c.addr.S)).Underlying().(*types.Struct); ok {
				v = s.load(st, c.addr, fieldType(t, c.addr.S), ins)
			}
			base = s.ts.SetField(base, c.addr.S, v)
		}
		return base
	}
	isStruct := false
	if t != nil {
		_, isStruct = types.Unalias(t).Underlying().(*types.Struct)
	}
	if c, ok := st.mem[addr.key]; ok {
		if isStruct {
			return overlay(c.val)
		}
		return c.val
	}
	switch addr.Op {
	case "fa":
		base := addr.A[0]
		var v *Term
		if c, ok := st.mem[base.key]; ok {
			v = s.ts.Field(c.val, addr.S)
		} else if base.Op == "fa" {
			inner := s.load(st, base, nil, ins)
			v = s.ts.Field(inner, addr.S)
		} else {
			h := ""
			if addr.T != nil {
				h = st.hv[typeKey(addr.T)+"."+addr.S]
			}
			if h != "" && base.Op != "new" {
				if base.Op == "ia" {
					base = s.ts.mk("el", "", "", base.A[0], base.A[1])
				}
				v = s.ts.mk("f", addr.S, h, base)
			} else {
				v = s.ts.Field(base, addr.S)
			}
		}
		if v.Op == "f" && v.A[0].Op == "zero" && t != nil {
			v = s.ts.Zero(t)
		}
		if isStruct {
			return overlay(v)
		}
		return v
	case "ia":
		if b := addr.A[0]; b.Op == "sl" && b.A[0].Op == "new" && b.A[1] == nil && b.A[2] == nil && addr.A[1].IsConst() {
			if c, ok := st.mem[s.ts.mk("ia", "", "", b.A[0], addr.A[1]).key]; ok {
				return c.val
			}
		}
		return s.ts.mk("el", "", "", addr.A[0], addr.A[1])
	case "glob":
		if h := st.hv["glob:"+addr.S]; h != "" {
			return s.ts.mk("g", addr.S, h)
		}
		g := s.ts.mk("g", addr.S, "")
		g.V = addr.V
		return g
	}
	var base *Term
	if h := st.hv["new:"+addr.ID]; h != "" && addr.Op == "new" {
		base = s.ts.mk("ld", "", h, addr)
	} else {
		base = s.ts.mk("ld", "", "", addr)
	}
	if isStruct {
		return overlay(base)
	}
	return base
}

func fieldType(t types.Type, name string) types.Type {
	st := structOf(t)
	if st != nil {
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == name {
				return st.Field(i).Type()
			}
		}
	}
	return types.Typ[types.Int]
}

func (s *Sim) store(st *State, addr, val *Term) {
	for k, c := range st.mem {
		if k == addr.key {
			continue
		}
		a := c.addr
		under := false
		for a.Op == "fa" || a.Op == "ia" {
			a = a.A[0]
			if a == addr {
				under = true
				break
			}
		}
		if under {
			delete(st.mem, k)
			continue
		}
		if addr.Op == "fa" && c.addr.Op == "fa" && c.addr.S == addr.S && c.addr.T != nil && addr.T != nil && typeKey(c.addr.T) == typeKey(addr.T) {
			if rootOf(c.addr).Op != "new" && rootOf(addr).Op != "new" {
				st.mem[k] = cell{c.addr, s.ts.mk("old", "", "old:alias:"+k)}
			}
		}
	}
	st.mem[addr.key] = cell{addr, val}
}

func rootOf(a *Term) *Term {
	for a.Op == "fa" || a.Op == "ia" {
		a = a.A[0]
	}
	return a
}

// kill forgets values of the previous execution of the same instruction.
func (s *Sim) kill(st *State, id string) {
	for k, c := range st.mem {
		if hasID(c.addr, id) {
			delete(st.mem, k)
			continue
		}
		if hasID(c.val, id) {
			nt := s.ts.mk("old", "", "old:k"+k)
			fs := s.transfer(st, c.val, nt)
			st.mem[k] = cell{c.addr, nt}
			for _, fc := range fs {
				st.facts[fc.t.key] = fc
			}
		}
	}
	for k, v := range st.env {
		if hasID(v, id) {
			nt := s.ts.mk("old", "", fmt.Sprintf("old:ke%d.%s", k.f.id, k.v.Name()))
			fs := s.transfer(st, v, nt)
			st.env[k] = nt
			for _, fc := range fs {
				st.facts[fc.t.key] = fc
			}
		}
	}
	for k, fc := range st.facts {
		if hasID(fc.t, id) {
			delete(st.facts, k)
		}
	}
	delete(st.hv, "new:"+id)
}

// resolveFn finds the function and closure bindings of a callable term.
func (s *Sim) resolveFn(t *Term) (*ssa.Function, []*Term) {
	switch t.Op {
	case "fn":
		f, _ := t.V.(*ssa.Function)
		return f, nil
	case "clo":
		mc := t.V.(*ssa.MakeClosure)
		return mc.Fn.(*ssa.Function), t.A
	}
	return nil, nil
}

func (s *Sim) bindFrame(st *State, fr *Frame, binds, args []*Term) {
	for k := range st.env {
		if k.f == fr {
			delete(st.env, k)
		}
	}
	for i, p := range fr.fn.Params {
		if i < len(args) {
			st.env[envKey{fr, p}] = args[i]
		}
	}
	for i, fv := range fr.fn.FreeVars {
		if i < len(binds) {
			st.env[envKey{fr, fv}] = binds[i]
		}
	}
	delete(st.defers, fr)
}

var pureFns = map[string]bool{
	"path/filepath.Join": true, "path.Join": true, "path/filepath.Base": true, "path/filepath.Dir": true, "path/filepath.Clean": true, "path/filepath.Ext": true, "path.Clean": true,
	"fmt.Sprintf": true, "fmt.Sprint": true, "github.com/cespare/xxhash.Sum64": true, "encoding/hex.EncodeToString": true,
	"(*os.File).Name": true,
}

func isPure(name string) bool {
	if pureFns[name] {
		return true
	}
	return strings.HasPrefix(name, "strings.") && name != "strings.NewReader" && name != "strings.NewReplacer" ||
		strings.HasPrefix(name, "bytes.") && !strings.HasPrefix(name, "bytes.New") && name != "bytes.Clone" ||
		strings.HasPrefix(name, "strconv.") || strings.HasPrefix(name, "slices.Contains") ||
		strings.HasPrefix(name, "(*regexp.Regexp).") || strings.HasPrefix(name, "unicode")
}

// hasMethods: t points to a value of a type of this code that has methods.
func hasMethods(t types.Type) bool {
	pt, ok := types.Unalias(t).Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	n, ok := types.Unalias(pt.Elem()).(*types.Named)
	return ok && n.Obj().Pkg() != nil && inScopePkg(n.Obj().Pkg().Path()) && types.NewMethodSet(t).Len() > 0
}

func noHavoc(name string) bool {
	return isPure(name) || strings.HasPrefix(name, "fmt.") || strings.HasPrefix(name, "errors.") || strings.HasPrefix(name, "sort.") ||
		strings.HasPrefix(name, "(*sync.") || strings.HasPrefix(name, "builtin.") || strings.Contains(name, "logger.Logger)") || strings.HasPrefix(name, "time.") ||
		strings.HasPrefix(name, "(*container/list.") || strings.HasPrefix(name, "(*os.") || strings.HasPrefix(name, "io.Pipe")
}

// exec runs a state to the end of its block or to a branch.
func (s *Sim) exec(st *State) {
	x := &X{Sim: s, St: st}
	emit := func(e *Event) bool {
		if s.rule.OnEvent != nil {
			s.rule.OnEvent(x, e)
		}
		return !x.dead
	}
	for {
		b := st.blk
		if st.idx >= len(b.Instrs) {
			return
		}
		ins := b.Instrs[st.idx]
		f := st.frame
		s.Steps++
		def := func(v ssa.Value, t *Term) { st.env[envKey{f, v}] = t }
		ev := func(v ssa.Value) *Term { return s.eval(st, v) }
		fresh := func(op, aux string, v ssa.Value, a ...*Term) *Term {
			id := s.id(f, ins)
			s.kill(st, id)
			t := s.ts.mk(op, aux, id, a...)
			t.V = v
			return t
		}
		// operands must be re-evaluated after a kill of the same instance
		freshV := func(op, aux string, v ssa.Value, ops ...ssa.Value) *Term {
			id := s.id(f, ins)
			s.kill(st, id)
			var a []*Term
			for _, o := range ops {
				if o == nil {
					a = append(a, nil)
				} else {
					a = append(a, ev(o))
				}
			}
			t := s.ts.mk(op, aux, id, a...)
			t.V = v
			return t
		}
		switch i := ins.(type) {
		case *ssa.DebugRef:
		case *ssa.Phi:
			// entered without a predecessor
		case *ssa.Alloc:
			n := ""
			et := types.Unalias(i.Type()).Underlying().(*types.Pointer).Elem()
			if at, ok := types.Unalias(et).Underlying().(*types.Array); ok {
				n = strconv.FormatInt(at.Len(), 10)
			} else {
				n = typeKey(et)
			}
			t := fresh("new", n, i)
			t.T = i.Type()
			def(i, t)
			if _, ok := types.Unalias(et).Underlying().(*types.Array); !ok {
				st.mem[t.key] = cell{t, s.ts.Zero(et)}
			}
			if s.rule.WantAlloc && !emit(&Event{Kind: EvAlloc, Ins: ins, Res: t}) {
				return
			}
		case *ssa.MakeMap:
			t := fresh("mmap", "", i)
			def(i, t)
			s.addFact(st, s.ts.mk("empty", "", "", t), true)
		case *ssa.MakeSlice:
			def(i, freshV("mslice", "", i, i.Len))
		case *ssa.MakeChan:
			t := freshV("mchan", "", i, i.Size)
			def(i, t)
		case *ssa.MakeClosure:
			id := s.id(f, ins)
			s.kill(st, id)
			var a []*Term
			for _, o := range i.Bindings {
				a = append(a, ev(o))
			}
			t := s.ts.mk("clo", i.Fn.(*ssa.Function).RelString(nil), id, a...)
			t.V = i
			def(i, t)
		case *ssa.MakeInterface:
			t := ev(i.X)
			if t.T == nil && t.Op != "const" {
				t.T = i.X.Type()
			}
			if t.IsConst() && t.S == "nil" {
				// typed nil in an interface is not nil
				t = s.ts.mk("iface", types.TypeString(i.X.Type(), nil), "")
				t.T = i.X.Type()
			}
			def(i, t)
		case *ssa.ChangeType:
			def(i, ev(i.X))
		case *ssa.ChangeInterface:
			def(i, ev(i.X))
		case *ssa.Convert:
			if t := ev(i.X); lossyConv(i) && !t.IsConst() {
				def(i, s.ts.mk("conv", types.TypeString(i.Type(), nil), "", t))
			} else {
				def(i, t)
			}
		case *ssa.MultiConvert:
			def(i, ev(i.X))
		case *ssa.SliceToArrayPointer:
			def(i, ev(i.X))
		case *ssa.TypeAssert:
			t := ev(i.X)
			if i.CommaOk {
				ok := s.ts.mk("isT", types.TypeString(i.AssertedType, nil), "", t)
				def(i, s.ts.mk("tup", "", "", t, ok))
			} else {
				def(i, t)
			}
		case *ssa.FieldAddr:
			base := ev(i.X)
			sty := structOf(i.X.Type())
			t := s.ts.mk("fa", sty.Field(i.Field).Name(), "", base)
			if t.T == nil {
				t.T = i.X.Type()
			}
			def(i, t)
		case *ssa.Field:
			base := ev(i.X)
			sty := structOf(i.X.Type())
			t := s.ts.Field(base, sty.Field(i.Field).Name())
			if t.Op == "f" && t.A[0].Op == "zero" {
				t = s.ts.Zero(i.Type())
			}
			def(i, t)
		case *ssa.IndexAddr:
			if _, ok := types.Unalias(i.X.Type()).Underlying().(*types.Slice); ok {
				if v, ok := s.ts.Known(s.ts.mk("empty", "", "", ev(i.X)), st.facts); ok && v {
					emit(&Event{Kind: EvPanic, Ins: ins, Val: s.ts.mk("top", "index", "")})
					return
				}
			}
			t := s.ts.mk("ia", "", "", ev(i.X), ev(i.Index))
			def(i, t)
		case *ssa.Index:
			def(i, s.ts.mk("el", "", "", ev(i.X), ev(i.Index)))
		case *ssa.Lookup:
			if _, ok := types.Unalias(i.X.Type()).Underlying().(*types.Map); !ok {
				def(i, s.ts.mk("el", "", "", ev(i.X), ev(i.Index)))
				break
			}
			t := freshV("lk", "", i, i.X, i.Index)
			if i.CommaOk {
				ok := s.ts.mk("has", "", t.ID, t.A...)
				def(i, s.ts.mk("tup", "", "", t, ok))
			} else {
				def(i, t)
			}
			if !emit(&Event{Kind: EvLookup, Ins: ins, Map: t.A[0], Key: t.A[1], Res: t}) {
				return
			}
		case *ssa.Range:
			def(i, freshV("rng", "", i, i.X))
		case *ssa.Next:
			r := ev(i.Iter)
			id := s.id(f, ins)
			s.kill(st, id)
			r = ev(i.Iter)
			m := r
			if r.Op == "rng" {
				m = r.A[0]
			}
			ok := s.ts.mk("more", "", id, m)
			k := s.ts.mk("mkey", "", id, m)
			v := s.ts.mk("mval", "", id, m)
			k.V, v.V, ok.V = i, i, i
			def(i, s.ts.mk("tup", "", "", ok, k, v))
		case *ssa.Extract:
			t := ev(i.Tuple)
			if t.Op == "tup" {
				def(i, t.A[i.Index])
			} else {
				def(i, s.ts.mk("x", strconv.Itoa(i.Index), "", t))
			}
		case *ssa.Slice:
			var lo, hi *Term
			if i.Low != nil {
				lo = ev(i.Low)
				if lo.IsConst() && lo.S == "0" {
					lo = nil
				}
			}
			if i.High != nil {
				hi = ev(i.High)
			}
			base := ev(i.X)
			if hi != nil && hi.Op == "len" && hi.A[0] == base {
				hi = nil
			}
			var t *Term
			if lo == nil && hi == nil && i.Max == nil && base.Op != "new" {
				t = base
			} else {
				t = s.ts.mk("sl", "", "", base, lo, hi)
			}
			def(i, t)
			if s.rule.WantSlice && !emit(&Event{Kind: EvSlice, Ins: ins, Args: []*Term{base}, Res: t}) {
				return
			}
		case *ssa.UnOp:
			switch i.Op {
			case token.MUL:
				a := ev(i.X)
				v := s.load(st, a, i.Type(), ins)
				if v.Op == "ld" && v.T == nil {
					v.T = nil
				}
				def(i, v)
				if !s.rule.NoLoads {
					if !emit(&Event{Kind: EvLoad, Ins: ins, Addr: a, Val: v}) {
						return
					}
				}
			case token.ARROW:
				t := freshV("recv", "", i, i.X)
				s.havocShared(st, t.ID)
				if i.CommaOk {
					ok := s.ts.mk("rok", "", t.ID, t.A...)
					def(i, s.ts.mk("tup", "", "", t, ok))
				} else {
					def(i, t)
				}
				if !emit(&Event{Kind: EvRecv, Ins: ins, Ch: t.A[0], Res: t, CommaOk: i.CommaOk}) {
					return
				}
			case token.NOT:
				t := ev(i.X)
				if t.IsConst() {
					def(i, s.ts.Bool(t.S != "true"))
				} else {
					def(i, s.ts.mk("u", "!", "", t))
				}
			default:
				def(i, s.ts.mk("u", i.Op.String(), "", ev(i.X)))
			}
		case *ssa.BinOp:
			a, c := ev(i.X), ev(i.Y)
			t := s.ts.mk("b", i.Op.String(), "", a, c)
			if i.Op == token.ADD {
				if n, ok := a.Int(); ok {
					if m, ok := c.Int(); ok {
						t = s.ts.IntConst(n + m)
					}
				}
			}
			if s.rule.WantAdd[ins] && !emit(&Event{Kind: EvAdd, Ins: ins, Val: t, Args: []*Term{a, c}}) {
				return
			}
			cmp := false
			switch i.Op {
			case token.EQL, token.NEQ, token.LSS, token.GTR, token.LEQ, token.GEQ:
				cmp = true
			}
			if t.depth > maxTermDepth && !cmp {
				t = fresh("deep", "", i)
			}
			switch i.Op {
			case token.EQL, token.NEQ, token.LSS, token.GTR, token.LEQ, token.GEQ:
				n, pol := s.ts.Cond(t)
				if n.Op != "b" {
					if a.IsConst() && c.IsConst() {
						if v, ok := s.ts.Known(n, st.facts); ok {
							t = s.ts.Bool(v == pol)
						}
					}
				}
			}
			def(i, t)
		case *ssa.Store:
			addr, val := ev(i.Addr), ev(i.Val)
			if val.depth > maxTermDepth {
				val = s.ts.mk("deep", "", s.id(f, ins))
			}
			se := &Event{Kind: EvStore, Ins: ins, Addr: addr, Val: val}
			if !emit(se) {
				return
			}
			s.store(st, addr, se.Val) // a rule may replace the value by an equal one
		case *ssa.MapUpdate:
			m, k, v := ev(i.Map), ev(i.Key), ev(i.Value)
			if !emit(&Event{Kind: EvMapSet, Ins: ins, Map: m, Key: k, Val: v}) {
				return
			}
			s.addFact(st, s.ts.mk("empty", "", "", m), false)
		case *ssa.Send:
			s.havocShared(st, s.id(f, ins))
			if !emit(&Event{Kind: EvSend, Ins: ins, Ch: ev(i.Chan), Val: ev(i.X)}) {
				return
			}
		case *ssa.Select:
			t := freshV("select", "", i)
			s.havocShared(st, t.ID)
			def(i, t)
		case *ssa.Go:
			args := []*Term{ev(i.Call.Value)}
			for _, a := range i.Call.Args {
				args = append(args, ev(a))
			}
			e := &Event{Kind: EvGo, Ins: ins, Args: args, Name: calleeName(&i.Call)}
			var gb []*Term
			e.Fn, gb = s.resolveFn(args[0])
			if !emit(e) {
				return
			}
			// what the goroutine assigns can change at any time from here on
			if e.Fn != nil {
				for j, t := range gb {
					if t.Op == "new" && j < len(e.Fn.FreeVars) && writesVar(e.Fn, j) {
						st.hv["shared:"+t.ID] = "1"
					}
				}
			}
			s.havocMaps(st, append(append([]*Term(nil), args...), gb...))
			s.havocShared(st, s.id(f, ins))
		case *ssa.Defer:
			var args []*Term
			fn := ev(i.Call.Value)
			if i.Call.IsInvoke() {
				args = append(args, fn)
			}
			for _, a := range i.Call.Args {
				args = append(args, ev(a))
			}
			st.defers[f] = append(st.defers[f], deferRec{i, fn, args})
			if !emit(&Event{Kind: EvDefer, Ins: ins, Args: args, Name: calleeName(&i.Call)}) {
				return
			}
		case *ssa.RunDefers:
			d := st.defers[f]
			if len(d) > 0 {
				r := d[len(d)-1]
				st.defers[f] = d[:len(d)-1]
				if len(d) == 1 {
					delete(st.defers, f)
				}
				if s.doCall(x, emit, r.ins, &r.ins.Call, nil, r.fn, r.args, true) {
					return // frame entered or path ended
				}
				continue // stay on RunDefers
			}
		case *ssa.Call:
			fn := ev(i.Call.Value)
			if s.doCall(x, emit, i, &i.Call, i, fn, nil, false) {
				return
			}
			if st.frame != f || x.dead {
				return
			}
		case *ssa.Jump:
			s.enter(st, b.Succs[0], b)
			return
		case *ssa.If:
			s.doIf(x, emit, i)
			return
		case *ssa.Return:
			var res []*Term
			for _, r := range i.Results {
				res = append(res, ev(r))
			}
			s.doReturn(x, emit, i, res)
			return
		case *ssa.Panic:
			emit(&Event{Kind: EvPanic, Ins: ins, Val: ev(i.X)})
			return
		default:
			if v, ok := ins.(ssa.Value); ok {
				def(v, fresh("top", "", v))
			}
		}
		if x.dead {
			return
		}
		st.idx++
	}
}

func (s *Sim) doReturn(x *X, emit func(*Event) bool, i *ssa.Return, res []*Term) {
	st := x.St
	f := st.frame
	if f.parent == nil || f.spawn {
		emit(&Event{Kind: EvReturn, Ins: i, Args: res, Fn: f.fn})
		return
	}
	var rt *Term
	switch len(res) {
	case 0:
		rt = s.ts.mk("void", "", "")
	case 1:
		rt = res[0]
	default:
		rt = s.ts.mk("tup", "", "", res...)
	}
	if s.rule.Gen != nil && s.rule.Gen(x, f.fn) {
		var a, binds []*Term
		for _, v := range f.fn.Params {
			if t := st.env[envKey{f, v}]; t != nil {
				a = append(a, t)
			}
		}
		for _, v := range f.fn.FreeVars {
			binds = append(binds, st.env[envKey{f, v}])
		}
		s.effects(st, f.fn, f.fn.RelString(nil), a, binds, s.id(f.parent, f.site)+"'")
		if len(res) > 0 {
			rt = s.ts.mk("call", f.fn.RelString(nil), s.id(f.parent, f.site))
			if len(res) > 1 {
				var c []*Term
				for k := range res {
					c = append(c, s.ts.mk("x", strconv.Itoa(k), "", rt))
				}
				rt = s.ts.mk("tup", "", "", c...)
			}
		}
	}
	e := &Event{Kind: EvLeave, Ins: f.site, Fn: f.fn, Args: res, Res: rt, Name: f.fn.RelString(nil), Deferred: f.defr}
	if !emit(e) {
		return
	}
	for k := range st.env {
		if k.f == f {
			delete(st.env, k)
		}
	}
	delete(st.defers, f)
	st.frame = f.parent
	st.blk = f.site.Block()
	for k, ins := range st.blk.Instrs {
		if ins == f.site {
			st.idx = k
		}
	}
	if f.defr {
		// back to the RunDefers instruction: find it by scanning the saved position
		st.blk, st.idx = s.popRunDefers(st)
	} else {
		if v, ok := f.site.(ssa.Value); ok {
			if rt.depth > maxTermDepth {
				rt2 := s.ts.mk("deep", "", s.id(f.parent, f.site))
				rt = rt2
			}
			st.env[envKey{f.parent, v}] = rt
		}
		st.idx++
	}
	s.gc(st)
	// continue through the worklist so that equal states after the call are merged
	key := "r" + s.stateKey(st)
	if s.visited[key] {
		return
	}
	s.visited[key] = true
	s.States++
	s.work = append(s.work, st)
}

// the block that is executing RunDefers in a frame is kept in the automaton-free part of the state
func (s *Sim) popRunDefers(st *State) (*ssa.BasicBlock, int) {
	k := "rundefers:" + strconv.Itoa(st.frame.id)
	v := st.hv[k]
	delete(st.hv, k)
	var bi, ii int
	fmt.Sscanf(v, "%d.%d", &bi, &ii)
	return st.frame.fn.Blocks[bi], ii
}

// doCall executes a call; it returns true when the current state must not be continued here.
func (s *Sim) doCall(x *X, emit func(*Event) bool, ins ssa.CallInstruction, c *ssa.CallCommon, res *ssa.Call, fnT *Term, dargs []*Term, deferred bool) bool {
	st := x.St
	f := st.frame
	args := func() []*Term {
		if deferred {
			return dargs
		}
		var a []*Term
		if c.IsInvoke() {
			a = append(a, s.eval(st, c.Value))
		}
		for _, v := range c.Args {
			a = append(a, s.eval(st, v))
		}
		return a
	}
	var callee *ssa.Function
	var binds []*Term
	name := calleeName(c)
	if c.IsInvoke() {
		recv := fnT
		if recv.T != nil && !types.IsInterface(recv.T) {
			if sel := s.p.SSA.MethodSets.MethodSet(recv.T).Lookup(c.Method.Pkg(), c.Method.Name()); sel != nil {
				if m := s.p.SSA.MethodValue(sel); m != nil {
					callee = m
				}
			}
		}
	} else if sc := c.StaticCallee(); sc != nil {
		callee = sc
		if mc, ok := c.Value.(*ssa.MakeClosure); ok {
			_ = mc
			_, binds = s.resolveFn(fnT)
		}
	} else {
		callee, binds = s.resolveFn(fnT)
		if callee == nil && fnT != nil && fnT.Op == "ld" && fnT.A[0].Op == "free" {
			callee, binds = s.siblingClosure(fnT.A[0], ins)
		}
	}
	if name == "" && callee != nil {
		name = callee.RelString(nil)
		if o := callee.Origin(); o != nil {
			name = o.RelString(nil)
		}
	}
	if callee != nil && callee.Blocks != nil && (s.p.FnInScope(callee) || callee.Synthetic != "" && inScopePkg(fnPkgPath(callee))) {
		want := true
		if s.rule.Inline != nil {
			want = s.rule.Inline(x, callee, ins)
		}
		if want {
			n := 0
			for fr := f; fr != nil; fr = fr.parent {
				if fr.fn == callee {
					n++
				}
			}
			max := s.rule.MaxRec
			if max == 0 {
				max = 2
			}
			if n >= max || f.depth > 40 {
				if !s.rule.RecOK {
					s.RecHit = fnName(callee)
				}
				if !emit(&Event{Kind: EvRecLimit, Ins: ins, Fn: callee, Name: name, Args: args()}) {
					return true
				}
			} else {
				a := args()
				gen := s.rule.Gen != nil && s.rule.Gen(x, callee)
				if gen {
					s.effects(st, callee, name, a, binds, s.id(f, ins))
				}
				if !emit(&Event{Kind: EvEnter, Ins: ins, Fn: callee, Name: name, Args: a, Deferred: deferred}) {
					return true
				}
				fr := s.frameFor(f, ins, callee, deferred)
				// prune caller
				live := s.liveAtCall(ins)
				for k := range st.env {
					if k.f == f && !live[k.v] && !s.rule.Keep[k.v] {
						delete(st.env, k)
					}
				}
				if deferred {
					st.hv["rundefers:"+strconv.Itoa(f.id)] = fmt.Sprintf("%d.%d", st.blk.Index, st.idx)
				}
				s.bindFrame(st, fr, binds, a)
				st.frame = fr
				st.trace = &traceNode{st.trace, "call " + fnName(callee), instrPos(ins), tn(st.trace)}
				s.enter(st, callee.Blocks[0], nil)
				return true
			}
		}
	}
	// builtins
	if strings.HasPrefix(name, "builtin.") {
		return s.doBuiltin(x, emit, ins, name, args, res)
	}
	// opaque
	var rt *Term
	a := args()
	if s.rule.WantPre {
		if !emit(&Event{Kind: EvPre, Ins: ins, Name: name, Fn: callee, Args: a, Deferred: deferred}) {
			return true
		}
	}
	if isPure(name) {
		rt = s.ts.mk("call", name, "", a...)
		if rt.depth > maxTermDepth {
			rt = s.ts.mk("deep", "", s.id(f, ins))
		}
	} else {
		id := s.id(f, ins)
		if !deferred {
			s.kill(st, id)
			a = args()
		}
		rt = s.ts.mk("call", name, id, a...)
		if rt.depth > maxTermDepth {
			rt = s.ts.mk("deep", name, id)
		}
	}
	if res != nil {
		rt.V = res
		st.env[envKey{f, res}] = rt
	}
	s.effects(st, callee, name, a, binds, s.id(f, ins))
	switch name {
	case "os.Exit", "log.Fatal", "log.Fatalf", "log.Fatalln":
		emit(&Event{Kind: EvExit, Ins: ins, Name: name, Args: a})
		return true
	case "log.Panic", "log.Panicf", "runtime.Goexit":
		emit(&Event{Kind: EvPanic, Ins: ins, Name: name, Args: a})
		return true
	}
	return !emit(&Event{Kind: EvCall, Ins: ins, Name: name, Fn: callee, Args: a, Res: rt, Deferred: deferred})
}

// siblingClosure: the only function a captured variable can hold, if it calls nothing in scope; the variables it
// captures are those that the analysed closure sees under the same names.
func (s *Sim) siblingClosure(free *Term, ins ssa.CallInstruction) (*ssa.Function, []*Term) {
	fv, ok := free.V.(*ssa.FreeVar)
	if !ok {
		return nil, nil
	}
	cs := s.p.Callees(ins)
	if len(cs) != 1 || cs[0].Blocks == nil || cs[0].Parent() == nil || cs[0].Parent() != fv.Parent().Parent() {
		return nil, nil
	}
	f := cs[0]
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok {
				if _, bi := ci.Common().Value.(*ssa.Builtin); bi {
					continue
				}
				if g := ci.Common().StaticCallee(); g == nil || s.p.FnInScope(g) {
					return nil, nil
				}
			}
		}
	}
	var binds []*Term
	for _, v := range f.FreeVars {
		name := v.Name()
		vb := s.p.bindingsOf(v)
		for _, o := range fv.Parent().FreeVars {
			if o.Name() == name {
				if ob := s.p.bindingsOf(o); len(vb) == 0 || len(ob) == 0 || ob[0] != vb[0] {
					name += "'"
				}
			}
		}
		t := s.ts.mk("free", name, "")
		if t.V == nil {
			t.V = v
		}
		binds = append(binds, t)
	}
	return f, binds
}

// effects forgets what a call that is not followed may change.
func (s *Sim) effects(st *State, callee *ssa.Function, name string, a, binds []*Term, id string) {
	// effects on memory
	if callee != nil && callee.Blocks != nil && inScopePkg(fnPkgPath(callee)) {
		mods := s.p.Mods(callee)
		var esc map[string]bool
		if len(mods) > 0 {
			esc = s.reachableNew(st, append(append([]*Term(nil), a...), binds...))
		}
		for k := range mods {
			for mk, cl := range st.mem {
				if cl.addr.Op == "fa" && cl.addr.T != nil && typeKey(cl.addr.T)+"."+cl.addr.S == k {
					if r := rootOf(cl.addr); r.Op != "new" || esc[r.ID] {
						delete(st.mem, mk)
					}
				}
			}
			st.hv[k] = id
		}
		s.havocArgs(st, a, id)
	} else if !noHavoc(name) {
		s.havocArgs(st, a, id)
		// objects with methods that it is handed inside others
		done := map[*Term]bool{}
		var visit func(t *Term)
		visit = func(t *Term) {
			if t == nil || done[t] {
				return
			}
			done[t] = true
			if t.Op == "new" {
				if t.T != nil && hasMethods(t.T) {
					s.havocArgs(st, []*Term{t}, id)
				}
				for _, c := range st.mem {
					if rootOf(c.addr) == t {
						visit(c.val)
					}
				}
			}
			for _, o := range t.A {
				visit(o)
			}
		}
		for _, t := range a {
			visit(t)
		}
	}
	if !isPure(name) && !noHavoc(name) {
		s.havocMaps(st, append(append([]*Term(nil), a...), binds...))
	}
	if !isPure(name) && !strings.HasPrefix(name, "fmt.") && !strings.HasPrefix(name, "errors.") {
		s.havocShared(st, id)
	}
	// variables that closures assign
	s.havocClosure(st, callee, binds, id, nil)
	for _, t := range a {
		s.havocClosure(st, nil, []*Term{t}, id, nil)
	}
}

// writeOnce: the cell is a field that is assigned only while its object is built.
func (s *Sim) writeOnce(a *Term) bool {
	n := 0
	for ; a.Op == "fa"; a = a.A[0] {
		if a.T == nil || !s.p.WriteOnce(typeKey(a.T)+"."+a.S) {
			return false
		}
		n++
	}
	return n > 0 && a.Op == "new"
}

func (s *Sim) havocArgs(st *State, args []*Term, id string) {
	for _, a := range args {
		if a.Op == "mmap" {
			delete(st.facts, s.ts.mk("empty", "", "", a).key)
		}
		if a.Op == "new" {
			for k, c := range st.mem {
				if rootOf(c.addr) == a && !s.writeOnce(c.addr) {
					delete(st.mem, k)
				}
			}
			st.hv["new:"+a.ID] = id
		}
	}
}

// havocMaps: maps that code which is not followed can reach may get entries.
func (s *Sim) havocMaps(st *State, roots []*Term) {
	done := map[*Term]bool{}
	var visit func(t *Term)
	visit = func(t *Term) {
		if t == nil || done[t] {
			return
		}
		done[t] = true
		switch t.Op {
		case "mmap":
			delete(st.facts, s.ts.mk("empty", "", "", t).key)
		case "new":
			for _, c := range st.mem {
				if rootOf(c.addr) == t {
					visit(c.val)
				}
			}
		}
		for _, a := range t.A {
			visit(a)
		}
	}
	for _, t := range roots {
		visit(t)
	}
}

// havocShared forgets the variables that other goroutines assign; called wherever goroutines can synchronise.
// Between such places a variable is stable, or there is a data race (C17).
func (s *Sim) havocShared(st *State, id string) {
	for k := range st.hv {
		if !strings.HasPrefix(k, "shared:") {
			continue
		}
		st.hv["new:"+k[7:]] = id
		for mk, c := range st.mem {
			if r := rootOf(c.addr); r.Op == "new" && r.ID == k[7:] {
				delete(st.mem, mk)
			}
		}
	}
}

// reachableNew: the local objects that code called with these values can reach.
func (s *Sim) reachableNew(st *State, roots []*Term) map[string]bool {
	out := map[string]bool{}
	var visit func(t *Term)
	visit = func(t *Term) {
		if t == nil {
			return
		}
		if t.Op == "new" {
			if out[t.ID] {
				return
			}
			out[t.ID] = true
			for _, c := range st.mem {
				if rootOf(c.addr) == t {
					visit(c.val)
				}
			}
			return
		}
		for _, a := range t.A {
			visit(a)
		}
	}
	for _, t := range roots {
		visit(t)
	}
	for _, c := range st.mem {
		if rootOf(c.addr).Op != "new" {
			visit(c.val)
		}
	}
	return out
}

// havocClosure forgets the captured variables that a closure which is not followed may assign.
// With fn == nil the values are looked through for closures.
func (s *Sim) havocClosure(st *State, fn *ssa.Function, vals []*Term, id string, seen map[string]bool) {
	if seen == nil {
		seen = map[string]bool{}
	}
	for i, t := range vals {
		if t == nil {
			continue
		}
		if fn != nil && i < len(fn.FreeVars) && t.Op == "new" {
			if writesVar(fn, i) {
				for k, c := range st.mem {
					if rootOf(c.addr) == t {
						if c.addr == t {
							s.havocClosure(st, nil, []*Term{c.val}, id, seen)
						}
						delete(st.mem, k)
					}
				}
				st.hv["new:"+t.ID] = id
			} else if c, ok := st.mem[t.key]; ok && !seen[t.key] {
				seen[t.key] = true
				s.havocClosure(st, nil, []*Term{c.val}, id, seen)
			}
			continue
		}
		if t.Op == "clo" && !seen[t.key] {
			seen[t.key] = true
			f, b := s.resolveFn(t)
			s.havocClosure(st, f, b, id, seen)
		}
	}
}

// writesVar: the closure, or one made in it, does more with its i-th captured variable than read it.
func writesVar(fn *ssa.Function, i int) bool { return writesThrough(fn.FreeVars[i]) }

func writesThrough(v ssa.Value) bool {
	for _, r := range *v.Referrers() {
		switch u := r.(type) {
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.FieldAddr:
			if writesThrough(u) {
				return true
			}
		case *ssa.IndexAddr:
			if writesThrough(u) {
				return true
			}
		case *ssa.MakeClosure:
			g := u.Fn.(*ssa.Function)
			for j, b := range u.Bindings {
				if b == v && writesVar(g, j) {
					return true
				}
			}
		default:
			return true
		}
	}
	return false
}

func (s *Sim) liveAtCall(ins ssa.Instruction) map[ssa.Value]bool {
	if m := s.liveAt[ins]; m != nil {
		return m
	}
	b := ins.Block()
	m := map[ssa.Value]bool{}
	idx := -1
	for i, x := range b.Instrs {
		if x == ins {
			idx = i
		}
	}
	if _, ok := ins.(*ssa.Defer); ok {
		// runs at RunDefers: keep what any later return needs
		for _, bb := range b.Parent().Blocks {
			for _, in2 := range bb.Instrs {
				if _, ok := in2.(*ssa.RunDefers); ok {
					for v := range s.liveFrom(bb, in2) {
						m[v] = true
					}
				}
			}
		}
	} else {
		for v := range s.liveFromIdx(b, idx) {
			m[v] = true
		}
	}
	s.liveAt[ins] = m
	return m
}

func (s *Sim) liveFrom(b *ssa.BasicBlock, ins ssa.Instruction) map[ssa.Value]bool {
	for i, x := range b.Instrs {
		if x == ins {
			return s.liveFromIdx(b, i)
		}
	}
	return nil
}

func (s *Sim) liveFromIdx(b *ssa.BasicBlock, idx int) map[ssa.Value]bool {
	m := map[ssa.Value]bool{}
	var ops []*ssa.Value
	for _, x := range b.Instrs[idx+1:] {
		ops = x.Operands(ops[:0])
		for _, o := range ops {
			if *o != nil {
				m[*o] = true
			}
		}
	}
	l := s.p.Live(b.Parent())
	for _, sc := range b.Succs {
		for v := range l.in[sc] {
			m[v] = true
		}
		for _, x := range sc.Instrs {
			phi, ok := x.(*ssa.Phi)
			if !ok {
				break
			}
			for i, e := range phi.Edges {
				if sc.Preds[i] == b {
					m[e] = true
				}
			}
		}
	}
	return m
}

func (s *Sim) doBuiltin(x *X, emit func(*Event) bool, ins ssa.CallInstruction, name string, args func() []*Term, res *ssa.Call) bool {
	st := x.St
	f := st.frame
	def := func(t *Term) {
		if res != nil {
			st.env[envKey{f, res}] = t
		}
	}
	a := args()
	switch name {
	case "builtin.len", "builtin.cap":
		t := a[0]
		if sv, ok := t.Str(); ok {
			def(s.ts.IntConst(int64(len(sv))))
			return false
		}
		if t.IsConst() && t.S == "nil" {
			def(s.ts.IntConst(0))
			return false
		}
		def(s.ts.mk(name[8:], "", "", t))
		return false
	case "builtin.append":
		id := s.id(f, ins)
		s.kill(st, id)
		a = args()
		for len(a) < 2 {
			a = append(a, s.ts.Nil())
		}
		t := s.ts.mk("app", "", id, a[0], a[1])
		if t.depth > maxTermDepth {
			nt := s.ts.mk("old", "", "old:deep"+id)
			for _, fc := range s.transfer(st, t, nt) {
				st.facts[fc.t.key] = fc
			}
			t = nt
		}
		def(t)
		return !emit(&Event{Kind: EvAppend, Ins: ins, Name: name, Args: a, Res: t})
	case "builtin.close":
		return !emit(&Event{Kind: EvClose, Ins: ins, Ch: a[0]})
	case "builtin.delete":
		for k, fc := range st.facts {
			if fc.t.Op == "empty" && fc.t.A[0] == a[0] {
				delete(st.facts, k)
			}
		}
		return !emit(&Event{Kind: EvMapDel, Ins: ins, Map: a[0], Key: a[1]})
	case "builtin.panic":
		emit(&Event{Kind: EvPanic, Ins: ins, Val: a[0]})
		return true
	case "builtin.copy":
		def(s.ts.mk("call", name, s.id(f, ins), a...))
	case "builtin.min", "builtin.max":
		def(s.ts.mk("call", name, "", a...))
	default:
		id := s.id(f, ins)
		s.kill(st, id)
		a = args()
		def(s.ts.mk("call", name, id, a...))
	}
	var rt *Term
	if res != nil {
		rt = st.env[envKey{f, res}]
	}
	return !emit(&Event{Kind: EvCall, Ins: ins, Name: name, Args: a, Res: rt})
}

func (s *Sim) doIf(x *X, emit func(*Event) bool, i *ssa.If) {
	st := x.St
	b := i.Block()
	ct := s.eval(st, i.Cond)
	c, pol := s.ts.Cond(ct)
	known, ok := s.ts.Known(c, st.facts)
	for _, v := range []bool{true, false} { // truth of c
		if ok && known != v {
			continue
		}
		ns := st.clone()
		succ := b.Succs[0]
		if v != pol {
			succ = b.Succs[1]
		}
		if !ok {
			s.addFact(ns, c, v)
		}
		txt := c.Canon()
		if len(txt) > 160 {
			txt = txt[:160] + "..."
		}
		if !ok {
			ns.trace = &traceNode{ns.trace, fmt.Sprintf("%v is %v", txt, v), instrPos(i), tn(ns.trace)}
		}
		nx := &X{Sim: s, St: ns}
		if s.rule.OnEvent != nil {
			coll, kind, el := s.iterOf(c)
			if coll != nil {
				taken := v
				if kind == "back" {
					taken = !v
				}
				s.rule.OnEvent(nx, &Event{Kind: EvIter, Ins: i, Cond: c, Taken: taken, Coll: coll, IKind: kind, Elem: el, Header: b})
			}
			if nx.alts != nil && !nx.dead {
				for _, a := range nx.alts {
					ax := &X{Sim: s, St: ns.clone()}
					ax.St.auto = a
					s.rule.OnEvent(ax, &Event{Kind: EvBranch, Ins: i, Cond: c, Taken: v})
					if !ax.dead {
						s.enter(ax.St, succ, b)
					}
				}
				continue
			}
			if !nx.dead {
				s.rule.OnEvent(nx, &Event{Kind: EvBranch, Ins: i, Cond: c, Taken: v})
			}
		}
		if nx.dead {
			continue
		}
		s.enter(ns, succ, b)
	}
}

// iterOf recognises loop conditions over whole collections.
func (s *Sim) iterOf(c *Term) (coll *Term, kind string, el *Term) {
	switch c.Op {
	case "more":
		return c.A[0], "map", s.ts.mk("mkey", "", c.ID, c.A[0])
	case "rok":
		return c.A[0], "chan", s.ts.mk("recv", "", c.ID, c.A[0])
	case "call":
		if c.S == "(*bufio.Scanner).Scan" {
			return c.A[0], "scan", c
		}
	case "lt":
		x, y := c.A[0], c.A[1]
		if y.Op == "len" {
			if k := s.indexKind(x, y.A[0]); k != "" {
				return y.A[0], k, x
			}
		}
		// 0 <= i  is  !(i < 0)
		if n, ok := y.Int(); ok && n == 0 {
			if coll := s.backIndex(x); coll != nil {
				return coll, "back", x
			}
		}
	}
	return nil, "", nil
}

// indexKind: "slice" for an index that starts at 0 and increases by one, "part" for other loop indexes.
func (s *Sim) indexKind(x *Term, coll *Term) string {
	phi := x
	off := int64(0)
	if x.Op == "b" && x.S == "+" {
		if n, ok := x.A[1].Int(); ok && n == 1 {
			phi = x.A[0]
			off = 1
		}
	}
	if phi.Op != "phi" {
		return ""
	}
	pv := phi.V.(*ssa.Phi)
	ok := true
	for _, in := range s.phiIn[phi.ID] {
		n, isInt := in.Int()
		if !isInt || n != -off {
			ok = false
		}
	}
	li := s.p.Loops(pv.Parent())
	for k, e := range pv.Edges {
		if !li.back[[2]int{pv.Block().Preds[k].Index, pv.Block().Index}] {
			continue
		}
		bo, is := e.(*ssa.BinOp)
		if !is || bo.Op != token.ADD || bo.X != ssa.Value(pv) {
			ok = false
			continue
		}
		cst, is := bo.Y.(*ssa.Const)
		if !is || cst.Value == nil || cst.Value.ExactString() != "1" {
			ok = false
		}
	}
	if ok {
		return "slice"
	}
	return "part"
}

// backIndex: the collection of a loop that runs from the last index down to 0.
func (s *Sim) backIndex(x *Term) *Term {
	if x.Op != "phi" {
		return nil
	}
	pv := x.V.(*ssa.Phi)
	var coll *Term
	for _, in := range s.phiIn[x.ID] {
		if in.Op == "b" && in.S == "-" && in.A[0].Op == "len" {
			if n, ok := in.A[1].Int(); ok && n == 1 {
				coll = in.A[0].A[0]
				continue
			}
		}
		return nil
	}
	li := s.p.Loops(pv.Parent())
	for k, e := range pv.Edges {
		if !li.back[[2]int{pv.Block().Preds[k].Index, pv.Block().Index}] {
			continue
		}
		bo, is := e.(*ssa.BinOp)
		if !is || bo.X != ssa.Value(pv) {
			return nil
		}
		cst, is := bo.Y.(*ssa.Const)
		if !is || cst.Value == nil {
			return nil
		}
		v := cst.Value.ExactString()
		if !(bo.Op == token.SUB && v == "1" || bo.Op == token.ADD && v == "-1") {
			return nil
		}
	}
	return coll
}

// lossyConv: a conversion whose result does not hold the value converted (or
// has another length).
func lossyConv(c *ssa.Convert) bool {
	from, to := c.X.Type().Underlying(), c.Type().Underlying()
	runes := func(t types.Type) bool {
		sl, ok := t.(*types.Slice)
		if !ok {
			return false
		}
		b, ok := sl.Elem().Underlying().(*types.Basic)
		return ok && b.Kind() == types.Int32
	}
	if runes(from) || runes(to) {
		return true
	}
	f, ok1 := from.(*types.Basic)
	t, ok2 := to.(*types.Basic)
	if !ok1 || !ok2 {
		return false
	}
	switch {
	case t.Info()&types.IsString != 0:
		return f.Info()&types.IsString == 0
	case f.Info()&types.IsFloat != 0:
		return t.Info()&types.IsInteger != 0
	case f.Info()&types.IsInteger != 0 && t.Info()&types.IsInteger != 0:
		sz := types.SizesFor("gc", "amd64")
		return sz.Sizeof(t) < sz.Sizeof(f) && sz.Sizeof(t) < 4
	}
	return false
}
