package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// scannerInfo describes one bufio.Scanner: where it is made, its limit and its uses.
type scannerInfo struct {
	mk    *ssa.Call
	fn    *ssa.Function
	pkg   string
	limit int64
	scans []*ssa.Call
	errs  []*ssa.Call
	bufs  []*ssa.Call
	split []*ssa.Call
}

func (p *Prog) scanners() (out []*scannerInfo) {
	for _, fn := range p.Fns {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				cl, ok := ins.(*ssa.Call)
				if !ok || calleeName(&cl.Call) != "bufio.NewScanner" {
					continue
				}
				s := &scannerInfo{mk: cl, fn: fn, pkg: strings.TrimPrefix(fnPkgPath(fn), modPath+"/"), limit: 64 * 1024}
				for _, a := range p.aliasesOf(cl) {
					if a.Referrers() == nil {
						continue
					}
					for _, r := range *a.Referrers() {
						cc, ok := r.(*ssa.Call)
						if !ok || len(cc.Call.Args) == 0 || cc.Call.Args[0] != a {
							continue
						}
						switch calleeName(&cc.Call) {
						case "(*bufio.Scanner).Scan":
							s.scans = append(s.scans, cc)
						case "(*bufio.Scanner).Err":
							s.errs = append(s.errs, cc)
						case "(*bufio.Scanner).Buffer":
							s.bufs = append(s.bufs, cc)
						case "(*bufio.Scanner).Split":
							s.split = append(s.split, cc)
						}
					}
				}
				out = append(out, s)
			}
		}
	}
	return
}

// constInts: all values an integer may have, if all are constants.
func (p *Prog) constInts(v ssa.Value) (min int64, ok bool) {
	min = math.MaxInt64
	for _, l := range p.Origins(v, "", nil) {
		k, isC := l.v.(*ssa.Const)
		if !isC || k.Value == nil || k.Value.Kind() != constant.Int {
			return 0, false
		}
		n, exact := constant.Int64Val(k.Value)
		if !exact {
			return 0, false
		}
		if n < min {
			min = n
		}
	}
	return min, min != math.MaxInt64
}

func runC30(c *Ctx) {
	p := c.p
	const mb = 1000 * 1000
	hist := int64(math.MaxInt64)
	var pipe []*scannerInfo
	for _, s := range p.scanners() {
		if !strings.HasPrefix(s.pkg, "ripsrc") || strings.Contains(s.pkg, "/cmd") {
			continue
		}
		c.Saw(s.fn)
		c.Count("scanners", 1)
		id := fnName(s.fn)
		if len(s.bufs) > 0 {
			low := int64(math.MaxInt64)
			for _, b := range s.bufs {
				n, ok := p.constInts(b.Call.Args[2])
				if !ok {
					c.Violate("limit "+id, b.Pos(), "undecided: the line limit is not a constant")
					continue
				}
				if n < low {
					low = n
				}
			}
			s.limit = low
			// every way from the creation to a use passes the limit
			if s.bufs[0].Parent() == s.fn {
				for _, sc := range s.scans {
					if sc.Parent() == s.fn && reaches(s.mk, sc, s.bufs[0]) {
						c.Violate("default limit "+id, sc.Pos(), "the scanner can read with the default limit of 64 KB")
					}
				}
				for _, b := range s.fn.Blocks {
					for _, ins := range b.Instrs {
						r, ok := ins.(*ssa.Return)
						if !ok {
							continue
						}
						for _, res := range r.Results {
							if types.TypeString(res.Type(), nil) == "*bufio.Scanner" && reaches(s.mk, r, s.bufs[0]) {
								c.Violate("default limit "+id, r.Pos(), "the scanner can be returned with the default limit of 64 KB")
							}
						}
					}
				}
			}
		}
		for _, sp := range s.split {
			for _, l := range p.Origins(sp.Call.Args[1], "", nil) {
				f, ok := l.v.(*ssa.Function)
				if !ok || f.RelString(nil) != "bufio.ScanLines" {
					c.Violate("split "+id, sp.Pos(), "undecided: the input is not split at line ends")
				}
			}
		}
		if s.pkg == "ripsrc/history3/process/parser" && s.limit < hist {
			hist = s.limit
		}
		pipe = append(pipe, s)
	}
	for _, s := range pipe {
		id := fnName(s.fn)
		switch s.pkg {
		case "ripsrc/history3/incblame", "ripsrc/commitmeta":
			c.Count("limits compared", 1)
			if s.limit < hist {
				c.Violate("smaller limit "+id, s.mk.Pos(), "this stage accepts lines of up to %d bytes but the patch log parser before it up to %d", s.limit, hist)
			}
		case "ripsrc/parentsgraph/parentsp":
			if s.limit < 64*1024 {
				c.Violate("smaller limit "+id, s.mk.Pos(), "lists of parents are limited to %d bytes", s.limit)
			}
		}
	}
	// errors of the scanner are reported
	done := map[*ssa.Function]bool{}
	for _, s := range pipe {
		for _, sc := range s.scans {
			f := sc.Parent()
			if done[f] {
				continue
			}
			done[f] = true
			c.scanErr(f)
		}
	}
	c.limiters()
	c.Min("scanners", 5)
	c.Min("limits compared", 3)
	c.Min("scan loops", 5)
}

// scanErr: a function that reads lines to the end returns success only after the scanner's error was seen to be nil.
func (c *Ctx) scanErr(f *ssa.Function) {
	c.Count("scan loops", 1)
	p := c.p
	r := &Rule{Name: "scanner errors", MaxState: 60000}
	r.Inline = func(x *X, fn *ssa.Function, call ssa.CallInstruction) bool {
		return p.transitively(fn, func(_ *ssa.Function, ins ssa.Instruction) bool {
			ci, ok := ins.(ssa.CallInstruction)
			return ok && (calleeName(ci.Common()) == "(*bufio.Scanner).Err" || calleeName(ci.Common()) == "bufio.NewScanner")
		}) || alwaysPanics(fn)
	}
	r.OnEvent = func(x *X, e *Event) {
		dbg("c30", f.Name(), e.Kind, e.Name, x.Get("pending"), e.IKind, e.Taken, e.Cond)
		switch e.Kind {
		case EvIter:
			if e.IKind == "scan" && !e.Taken && x.Get("pending") == "" {
				x.Set("pending", "1")
			}
		case EvCall:
			if e.Name == "bufio.NewScanner" && x.Get("pending") != "" {
				x.Set("pending", "lost")
			}
			if e.Name == "(*bufio.Scanner).Err" {
				x.Untag("scanerr")
				x.Tag("scanerr", e.Res)
			}
		case EvBranch:
			if e.Cond.Op == "isnil" && x.HasTag("scanerr", e.Cond.A[0]) {
				if e.Taken {
					if x.Get("pending") == "1" {
						x.Set("pending", "")
					}
				} else if x.Get("pending") != "lost" {
					x.Set("pending", "failed")
				}
			}
		case EvReturn:
			st := x.Get("pending")
			if st == "" {
				return
			}
			for _, a := range e.Args {
				if x.HasTag("scanerr", a) {
					return
				}
			}
			if nn, ok := errKnown(x, e); ok && nn && lastIsErr(e.Fn) {
				return
			}
			if len(e.Args) > 0 && lastIsErr(e.Fn) {
				last := e.Args[len(e.Args)-1]
				if wrapsErr(x, last) {
					return
				}
			}
			x.Violate("scan error "+fnName(f)+" "+st, e.Pos(), "the function ends normally although reading the input may have stopped at an error or an over-long line")
		}
	}
	c.Sim("scan "+fnName(f), f, r, nil)
}

// alwaysPanics: the function never returns normally.
func alwaysPanics(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			return false
		}
	}
	return len(fn.Blocks) > 0
}

// wrapsErr: the value is built by an error constructor.
func wrapsErr(x *X, t *Term) bool {
	return t.Is("call", "fmt.Errorf", "errors.New")
}

// limiters: nothing in the pipeline cuts its input silently.
func (c *Ctx) limiters() {
	p := c.p
	for _, fn := range p.Fns {
		pkg := strings.TrimPrefix(fnPkgPath(fn), modPath+"/")
		if !strings.HasPrefix(pkg, "ripsrc") || strings.Contains(pkg, "/cmd") {
			continue
		}
		inPipe := pkg == "ripsrc/commitmeta" || strings.HasPrefix(pkg, "ripsrc/history3") || strings.HasPrefix(pkg, "ripsrc/parentsgraph") || pkg == "ripsrc/gitexec" || pkg == "ripsrc/gitblame2"
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				switch i := ins.(type) {
				case *ssa.Call:
					switch n := calleeName(&i.Call); n {
					case "io.LimitReader", "io.CopyN", "io.NewSectionReader":
						c.Violate("limiter "+fnName(fn), i.Pos(), "%s cuts the input silently", n)
					case "(*bufio.Reader).ReadLine":
						used := false
						for _, r := range *i.Referrers() {
							if e, ok := r.(*ssa.Extract); ok && e.Index == 1 && len(*e.Referrers()) > 0 {
								used = true
							}
						}
						if !used {
							c.Violate("limiter "+fnName(fn), i.Pos(), "ReadLine splits long lines silently")
						}
					}
				case *ssa.Alloc:
					if strings.HasSuffix(types.TypeString(i.Type(), nil), "io.LimitedReader") {
						c.Violate("limiter "+fnName(fn), i.Pos(), "a LimitedReader cuts the input silently")
					}
				case *ssa.BinOp:
					if inPipe {
						c.longLine(fn, i)
					}
				}
			}
		}
	}
}

// longLine: a comparison of a length with a large constant may only lead to an error.
func (c *Ctx) longLine(fn *ssa.Function, b *ssa.BinOp) {
	x, y, op := b.X, b.Y, b.Op
	if isLenCall(y) {
		x, y = y, x
		switch op {
		case token.LSS:
			op = token.GTR
		case token.LEQ:
			op = token.GEQ
		case token.GTR:
			op = token.LSS
		case token.GEQ:
			op = token.LEQ
		}
	}
	k, ok := y.(*ssa.Const)
	if !ok || !isLenCall(x) || k.Value == nil {
		return
	}
	arg := x.(*ssa.Call).Call.Args[0]
	if !isByteSlice(arg.Type()) {
		bt, ok := arg.Type().Underlying().(*types.Basic)
		if !ok || bt.Info()&types.IsString == 0 {
			return
		}
	}
	n, exact := constant.Int64Val(k.Value)
	if !exact || n < 200 {
		return
	}
	c.Count("length comparisons", 1)
	for _, r := range *b.Referrers() {
		i, ok := r.(*ssa.If)
		if !ok {
			continue
		}
		long := i.Block().Succs[0]
		if op == token.LSS || op == token.LEQ {
			long = i.Block().Succs[1]
		}
		if !onlyFails(long, i.Block()) {
			c.Violate("long input "+fnName(fn), b.Pos(), "input longer than %d bytes is treated differently without an error", n)
		}
	}
}

func isLenCall(v ssa.Value) bool {
	cl, ok := v.(*ssa.Call)
	if !ok {
		return false
	}
	b, ok := cl.Call.Value.(*ssa.Builtin)
	return ok && b.Name() == "len"
}

// onlyFails: every path from the block ends in a panic, an exit or the return of a non-nil error.
func onlyFails(b *ssa.BasicBlock, from *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var run func(b *ssa.BasicBlock) bool
	run = func(b *ssa.BasicBlock) bool {
		if seen[b] {
			return false // joins or loops back to normal processing
		}
		seen[b] = true
		last := b.Instrs[len(b.Instrs)-1]
		switch l := last.(type) {
		case *ssa.Panic:
			return true
		case *ssa.Return:
			if len(l.Results) == 0 {
				return false
			}
			e := l.Results[len(l.Results)-1]
			if !isErrType(e.Type()) {
				return false
			}
			if k, ok := e.(*ssa.Const); ok && k.IsNil() {
				return false
			}
			return true
		}
		for _, s := range b.Succs {
			if !run(s) {
				return false
			}
		}
		return len(b.Succs) > 0
	}
	return run(b)
}

func init() {
	register("C30", "Every line scanner of the pipeline is found with its limit (constant propagation): the limits of the patch parser, patch application and metadata parser are at least that of the patch log parser and are set before the first read; on every path (simulation) a function that reads lines to the end ends normally only after the scanner's error was nil; no limiting reader, prefix read or length test cuts or skips long input.", runC30)
}
