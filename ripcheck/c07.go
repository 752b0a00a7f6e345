package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// reusedBuffer: calls whose result points into a buffer that the next read overwrites.
func reusedBuffer(name string) bool {
	switch name {
	case "(*bufio.Scanner).Bytes", "(*bufio.Reader).ReadSlice", "(*bufio.Reader).ReadLine", "(*bufio.Reader).Peek",
		"(*bufio.ReadWriter).ReadSlice", "(*bufio.ReadWriter).ReadLine", "(*bufio.ReadWriter).Peek", "(*sync.Pool).Get",
		"(*github.com/tinylib/msgp/msgp.Reader).ReadMapKeyPtr":
		return true
	}
	return false
}

// sharingCall: the result of an external call shares memory with its argument.
func sharingCall(name string) bool {
	if strings.HasPrefix(name, "bytes.") {
		switch strings.TrimPrefix(name, "bytes.") {
		case "Trim", "TrimSpace", "TrimLeft", "TrimRight", "TrimPrefix", "TrimSuffix", "TrimFunc", "TrimLeftFunc", "TrimRightFunc",
			"Split", "SplitN", "SplitAfter", "SplitAfterN", "Fields", "FieldsFunc", "Cut", "CutPrefix", "CutSuffix", "NewBuffer", "NewReader", "Replace", "ReplaceAll", "ToLower":
			n := strings.TrimPrefix(name, "bytes.")
			return n != "Replace" && n != "ReplaceAll" && n != "ToLower"
		}
		return false
	}
	return strings.HasPrefix(name, "(*regexp.Regexp).Find") || name == "(*bytes.Buffer).Bytes" || name == "(*bytes.Buffer).Next" || strings.HasPrefix(name, "slices.") || strings.HasPrefix(name, "unsafe.")
}

func refType(t types.Type) bool {
	switch u := types.Unalias(t).Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	}
	return true
}

func (p *Prog) taintFlow() *Flow {
	f := p.NewFlow()
	f.Containers, f.Content = true, true
	f.Stop = func(v ssa.Value) bool { return !refType(v.Type()) }
	f.Pass = func(ci ssa.CallInstruction, arg int) bool { return sharingCall(calleeName(ci.Common())) }
	return f
}

func runC07(c *Ctx) {
	p := c.p
	// 1. nothing that outlives the read keeps a view of the reader's buffer
	for _, fn := range p.Fns {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				ci, ok := ins.(*ssa.Call)
				if !ok {
					if cv, isC := ins.(*ssa.Convert); isC {
						if bt, isB := cv.Type().Underlying().(*types.Basic); isB && bt.Kind() == types.UnsafePointer {
							c.Violate("unsafe "+fnName(fn), cv.Pos(), "undecided: unsafe pointer conversion")
						}
					}
					continue
				}
				name := calleeName(&ci.Call)
				if strings.HasPrefix(name, "unsafe.") || strings.HasPrefix(name, "builtin.String") {
					c.Violate("unsafe "+fnName(fn), ci.Pos(), "undecided: %s shares memory between bytes and string", name)
				}
				if !reusedBuffer(name) {
					continue
				}
				c.Saw(fn)
				c.Count("reads of a reused buffer", 1)
				f := p.taintFlow()
				if ci.Type() != nil {
					if _, isTup := ci.Type().(*types.Tuple); isTup {
						for _, r := range *ci.Referrers() {
							if e, ok := r.(*ssa.Extract); ok {
								f.Add(e, nil)
							}
						}
					} else {
						f.Add(ci, nil)
					}
				}
				f.Run()
				c.retention(f, ci, name)
			}
		}
	}
	c.Min("reads of a reused buffer", 2)
	c.bufferReuse()
	c.decodeReuse()
}

// retention reports every place where a value of the flow outlives the current line.
func (c *Ctx) retention(f *Flow, src *ssa.Call, name string) {
	p := c.p
	for v := range f.Vals {
		if v.Referrers() == nil {
			continue
		}
		if v.Parent() != nil {
			c.Saw(v.Parent())
		}
		if phi, ok := v.(*ssa.Phi); ok && phi.Parent() == src.Parent() {
			li := p.Loops(phi.Parent())
			if body, isH := li.header[phi.Block()]; isH && body[src.Block()] {
				c.Violate("carried "+fnName(phi.Parent()), phi.Pos(), "a view of the buffer of %s is kept for the next line", name)
			}
		}
		for _, r := range *v.Referrers() {
			c.Count("uses followed", 1)
			where := ""
			switch i := r.(type) {
			case *ssa.Store:
				if i.Val != v {
					continue
				}
				where = c.retainedAddr(i, i.Addr, src)
			case *ssa.MapUpdate:
				if i.Value == v || i.Key == v {
					where = "a map"
				}
			case *ssa.Send:
				if i.X == v {
					where = "a channel"
				}
			case *ssa.Go:
				where = "a goroutine"
			case *ssa.MakeClosure:
				continue
			}
			if where != "" {
				c.Violate("retained "+fnName(r.Parent())+" "+where, instrPos(r), "a view of the buffer of %s (%s) is kept in %s without copying; the next read overwrites it", name, p.Pos(src.Pos()), where)
			}
		}
	}
}

// retainedAddr: "" for places that die with the line, otherwise what keeps the value.
func (c *Ctx) retainedAddr(st ssa.Instruction, addr ssa.Value, src *ssa.Call) string {
	for {
		switch a := addr.(type) {
		case *ssa.FieldAddr:
			if al, ok := a.X.(*ssa.Alloc); ok && !c.heapObject(al) {
				addr = al
				continue
			}
			return "field " + structOf(a.X.Type()).Field(a.Field).Name() + " of " + typeKeyShort(a.X.Type())
		case *ssa.IndexAddr:
			addr = a.X
			continue
		case *ssa.Alloc:
			// a variable declared outside the loop that reads lives on
			if c.p.outlives(st, a, src) {
				return "variable " + a.Comment
			}
			return ""
		case *ssa.FreeVar:
			for _, b := range c.p.bindingsOf(a) {
				if al, ok := b.(*ssa.Alloc); ok && c.p.outlives(st, al, src) {
					return "captured variable " + a.Name()
				}
			}
			return ""
		case *ssa.Global:
			return "global " + a.Name()
		case *ssa.Slice:
			addr = a.X
			continue
		default:
			return ""
		}
	}
}

func typeKeyShort(t types.Type) string {
	return strings.TrimPrefix(typeKey(t), modPath+"/")
}

// heapObject: a composite literal or new() (the pointer itself travels), not a local variable.
func (c *Ctx) heapObject(a *ssa.Alloc) bool {
	return a.Heap && (a.Comment == "complit" || a.Comment == "new")
}

// outlives: what is stored in the variable can still be read after the next read of the source.
func (p *Prog) outlives(st ssa.Instruction, a *ssa.Alloc, src *ssa.Call) bool {
	if a.Parent() == src.Parent() && st.Parent() == a.Parent() {
		if !reaches(st, src, a) {
			return false
		}
		for _, cell := range p.sameCell(a) {
			if cell.Referrers() == nil {
				continue
			}
			for _, r := range *cell.Referrers() {
				if r.Parent() != a.Parent() {
					return true
				}
				if s2, ok := r.(*ssa.Store); ok && s2.Addr == cell {
					continue
				}
				if reaches(src, r, a) {
					return true
				}
			}
		}
		return false
	}
	for f := src.Parent(); f != nil; f = f.Parent() {
		if f == a.Parent() {
			return reaches0(src, src)
		}
	}
	return false
}

func reaches0(a, b ssa.Instruction) bool { return reaches(a, b, nil) }

// bufferReuse: memory that was handed out is not truncated and appended to again.
func (c *Ctx) bufferReuse() {
	p := c.p
	for _, fn := range p.Fns {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				sl, ok := ins.(*ssa.Slice)
				if !ok || sl.High == nil {
					continue
				}
				if _, isS := sl.X.Type().Underlying().(*types.Slice); !isS {
					continue
				}
				// does the shortened slice get appended to?
				f := p.NewFlow()
				f.Add(sl, nil)
				f.Run()
				grown := false
				for v := range f.Vals {
					if v.Referrers() == nil {
						continue
					}
					for _, r := range *v.Referrers() {
						if cl, ok := r.(*ssa.Call); ok {
							if bi, ok := cl.Call.Value.(*ssa.Builtin); ok && (bi.Name() == "append" || bi.Name() == "copy") && cl.Call.Args[0] == v {
								grown = true
							}
							n := calleeName(&cl.Call)
							if n == "io.ReadFull" || n == "io.ReadAtLeast" || strings.HasSuffix(n, ").Read") {
								grown = true
							}
						}
						if ix, ok := r.(*ssa.IndexAddr); ok && ix.X == v {
							for _, rr := range *ix.Referrers() {
								if st, ok := rr.(*ssa.Store); ok && st.Addr == ssa.Value(ix) {
									grown = true
								}
							}
						}
					}
				}
				if !grown {
					continue
				}
				c.Count("truncate and append", 1)
				if where := c.publishedCell(sl.X); where != "" {
					c.Violate("reuse "+fnName(fn), sl.Pos(), "memory that was handed out (%s) is truncated and written again", where)
				}
			}
		}
	}
}

// publishedCell: does what is (or was) stored in the place x was read from leave through another field, a map, a channel or a return?
func (c *Ctx) publishedCell(x ssa.Value) string {
	p := c.p
	u, ok := x.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		if phi, ok := x.(*ssa.Phi); ok {
			return c.publishedVals([]ssa.Value{phi}, nil)
		}
		return c.publishedVals([]ssa.Value{x}, nil)
	}
	var roots []ssa.Value
	own := map[string]bool{}
	addr := u.X
	for {
		switch a := addr.(type) {
		case *ssa.FieldAddr:
			k := fieldKeyOf(a.X.Type(), a.Field)
			own[k] = true
			for _, fa := range p.Index().fieldAddrs[k] {
				if _, ok := fa.(*ssa.Field); ok {
					roots = append(roots, fa)
					continue
				}
				for _, r := range *fa.Referrers() {
					if l, ok := r.(*ssa.UnOp); ok && l.Op == token.MUL {
						roots = append(roots, l)
					}
				}
			}
			if inner, ok := a.X.(*ssa.FieldAddr); ok {
				addr = inner
				continue
			}
		case *ssa.Alloc, *ssa.FreeVar:
			for _, cell := range p.sameCell(a) {
				if cell.Referrers() == nil {
					continue
				}
				for _, r := range *cell.Referrers() {
					if l, ok := r.(*ssa.UnOp); ok && l.Op == token.MUL {
						roots = append(roots, l)
					}
				}
			}
		}
		break
	}
	return c.publishedVals(roots, own)
}

func (c *Ctx) publishedVals(roots []ssa.Value, own map[string]bool) string {
	p := c.p
	seen := map[ssa.Value]bool{}
	work := roots
	for len(work) > 0 {
		v := work[len(work)-1]
		work = work[:len(work)-1]
		if v == nil || seen[v] || v.Referrers() == nil || !refType(v.Type()) {
			continue
		}
		seen[v] = true
		for _, r := range *v.Referrers() {
			switch i := r.(type) {
			case *ssa.Store:
				if i.Val != v {
					continue
				}
				switch a := i.Addr.(type) {
				case *ssa.FieldAddr:
					if own[fieldKeyOf(a.X.Type(), a.Field)] {
						continue
					}
					if st, ok := a.X.Type().Underlying().(*types.Pointer); ok && strings.HasPrefix(typeKey(st), "bytes.") {
						continue
					}
					return "stored in " + typeKeyShort(a.X.Type()) + "." + structOf(a.X.Type()).Field(a.Field).Name() + " at " + p.Pos(instrPos(i))
				case *ssa.Alloc:
					for _, cell := range p.sameCell(a) {
						if cell.Referrers() == nil {
							continue
						}
						for _, rr := range *cell.Referrers() {
							if l, ok := rr.(*ssa.UnOp); ok && l.Op == token.MUL {
								work = append(work, l)
							}
						}
					}
				case *ssa.IndexAddr:
					return "stored in a list at " + p.Pos(instrPos(i))
				case *ssa.Global:
					return "stored in a global at " + p.Pos(instrPos(i))
				}
			case *ssa.MapUpdate:
				return "stored in a map at " + p.Pos(instrPos(i))
			case *ssa.Send:
				if i.X == v {
					return "sent at " + p.Pos(instrPos(i))
				}
			case *ssa.Phi, *ssa.Slice, *ssa.ChangeType, *ssa.MakeInterface:
				work = append(work, i.(ssa.Value))
			case *ssa.Return:
				for _, ci := range p.Index().callers[i.Parent()] {
					if cv, ok := ci.(*ssa.Call); ok {
						work = append(work, cv)
						if cv.Referrers() != nil {
							for _, e := range *cv.Referrers() {
								if ex, ok := e.(*ssa.Extract); ok {
									work = append(work, ex)
								}
							}
						}
					}
				}
			case ssa.CallInstruction:
				for _, f := range p.Callees(i) {
					for n, a := range i.Common().Args {
						if a == v && n < len(f.Params) {
							work = append(work, f.Params[n])
						}
					}
				}
				if b, ok := i.Common().Value.(*ssa.Builtin); ok && b.Name() == "append" {
					if cv, ok := i.(*ssa.Call); ok && (i.Common().Args[0] == v) {
						work = append(work, cv)
					} else if cv, ok := i.(*ssa.Call); ok && sharesElems(cv.Type()) && i.Common().Args[1] == v {
						work = append(work, cv)
					}
				}
			}
		}
	}
	return ""
}

// decodeReuse: an object whose byte slices are kept is not decoded into again.
func (c *Ctx) decodeReuse() {
	p := c.p
	for _, fn := range p.Fns {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				ci, ok := ins.(*ssa.Call)
				if !ok {
					continue
				}
				for n, a := range ci.Call.Args {
					if !decodesArg(ci, n) {
						continue
					}
					obj := a
					if mi, ok := a.(*ssa.MakeInterface); ok {
						obj = mi.X
					}
					if _, ok := obj.Type().Underlying().(*types.Pointer); !ok || !p.hasDecode(obj.Type()) {
						continue
					}
					c.Count("decoded objects", 1)
					for _, l := range p.Origins(obj, "", nil) {
						al, ok := l.v.(*ssa.Alloc)
						if !ok || al.Parent() != fn {
							c.Violate("decode "+fnName(fn), ci.Pos(), "undecided: the decoded object (%s) is not created next to the call", leafStr(p, l))
							continue
						}
						if !reaches(ci, ci, al) {
							continue
						}
						// reused: no slice read from it may be kept
						for _, cell := range p.aliasesOf(al) {
							if cell.Referrers() == nil || cell.Parent() == nil || cell.Parent().Name() == "DecodeMsg" || !types.Identical(deref(cell.Type()), deref(al.Type())) {
								continue
							}
							for _, r := range *cell.Referrers() {
								fa, ok := r.(*ssa.FieldAddr)
								if !ok {
									continue
								}
								if _, isS := deref(fa.Type()).Underlying().(*types.Slice); !isS {
									continue
								}
								for _, rr := range *fa.Referrers() {
									if ld, ok := rr.(*ssa.UnOp); ok && ld.Op == token.MUL {
										if w := c.publishedVals([]ssa.Value{ld}, nil); w != "" {
											c.Violate("decode reuse "+fnName(fn), ci.Pos(), "an object is decoded into again although its bytes were kept (%s); decoding overwrites them", w)
										}
									}
								}
							}
						}
					}
				}
			}
		}
	}
	c.Min("decoded objects", 4)
}

// decodesArg: the n-th argument is what the call decodes into.
func decodesArg(ci *ssa.Call, n int) bool {
	f := ci.Call.StaticCallee()
	if f == nil {
		return false
	}
	if f.Name() == "DecodeMsg" && n == 0 {
		return ci.Parent().Name() != "DecodeMsg"
	}
	if n >= len(f.Params) && f.Blocks != nil {
		return false
	}
	it, ok := types.Unalias(ci.Call.Args[n].Type()).Underlying().(*types.Interface)
	if !ok {
		return false
	}
	for i := 0; i < it.NumMethods(); i++ {
		if it.Method(i).Name() == "DecodeMsg" {
			_, made := ci.Call.Args[n].(*ssa.MakeInterface)
			return made
		}
	}
	return false
}

func (p *Prog) hasDecode(t types.Type) bool {
	ms := p.SSA.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == "DecodeMsg" {
			return true
		}
	}
	return false
}

func init() {
	register("C07", "Taint analysis from every view of a reusable read buffer (Scanner.Bytes and the like) through slicing, sharing calls, parameters, results, fields and containers: it may reach no field, map, channel, goroutine, global or variable that outlives the line. In addition, memory that was handed out is never truncated and appended to again, and an object whose bytes were kept is never decoded into again.", runC07)
}
