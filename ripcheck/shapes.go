package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// shapeQuery enumerates, without regard to control flow, what a string can be made of: constants, named options,
// parameters that only callers outside the scope supply ("{ext:name}"), names of temporary files ("{temp}"), values
// that cannot contain a separator ("{safe}") and everything else ("{?what}").
type shapeQuery struct {
	p    *Prog
	busy map[string]bool
	n    int
}

const maxShapes = 64

func (p *Prog) Shapes(v ssa.Value) []string {
	q := &shapeQuery{p: p, busy: map[string]bool{}}
	return q.rec(v)
}

// FieldShapes are the shapes of everything stored in a field.
func (p *Prog) FieldShapes(t types.Type, i int) []string {
	q := &shapeQuery{p: p, busy: map[string]bool{}}
	return q.field(t, i)
}

func uniq(s []string) []string {
	sort.Strings(s)
	var out []string
	for i, x := range s {
		if i == 0 || x != s[i-1] {
			out = append(out, x)
		}
	}
	if len(out) > maxShapes {
		out = append(out[:maxShapes:maxShapes], "{?too many}")
	}
	return out
}

func cross(a, b []string, sep string) (out []string) {
	for _, x := range a {
		for _, y := range b {
			switch {
			case sep != "" && x == "":
				out = append(out, y)
			case sep != "" && y == "":
				out = append(out, x)
			default:
				out = append(out, x+sep+y)
			}
		}
	}
	return uniq(out)
}

func each(a []string, f func(string) string) (out []string) {
	for _, x := range a {
		out = append(out, f(x))
	}
	return uniq(out)
}

func parentDir(s string) string {
	d := 0
	for i := len(s) - 1; i >= 0; i-- {
		switch s[i] {
		case '}':
			d++
		case '{':
			d--
		case '/':
			if d == 0 {
				return s[:i]
			}
		}
	}
	return "{?parent of " + s + "}"
}

func (q *shapeQuery) rec(v ssa.Value) (out []string) {
	q.n++
	if q.n > 5000 {
		return []string{"{?too complex}"}
	}
	if c, ok := v.(*ssa.Const); ok {
		if c.Value == nil {
			return []string{""}
		}
		if b, ok := types.Unalias(c.Type()).Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			return []string{constStr(c)}
		}
		return []string{"{safe}"}
	}
	k := vkey(v)
	if _, isF := v.(*ssa.Function); isF {
		return []string{"{?function}"}
	}
	if q.busy[k] {
		return nil
	}
	q.busy[k] = true
	defer delete(q.busy, k)
	switch x := v.(type) {
	case *ssa.BinOp:
		if x.Op == token.ADD {
			return cross(q.rec(x.X), q.rec(x.Y), "")
		}
		return []string{"{safe}"}
	case *ssa.Phi:
		for _, e := range x.Edges {
			out = append(out, q.rec(e)...)
		}
		return uniq(out)
	case *ssa.Slice:
		return each(q.rec(x.X), func(s string) string {
			if s == "{safe}" {
				return s
			}
			return "{?part of " + s + "}"
		})
	case *ssa.ChangeType:
		return q.rec(x.X)
	case *ssa.Convert:
		if b, ok := types.Unalias(x.X.Type()).Underlying().(*types.Basic); ok && b.Info()&types.IsNumeric != 0 {
			return []string{"{?rune}"}
		}
		return q.rec(x.X)
	case *ssa.MakeInterface:
		if b, ok := types.Unalias(x.X.Type()).Underlying().(*types.Basic); ok && b.Info()&(types.IsNumeric|types.IsBoolean) != 0 {
			return []string{"{safe}"}
		}
		return q.rec(x.X)
	case *ssa.TypeAssert:
		return q.rec(x.X)
	case *ssa.ChangeInterface:
		return q.rec(x.X)
	case *ssa.Parameter:
		f := x.Parent()
		idx := -1
		for i, pr := range f.Params {
			if pr == x {
				idx = i
			}
		}
		cs := q.p.Index().callers[f]
		if len(cs) == 0 || f.Object() != nil && f.Object().Exported() && fnPkgPath(f) == mp("ripsrc") {
			out = append(out, "{ext:"+x.Name()+"}")
		}
		for _, ci := range cs {
			if !isLibrary(ci.Parent()) {
				out = append(out, "{ext:"+x.Name()+"}")
				continue
			}
			a := ci.Common().Args
			i := idx
			if ci.Common().IsInvoke() {
				i--
			}
			if i >= 0 && i < len(a) {
				out = append(out, q.rec(a[i])...)
			}
		}
		return uniq(out)
	case *ssa.FreeVar:
		for _, b := range q.p.bindingsOf(x) {
			out = append(out, q.rec(b)...)
		}
		return uniq(out)
	case *ssa.Alloc:
		return q.cell(x)
	case *ssa.Field:
		return q.field(x.X.Type(), x.Field)
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return []string{"{?" + x.Op.String() + "}"}
		}
		switch a := x.X.(type) {
		case *ssa.FieldAddr:
			return q.field(a.X.Type(), a.Field)
		case *ssa.Alloc, *ssa.FreeVar:
			return q.cell(a)
		case *ssa.Global:
			return q.global(a)
		}
		return []string{"{?element}"}
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			return q.call(c, x.Index)
		}
		return []string{"{?element}"}
	case *ssa.Call:
		return q.call(x, 0)
	}
	return []string{"{?" + v.Name() + "}"}
}

func (q *shapeQuery) stores(addr ssa.Value) (out []string, known bool) {
	known = true
	if addr.Referrers() == nil {
		return nil, true
	}
	for _, r := range *addr.Referrers() {
		switch i := r.(type) {
		case *ssa.Store:
			if i.Addr == addr {
				out = append(out, q.rec(i.Val)...)
			} else {
				known = false
			}
		case *ssa.UnOp, *ssa.DebugRef, *ssa.MakeClosure, *ssa.FieldAddr:
		default:
			known = false
		}
	}
	return
}

func (q *shapeQuery) cell(v ssa.Value) (out []string) {
	for _, c := range q.p.sameCell(v) {
		s, known := q.stores(c)
		out = append(out, s...)
		if _, isA := c.(*ssa.Alloc); !known && isA {
			out = append(out, "{?"+v.Name()+"}")
		}
	}
	return uniq(out)
}

func (q *shapeQuery) global(g *ssa.Global) (out []string) {
	for _, fn := range q.p.Fns {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if st, ok := ins.(*ssa.Store); ok && st.Addr == ssa.Value(g) {
					out = append(out, q.rec(st.Val)...)
				}
			}
		}
	}
	if len(out) == 0 {
		out = []string{"{?" + g.Name() + "}"}
	}
	return uniq(out)
}

func (q *shapeQuery) field(t types.Type, i int) (out []string) {
	k := fieldKeyOf(t, i)
	if q.busy["field "+k] {
		return nil
	}
	q.busy["field "+k] = true
	defer delete(q.busy, "field "+k)
	name := structOf(t).Field(i).Name()
	if n := namedOf(t); n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == mp("ripsrc") && n.Obj().Name() == "Opts" {
		out = append(out, "{"+name+"}")
	}
	for _, a := range q.p.Index().fieldAddrs[k] {
		fa, ok := a.(*ssa.FieldAddr)
		if !ok {
			continue
		}
		if !isLibrary(fa.Parent()) {
			continue
		}
		s, known := q.stores(fa)
		out = append(out, s...)
		if !known {
			out = append(out, "{?address of "+name+"}")
		}
	}
	if len(out) == 0 {
		if n := namedOf(t); n != nil && strings.HasSuffix(n.Obj().Name(), "Opts") {
			return []string{"{ext:" + name + "}"}
		}
		out = []string{""}
	}
	return uniq(out)
}

func (q *shapeQuery) call(c *ssa.Call, res int) (out []string) {
	name := calleeName(&c.Call)
	a := c.Call.Args
	switch name {
	case "path/filepath.Join", "path.Join":
		el, ok := variadic(a[0])
		if !ok {
			return []string{"{?join}"}
		}
		out = []string{""}
		for _, e := range el {
			out = cross(out, q.rec(e), "/")
		}
		return out
	case "path/filepath.Dir", "path.Dir":
		return each(q.rec(a[0]), parentDir)
	case "path/filepath.Clean", "path/filepath.Abs", "path/filepath.FromSlash", "path/filepath.ToSlash", "path/filepath.EvalSymlinks", "strings.TrimSpace", "strings.Clone", "os/exec.LookPath":
		return q.rec(a[0])
	case "path/filepath.Base", "path.Base":
		return each(q.rec(a[0]), func(s string) string {
			if i := strings.LastIndexByte(s, '/'); i >= 0 && !strings.ContainsAny(s[i:], "{}") {
				return s[i+1:]
			}
			return "{?base of " + s + "}"
		})
	case "encoding/hex.EncodeToString", "strconv.Itoa", "strconv.FormatInt", "strconv.FormatUint", "strconv.FormatBool":
		return []string{"{safe}"}
	case "os.TempDir":
		return []string{"{tmpdir}"}
	case "(*os.File).Name":
		switch f := a[0].(type) {
		case *ssa.Extract:
			if fc, ok := f.Tuple.(*ssa.Call); ok {
				switch n := calleeName(&fc.Call); {
				case tempFileFns[n]:
					return []string{"{temp}"}
				case n == "os.Create" || n == "os.Open" || n == "os.OpenFile":
					return q.rec(fc.Call.Args[0])
				}
			}
		}
		return q.fileName(a[0])
	case "io/ioutil.TempDir", "os.MkdirTemp":
		return []string{"{temp}"}
	case "fmt.Sprintf":
		fs := q.rec(a[0])
		el, ok := variadic(a[1])
		if len(fs) != 1 || !ok {
			return []string{"{?sprintf}"}
		}
		out = []string{""}
		f := fs[0]
		i := 0
		for len(f) > 0 {
			j := strings.IndexByte(f, '%')
			if j < 0 || j+1 >= len(f) {
				return cross(out, []string{f}, "")
			}
			out = cross(out, []string{f[:j]}, "")
			switch c := f[j+1]; {
			case c == '%':
				out = cross(out, []string{"%"}, "")
			case (c == 's' || c == 'v' || c == 'd' || c == 'x') && i < len(el):
				s := q.rec(el[i])
				if c == 'd' || c == 'x' {
					s = []string{"{safe}"}
				}
				out = cross(out, s, "")
				i++
			default:
				return []string{"{?sprintf}"}
			}
			f = f[j+2:]
		}
		return out
	case "strings.Join":
		el, ok := variadic(a[0])
		sep := q.rec(a[1])
		if !ok || len(sep) != 1 {
			return []string{"{?join}"}
		}
		out = []string{""}
		for i, e := range el {
			if i > 0 {
				out = cross(out, sep, "")
			}
			out = cross(out, q.rec(e), "")
		}
		return out
	}
	cs := q.p.Callees(c)
	if len(cs) == 0 {
		return []string{"{?" + name + "}"}
	}
	for _, f := range cs {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if r, ok := ins.(*ssa.Return); ok && res < len(r.Results) {
					out = append(out, q.rec(r.Results[res])...)
				}
			}
		}
	}
	return uniq(out)
}

// fileName is the name a file was created with.
func (q *shapeQuery) fileName(f ssa.Value) (out []string) {
	for _, l := range q.p.Origins(f, "", nil) {
		c, ok := l.v.(*ssa.Call)
		if !ok {
			if cn, isC := l.v.(*ssa.Const); isC && cn.Value == nil {
				continue
			}
			return []string{"{?name of file}"}
		}
		switch n := calleeName(&c.Call); {
		case tempFileFns[n]:
			out = append(out, "{temp}")
		case n == "os.Create" || n == "os.Open" || n == "os.OpenFile":
			out = append(out, q.rec(c.Call.Args[0])...)
		default:
			return []string{"{?name of file}"}
		}
	}
	return uniq(out)
}

// variadic lists the elements of a slice built at the call.
func variadic(v ssa.Value) ([]ssa.Value, bool) {
	if c, ok := v.(*ssa.Const); ok && c.Value == nil {
		return nil, true
	}
	sl, ok := v.(*ssa.Slice)
	if !ok || sl.Low != nil || sl.High != nil {
		return nil, false
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return nil, false
	}
	at, ok := types.Unalias(al.Type().Underlying().(*types.Pointer).Elem()).Underlying().(*types.Array)
	if !ok {
		return nil, false
	}
	out := make([]ssa.Value, at.Len())
	for _, r := range *al.Referrers() {
		switch i := r.(type) {
		case *ssa.IndexAddr:
			c, ok := i.Index.(*ssa.Const)
			if !ok {
				return nil, false
			}
			for _, r2 := range *i.Referrers() {
				st, ok := r2.(*ssa.Store)
				if !ok || st.Addr != ssa.Value(i) {
					return nil, false
				}
				if n := c.Int64(); n >= 0 && n < at.Len() {
					out[n] = st.Val
				}
			}
		case *ssa.Slice, *ssa.DebugRef:
		default:
			return nil, false
		}
	}
	for _, e := range out {
		if e == nil {
			return nil, false
		}
	}
	return out, true
}
