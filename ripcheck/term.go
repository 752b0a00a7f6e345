package main

import (
	"go/constant"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Term is a canonical description of where a value comes from.
type Term struct {
	Op    string
	S     string
	A     []*Term
	ID    string // instance identity of an opaque result ("frame#instr"), or ""
	V     ssa.Value
	T     types.Type // concrete type, when known to be more precise than the static one
	key   string
	canon string
	ids   []string // instances this term depends on
	depth int
	seq   int
}

type terms struct {
	m map[string]*Term
}

const maxTermDepth = 14

func (ts *terms) mk(op, s, id string, a ...*Term) *Term {
	var kb strings.Builder
	kb.WriteString(op)
	if s != "" {
		kb.WriteByte(':')
		kb.WriteString(s)
	}
	if id != "" {
		kb.WriteByte('#')
		kb.WriteString(id)
	}
	if len(a) > 0 {
		kb.WriteByte('(')
		for i, x := range a {
			if i > 0 {
				kb.WriteByte(',')
			}
			if x == nil {
				kb.WriteByte('_')
			} else {
				kb.WriteByte('$')
				kb.WriteString(strconv.Itoa(x.seq))
			}
		}
		kb.WriteByte(')')
	}
	k := kb.String()
	if t := ts.m[k]; t != nil {
		return t
	}
	t := &Term{Op: op, S: s, ID: id, A: a, key: k}
	set := map[string]bool{}
	if id != "" {
		set[id] = true
	}
	for _, x := range a {
		if x == nil {
			continue
		}
		if x.depth+1 > t.depth {
			t.depth = x.depth + 1
		}
		for _, y := range x.ids {
			set[y] = true
		}
	}
	for y := range set {
		t.ids = append(t.ids, y)
	}
	sort.Strings(t.ids)
	t.seq = len(ts.m)
	ts.m[k] = t
	return t
}

// Canon is the structural form, without instance identities.
func (t *Term) Canon() string {
	if t == nil {
		return "_"
	}
	if t.canon != "" {
		return t.canon
	}
	var b strings.Builder
	b.WriteString(t.Op)
	if t.S != "" {
		b.WriteByte(':')
		b.WriteString(t.S)
	}
	if t.Op == "phi" || t.Op == "old" || t.Op == "new" || t.Op == "mmap" || t.Op == "mchan" || t.Op == "clo" {
		b.WriteByte('#')
		b.WriteString(t.ID)
		if t.Op == "clo" {
			t.canon = b.String()
			return t.canon
		}
	}
	if len(t.A) > 0 {
		b.WriteByte('(')
		for i, x := range t.A {
			if i > 0 {
				b.WriteByte(',')
			}
			b.WriteString(x.Canon())
		}
		b.WriteByte(')')
	}
	t.canon = b.String()
	if len(t.canon) > 4000 {
		t.canon = t.canon[:4000]
	}
	return t.canon
}

func (t *Term) String() string { return t.Canon() }

func (t *Term) Has(f func(*Term) bool) bool {
	seen := map[*Term]bool{}
	var rec func(*Term) bool
	rec = func(t *Term) bool {
		if t == nil || seen[t] {
			return false
		}
		seen[t] = true
		if f(t) {
			return true
		}
		for _, a := range t.A {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

func (t *Term) IsConst() bool { return t != nil && t.Op == "const" }
func (t *Term) Is(op string, s ...string) bool {
	if t == nil || t.Op != op {
		return false
	}
	if len(s) == 0 {
		return true
	}
	for _, x := range s {
		if t.S == x {
			return true
		}
	}
	return false
}

// Str returns the string value of a string constant.
func (t *Term) Str() (string, bool) {
	if t == nil || t.Op != "const" || len(t.S) < 2 || t.S[0] != '"' {
		return "", false
	}
	s, err := strconv.Unquote(t.S)
	return s, err == nil
}

func (t *Term) Int() (int64, bool) {
	if t == nil || t.Op != "const" {
		return 0, false
	}
	n, err := strconv.ParseInt(t.S, 10, 64)
	return n, err == nil
}

func (ts *terms) Const(c *ssa.Const) *Term {
	if c.Value == nil {
		if structOf(c.Type()) != nil && !types.IsInterface(c.Type()) {
			if _, ok := types.Unalias(c.Type()).Underlying().(*types.Struct); ok {
				return ts.mk("zero", typeKey(c.Type()), "")
			}
		}
		return ts.Nil()
	}
	switch c.Value.Kind() {
	case constant.String:
		return ts.StrConst(constant.StringVal(c.Value))
	case constant.Bool:
		return ts.Bool(constant.BoolVal(c.Value))
	case constant.Int:
		return ts.mk("const", c.Value.ExactString(), "")
	}
	return ts.mk("const", c.Value.ExactString(), "")
}

func (ts *terms) Nil() *Term              { return ts.mk("const", "nil", "") }
func (ts *terms) StrConst(s string) *Term { return ts.mk("const", strconv.Quote(s), "") }
func (ts *terms) IntConst(n int64) *Term  { return ts.mk("const", strconv.FormatInt(n, 10), "") }
func (ts *terms) Bool(b bool) *Term       { return ts.mk("const", strconv.FormatBool(b), "") }
func (ts *terms) Zero(t types.Type) *Term {
	switch u := types.Unalias(t).Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return ts.StrConst("")
		case u.Info()&types.IsBoolean != 0:
			return ts.Bool(false)
		case u.Info()&types.IsNumeric != 0:
			return ts.IntConst(0)
		}
		return ts.Nil()
	case *types.Struct:
		return ts.mk("zero", typeKey(t), "")
	case *types.Array:
		return ts.mk("zero", types.TypeString(t, nil), "")
	}
	return ts.Nil()
}

// Field selects a field of a struct value or of the struct a pointer points to.
func (ts *terms) Field(base *Term, name string) *Term {
	for {
		switch base.Op {
		case "st":
			names := strings.Split(base.S, ",")
			for i, n := range names {
				if n == name {
					return base.A[i+1]
				}
			}
			base = base.A[0]
			continue
		case "ld":
			base = base.A[0]
			continue
		case "ia":
			base = ts.mk("el", "", "", base.A[0], base.A[1])
			continue
		}
		break
	}
	return ts.mk("f", name, "", base)
}

// SetField returns the struct value base with one field replaced.
func (ts *terms) SetField(base *Term, name string, v *Term) *Term {
	m := map[string]*Term{}
	b := base
	if base.Op == "st" {
		for i, n := range strings.Split(base.S, ",") {
			m[n] = base.A[i+1]
		}
		b = base.A[0]
	}
	m[name] = v
	var names []string
	for n := range m {
		names = append(names, n)
	}
	sort.Strings(names)
	args := []*Term{b}
	for _, n := range names {
		args = append(args, m[n])
	}
	return ts.mk("st", strings.Join(names, ","), "", args...)
}

// ---- conditions ----

func isEmptyConst(t *Term) bool { return t.IsConst() && (t.S == `""` || t.S == "nil") }

// Cond normalises a boolean term; the second result is the polarity.
func (ts *terms) Cond(t *Term) (*Term, bool) {
	pol := true
	for {
		if t.Op == "u" && t.S == "!" {
			pol = !pol
			t = t.A[0]
			continue
		}
		if t.Op == "b" && (t.S == "==" || t.S == "!=") {
			x, y := t.A[0], t.A[1]
			if x.IsConst() && !y.IsConst() {
				x, y = y, x
			}
			if y.IsConst() && (y.S == "true" || y.S == "false") {
				if (y.S == "true") != (t.S == "==") {
					pol = !pol
				}
				t = x
				continue
			}
			if t.S == "!=" {
				pol = !pol
			}
			if y.IsConst() && y.S == "nil" {
				return ts.mk("isnil", "", "", x), pol
			}
			if y.IsConst() && y.S == `""` {
				return ts.mk("empty", "", "", x), pol
			}
			if x.Op == "len" && y.IsConst() && y.S == "0" {
				return ts.mk("empty", "", "", x.A[0]), pol
			}
			if !y.IsConst() && x.key > y.key {
				x, y = y, x
			}
			return ts.mk("eq", "", "", x, y), pol
		}
		if t.Op == "b" && (t.S == "<" || t.S == ">" || t.S == "<=" || t.S == ">=") {
			x, y := t.A[0], t.A[1]
			op := t.S
			if op == ">" || op == "<=" { // x>y == y<x ; x<=y == !(y<x)
				x, y = y, x
				if op == "<=" {
					pol = !pol
				}
			} else if op == ">=" {
				pol = !pol
			}
			// now x<y
			if x.Op == "const" && x.S == "0" && y.Op == "len" {
				return ts.mk("empty", "", "", y.A[0]), !pol
			}
			if y.Op == "const" && y.S == "1" && x.Op == "len" {
				return ts.mk("empty", "", "", x.A[0]), pol
			}
			return ts.mk("lt", "", "", x, y), pol
		}
		if t.Op == "call" && (t.S == "bytes.Equal") {
			x, y := t.A[0], t.A[1]
			if x.IsConst() && !y.IsConst() {
				x, y = y, x
			}
			if y.IsConst() && isEmptyConst(y) {
				return ts.mk("empty", "", "", x), pol
			}
			if !y.IsConst() && x.key > y.key {
				x, y = y, x
			}
			return ts.mk("eq", "", "", x, y), pol
		}
		return t, pol
	}
}

type fact struct {
	t *Term
	v bool
}

type factMap map[string]fact

// fixedLen: the length of a list written out in the source.
func fixedLen(t *Term) (int64, bool) {
	if t.Op == "len" {
		if l := t.A[0]; l.Op == "sl" && l.A[0].Op == "new" && l.A[1] == nil && l.A[2] == nil {
			n, err := strconv.ParseInt(l.A[0].S, 10, 64)
			return n, err == nil
		}
	}
	return 0, false
}

func nonNegative(t *Term) bool { return t.Op == "len" || t.Op == "cap" }

// bounds derives an interval for an integer term from constants and facts.
func (ts *terms) bounds(t *Term, fs factMap) (lo, hi int64, hasLo, hasHi bool) {
	if n, ok := t.Int(); ok {
		return n, n, true, true
	}
	if n, ok := fixedLen(t); ok {
		return n, n, true, true
	}
	if nonNegative(t) {
		lo, hasLo = 0, true
		if f, ok := fs["empty("+"$"+strconv.Itoa(t.A[0].seq)+")"]; ok {
			if f.v {
				return 0, 0, true, true
			}
			lo = 1
		}
	}
	if t.Op == "b" && (t.S == "+" || t.S == "-") {
		if c, ok := t.A[1].Int(); ok {
			if t.S == "-" {
				c = -c
			}
			l, h, a, b := ts.bounds(t.A[0], fs)
			if a {
				lo, hasLo = l+c, true
			}
			if b {
				hi, hasHi = h+c, true
			}
		}
	}
	upd := func(l int64, isLo bool) {
		if isLo {
			if !hasLo || l > lo {
				lo, hasLo = l, true
			}
		} else {
			if !hasHi || l < hi {
				hi, hasHi = l, true
			}
		}
	}
	for _, f := range fs {
		switch f.t.Op {
		case "lt":
			x, y := f.t.A[0], f.t.A[1]
			if x == t {
				if c, ok := y.Int(); ok {
					if f.v {
						upd(c-1, false)
					} else {
						upd(c, true)
					}
				}
			} else if y == t {
				if c, ok := x.Int(); ok {
					if f.v {
						upd(c+1, true)
					} else {
						upd(c, false)
					}
				}
			}
		case "eq":
			if f.t.A[0] == t && f.v {
				if c, ok := f.t.A[1].Int(); ok {
					upd(c, true)
					upd(c, false)
				}
			}
		}
	}
	return
}

func (ts *terms) neverNil(t *Term) bool {
	switch t.Op {
	case "new", "clo", "fn", "mmap", "mchan", "mslice", "fa", "ia", "glob", "st", "zero", "iface":
		return true
	case "const":
		return t.S != "nil"
	case "call":
		switch t.S {
		case "fmt.Errorf", "errors.New":
			return true
		}
	case "sl":
		return t.A[0].Op == "new"
	case "glob0":
		return true
	}
	return false
}

// Known evaluates a normalised condition against constants and facts.
func (ts *terms) Known(c *Term, fs factMap) (bool, bool) {
	if c.IsConst() {
		return c.S == "true", true
	}
	if f, ok := fs[c.key]; ok {
		return f.v, true
	}
	switch c.Op {
	case "more":
		if v, ok := ts.Known(ts.mk("empty", "", "", c.A[0]), fs); ok && v {
			return false, true
		}
	case "isnil":
		x := c.A[0]
		if x.IsConst() {
			return x.S == "nil", true
		}
		if ts.neverNil(x) {
			return false, true
		}
		if f, ok := fs[ts.mk("empty", "", "", x).key]; ok && !f.v {
			return false, true
		}
		if x.Op == "call" && x.S == "github.com/tinylib/msgp/msgp.WrapError" && len(x.A) > 0 {
			if v, ok := ts.Known(ts.mk("isnil", "", "", x.A[0]), fs); ok {
				return v, true
			}
		}
		if x.Op == "app" {
			if v, ok := ts.Known(ts.mk("empty", "", "", x), fs); ok && !v {
				return false, true
			}
		}
	case "empty":
		x := c.A[0]
		if x.IsConst() {
			return isEmptyConst(x), true
		}
		if f, ok := fs[ts.mk("isnil", "", "", x).key]; ok && f.v {
			return true, true
		}
		if x.Op == "call" && x.S == "fmt.Sprintf" && len(x.A) > 0 {
			// text outside the verbs
			if f, ok := x.A[0].Str(); ok && f != "" && (f[0] != '%' || strings.HasPrefix(f, "%%")) {
				return false, true
			}
		}
		if x.Op == "app" {
			for _, a := range x.A {
				if a == nil {
					continue
				}
				if v, ok := ts.Known(ts.mk("empty", "", "", a), fs); ok && !v {
					return false, true
				}
			}
			all := true
			for _, a := range x.A {
				if v, ok := ts.Known(ts.mk("empty", "", "", a), fs); !ok || !v {
					all = false
				}
			}
			if all {
				return true, true
			}
		}
		if x.Op == "sl" && x.A[0].Op == "new" && x.A[1] == nil && x.A[2] == nil {
			if n, err := strconv.Atoi(x.A[0].S); err == nil {
				return n == 0, true
			}
		}
		if x.Op == "b" && x.S == "+" {
			for _, a := range x.A {
				if s, ok := a.Str(); ok && s != "" {
					return false, true
				}
			}
		}
		if x.Op == "mslice" {
			if n, ok := x.A[0].Int(); ok {
				return n == 0, true
			}
		}
		// x == "const" known
		for _, f := range fs {
			if f.t.Op == "eq" && f.v && f.t.A[0] == x && f.t.A[1].IsConst() {
				return isEmptyConst(f.t.A[1]), true
			}
		}
		lo, hi, a, b := ts.bounds(ts.mk("len", "", "", x), fs)
		if a && lo > 0 {
			return false, true
		}
		if b && hi <= 0 {
			return true, true
		}
	case "eq":
		x, y := c.A[0], c.A[1]
		if x == y {
			return true, true
		}
		if x.IsConst() && y.IsConst() {
			return x.S == y.S, true
		}
		if y.IsConst() {
			for _, f := range fs {
				if f.t.Op == "eq" && f.v && f.t.A[0] == x && f.t.A[1].IsConst() {
					return f.t.A[1].S == y.S, true
				}
			}
			if s, ok := y.Str(); ok && s != "" {
				if v, ok := ts.Known(ts.mk("empty", "", "", x), fs); ok && v {
					return false, true
				}
			}
			if n, ok := y.Int(); ok {
				lo, hi, a, b := ts.bounds(x, fs)
				if a && n < lo || b && n > hi {
					return false, true
				}
				if a && b && lo == hi && lo == n {
					return true, true
				}
			}
		}
		if x.Op == "new" && y.Op == "new" && x.ID != y.ID {
			return false, true
		}
	case "lt":
		x, y := c.A[0], c.A[1]
		if x == y {
			return false, true
		}
		xl, xh, xa, xb := ts.bounds(x, fs)
		yl, yh, ya, yb := ts.bounds(y, fs)
		if xb && ya && xh < yl {
			return true, true
		}
		if xa && yb && xl >= yh {
			return false, true
		}
	}
	return false, false
}

func (t *Term) contains(u *Term) bool { return t.Has(func(v *Term) bool { return v == u }) }
