package main

import (
	"encoding/json"
	"go/constant"
	"go/types"
	"regexp"
	"strings"
	"time"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// Shapes: an abstract domain of texts. A text is made of constants and of holes that stand for any
// content; holes are written as runes of the private use area. What is computed from a text of a
// known shape is again a shape, as long as the operation does not depend on what is in the holes.

const (
	holeName  = '\ue000' // .. e00f: any text, not empty
	holeDigit = '\ue010' // .. e01f: digits
	holeHex   = '\ue020' // .. e02f: hex digits
	holeOld   = "\ue00f" // a text of an earlier line
)

type aval struct {
	K byte   `json:"k"` // s string or bytes, i int, b bool, l list, t tuple, p pointer, o opaque
	S string `json:"s,omitempty"`
	N int64  `json:"n,omitempty"`
	L []aval `json:"l,omitempty"`
}

func avS(s string) aval { return aval{K: 's', S: s} }
func avI(n int) aval    { return aval{K: 'i', N: int64(n)} }
func avB(b bool) aval {
	if b {
		return aval{K: 'b', N: 1}
	}
	return aval{K: 'b'}
}
func avL(s []string) aval {
	a := aval{K: 'l'}
	for _, x := range s {
		a.L = append(a.L, avS(x))
	}
	return a
}

func (a aval) enc() string {
	if a.K == 0 {
		return ""
	}
	b, _ := json.Marshal(a)
	return string(b)
}

func decAval(s string) (a aval, ok bool) {
	if s == "" || s == "?" {
		return a, false
	}
	return a, json.Unmarshal([]byte(s), &a) == nil
}

func isHole(r rune) bool { return r >= holeName && r < holeName+0x100 }

func hasHole(s string) bool { return strings.IndexFunc(s, isHole) >= 0 }

// shapeRe matches every text of a shape.
func shapeRe(s string) string {
	var b strings.Builder
	for _, r := range s {
		switch {
		case r >= holeHex && r < holeHex+16:
			b.WriteString("[0-9a-f]+")
		case r >= holeDigit && r < holeDigit+16:
			b.WriteString("[0-9]+")
		case isHole(r):
			b.WriteString("[^\t\n]+")
		default:
			b.WriteString(regexp.QuoteMeta(string(r)))
		}
	}
	return b.String()
}

// shapeEq compares texts; known is false if it depends on what is in a hole.
func shapeEq(a, b string) (eq, known bool) {
	if a == b {
		return true, true
	}
	ha, hb := hasHole(a), hasHole(b)
	switch {
	case !ha && !hb:
		return false, true
	case ha && hb:
		// different constant beginnings
		i := strings.IndexFunc(a, isHole)
		j := strings.IndexFunc(b, isHole)
		if i > j {
			i = j
		}
		if a[:i] != b[:i] {
			return false, true
		}
		if shorter(a, b) || shorter(b, a) {
			return false, true
		}
		return false, false
	case hb:
		a, b = b, a
	}
	if !regexp.MustCompile(`^(?s:` + shapeRe(a) + `)$`).MatchString(b) {
		return false, true
	}
	return false, false
}

// shorter: a has no hole that b has not, and less constant text.
func shorter(a, b string) bool {
	n := map[rune]int{}
	d := 0
	for _, r := range b {
		if isHole(r) {
			n[r]++
		} else {
			d += utf8.RuneLen(r)
		}
	}
	for _, r := range a {
		if isHole(r) {
			if n[r]--; n[r] < 0 {
				return false
			}
		} else {
			d -= utf8.RuneLen(r)
		}
	}
	return d > 0
}

// shapePrefix: whether s starts with the constant p.
func shapePrefix(s, p string) (has, known bool) {
	if hasHole(p) {
		return strings.HasPrefix(s, p), strings.HasPrefix(s, p)
	}
	for p != "" {
		if s == "" {
			return false, true
		}
		r, n := utf8.DecodeRuneInString(s)
		if isHole(r) {
			ok := true
			switch {
			case r >= holeHex && r < holeHex+16:
				ok = strings.IndexByte("0123456789abcdef", p[0]) >= 0
			case r >= holeDigit && r < holeDigit+16:
				ok = p[0] >= '0' && p[0] <= '9'
			default:
				ok = p[0] != '\t' && p[0] != '\n'
			}
			return false, !ok
		}
		if !strings.HasPrefix(p, s[:n]) {
			return false, true
		}
		s, p = s[n:], p[n:]
	}
	return true, true
}

func rev(s string) string {
	r := []rune(s)
	for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
		r[i], r[j] = r[j], r[i]
	}
	return string(r)
}

// shapes evaluates terms while a line of a known shape is being looked at.
type shapes struct {
	x    *X
	line string // the shape of the line; "\x00" if there is none
}

type ginit struct {
	kind string // str, re, map
	s    string
	m    map[string]aval
}

// globalInit is the content of a variable that is only ever set by its declaration.
func (p *Prog) globalInit(g *ssa.Global) ginit {
	p.ginitMu.Lock()
	defer p.ginitMu.Unlock()
	if r, ok := p.ginits[g]; ok {
		return r
	}
	var r ginit
	n := 0
	var mm *ssa.MakeMap
	for _, fn := range p.Fns {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				st, ok := ins.(*ssa.Store)
				if !ok || st.Addr != ssa.Value(g) {
					continue
				}
				n++
				if fn.Name() != "init" {
					n = 100
				}
				switch v := unconvert(st.Val).(type) {
				case *ssa.Const:
					if v.Value != nil && v.Value.Kind() == constant.String {
						r = ginit{kind: "str", s: constant.StringVal(v.Value)}
					}
				case *ssa.Call:
					if f := v.Call.StaticCallee(); f != nil && f.String() == "regexp.MustCompile" {
						if c, ok := v.Call.Args[0].(*ssa.Const); ok && c.Value != nil {
							r = ginit{kind: "re", s: constant.StringVal(c.Value)}
						}
					}
				case *ssa.MakeMap:
					mm = v
				}
			}
		}
	}
	if mm != nil {
		r = ginit{kind: "map", m: map[string]aval{}}
		for _, u := range *mm.Referrers() {
			if mu, ok := u.(*ssa.MapUpdate); ok {
				k, ok := unconvert(mu.Key).(*ssa.Const)
				v, ok2 := unconvert(mu.Value).(*ssa.Const)
				if !ok || !ok2 || k.Value == nil || v.Value == nil {
					n = 100
					break
				}
				r.m[constAval(k).enc()] = constAval(v)
			}
		}
	}
	if n != 1 {
		r = ginit{}
	}
	if p.ginits == nil {
		p.ginits = map[*ssa.Global]ginit{}
	}
	p.ginits[g] = r
	return r
}

func constAval(c *ssa.Const) aval {
	if c.Value == nil {
		return aval{K: 'p', S: "nil"}
	}
	switch c.Value.Kind() {
	case constant.String:
		return avS(constant.StringVal(c.Value))
	case constant.Bool:
		return avB(constant.BoolVal(c.Value))
	case constant.Int:
		n, _ := constant.Int64Val(c.Value)
		return aval{K: 'i', N: n}
	}
	return aval{}
}

func (s *shapes) str(t *Term) (string, bool) {
	a, ok := s.eval(t)
	if ok && a.K == 'p' && a.S == "nil" {
		return "", true
	}
	return a.S, ok && a.K == 's'
}

func (s *shapes) int(t *Term) (int, bool) {
	a, ok := s.eval(t)
	return int(a.N), ok && a.K == 'i' && a.S == ""
}

func (s *shapes) eval(t *Term) (aval, bool) {
	none := aval{}
	if t == nil {
		return none, false
	}
	if isLine(t) {
		if s.line == "\x00" {
			return none, false
		}
		return avS(s.line), true
	}
	if v, ok := decAval(s.x.Get("v:" + t.key)); ok {
		return v, true
	}
	switch t.Op {
	case "const":
		if v, ok := t.Str(); ok {
			return avS(v), true
		}
		switch t.S {
		case "nil":
			return aval{K: 'p', S: "nil"}, true
		case "true":
			return avB(true), true
		case "false":
			return avB(false), true
		}
		if n, ok := t.Int(); ok {
			return avI(int(n)), true
		}
	case "g":
		if g, ok := t.V.(*ssa.Global); ok && t.ID == "" {
			if in := s.x.p.globalInit(g); in.kind == "str" {
				return avS(in.s), true
			}
		}
	case "len":
		a, ok := s.eval(t.A[0])
		if !ok {
			return none, false
		}
		switch a.K {
		case 's':
			return avI(len(a.S)), true
		case 'l':
			return avI(len(a.L)), true
		case 'p':
			return avI(0), a.S == "nil"
		}
	case "el", "ld", "lk":
		b := t
		if t.Op == "ld" && t.A[0].Op == "ia" {
			b = t.A[0]
		}
		if t.Op == "lk" {
			if t.A[0].Op == "g" {
				if g, ok := t.A[0].V.(*ssa.Global); ok {
					if in := s.x.p.globalInit(g); in.kind == "map" {
						if k, ok := s.eval(t.A[1]); ok && !hasHole(k.S) {
							v, ok := in.m[k.enc()]
							return v, ok
						}
					}
				}
			}
		}
		if len(b.A) != 2 {
			return none, false
		}
		a, ok := s.eval(b.A[0])
		i, ok2 := s.int(b.A[1])
		if !ok || !ok2 || i < 0 {
			return none, false
		}
		switch a.K {
		case 's':
			if i < len(a.S) && a.S[i] < utf8.RuneSelf {
				return avI(int(a.S[i])), true
			}
		case 'l':
			if i < len(a.L) {
				return a.L[i], true
			}
		}
	case "sl":
		a, ok := s.eval(t.A[0])
		if !ok {
			return none, false
		}
		n := len(a.S)
		if a.K == 'l' {
			n = len(a.L)
		} else if a.K != 's' {
			return none, false
		}
		lo, hi := 0, n
		if t.A[1] != nil {
			if lo, ok = s.int(t.A[1]); !ok {
				return none, false
			}
		}
		if t.A[2] != nil {
			if hi, ok = s.int(t.A[2]); !ok {
				return none, false
			}
		}
		if lo < 0 || hi > n || lo > hi {
			return none, false
		}
		if a.K == 'l' {
			return aval{K: 'l', L: a.L[lo:hi]}, true
		}
		if !utf8.ValidString(a.S[lo:hi]) {
			return none, false // cuts into a hole
		}
		return avS(a.S[lo:hi]), true
	case "b":
		a, ok := s.eval(t.A[0])
		b, ok2 := s.eval(t.A[1])
		if !ok || !ok2 {
			return none, false
		}
		switch {
		case a.K == 's' && b.K == 's' && t.S == "+":
			return avS(a.S + b.S), true
		case a.K == 'i' && b.K == 'i' && (t.S == "+" || t.S == "-"):
			if t.S == "-" && b.S != "" || a.S != "" && b.S != "" {
				return none, false
			}
			n := a.N + b.N
			if t.S == "-" {
				n = a.N - b.N
			}
			return aval{K: 'i', S: a.S + b.S, N: n}, true
		}
		if v, ok := s.cond(t); ok {
			return avB(v), true
		}
	case "u":
		if t.S == "!" {
			if v, ok := s.cond(t); ok {
				return avB(v), true
			}
		}
	case "x":
		a, ok := s.eval(t.A[0])
		if ok && a.K == 't' {
			i := int(t.S[0] - '0')
			if i < len(a.L) {
				return a.L[i], a.L[i].K != 0
			}
		}
	case "call":
		return s.call(t)
	}
	return none, false
}

func (s *shapes) regex(t *Term) *regexp.Regexp {
	if t.Op == "g" && t.ID == "" {
		if g, ok := t.V.(*ssa.Global); ok {
			if in := s.x.p.globalInit(g); in.kind == "re" {
				if re, err := regexp.Compile(in.s); err == nil {
					return re
				}
			}
		}
	}
	if t.Op == "call" && t.S == "regexp.MustCompile" {
		if p, ok := t.A[0].Str(); ok {
			if re, err := regexp.Compile(p); err == nil {
				return re
			}
		}
	}
	return nil
}

func (s *shapes) call(t *Term) (aval, bool) {
	none := aval{}
	name := t.S
	if strings.HasPrefix(name, "(*regexp.Regexp).") {
		re := s.regex(t.A[0])
		v, ok := s.str(t.A[1])
		if re == nil || !ok {
			return none, false
		}
		switch strings.TrimPrefix(name, "(*regexp.Regexp).") {
		case "MatchString", "Match":
			return avB(re.MatchString(v)), true
		case "FindStringSubmatch", "FindSubmatch":
			m := re.FindStringSubmatch(v)
			if m == nil {
				return aval{K: 'p', S: "nil"}, true
			}
			return avL(m), true
		case "FindString":
			return avS(re.FindString(v)), true
		case "Split":
			if n, ok := s.int(t.A[2]); ok {
				return avL(re.Split(v, n)), true
			}
		}
		return none, false
	}
	str := func(i int) string { r, _ := s.str(t.A[i]); return r }
	base := strings.TrimPrefix(name, "bytes.")
	isB := base != name
	if !isB {
		base = strings.TrimPrefix(name, "strings.")
	}
	if base != name {
		if base == "Join" {
			l, ok := s.eval(t.A[0])
			sep, ok2 := s.str(t.A[1])
			if !ok || !ok2 || l.K != 'l' {
				return none, false
			}
			var p []string
			for _, e := range l.L {
				if e.K != 's' {
					return none, false
				}
				p = append(p, e.S)
			}
			return avS(strings.Join(p, sep)), true
		}
		v, ok := s.str(t.A[0])
		if !ok {
			return none, false
		}
		for i := 1; i < len(t.A); i++ {
			if _, ok := s.eval(t.A[i]); !ok {
				return none, false
			}
		}
		switch base {
		case "HasPrefix":
			r, known := shapePrefix(v, str(1))
			return avB(r), known
		case "HasSuffix":
			r, known := shapePrefix(rev(v), rev(str(1)))
			return avB(r), known
		case "Contains":
			return avB(strings.Contains(v, str(1))), true
		case "ContainsRune", "ContainsAny":
			if base == "ContainsAny" {
				return avB(strings.ContainsAny(v, str(1))), true
			}
			n, _ := s.int(t.A[1])
			return avB(strings.ContainsRune(v, rune(n))), true
		case "Equal":
			r, known := shapeEq(v, str(1))
			return avB(r), known
		case "Count":
			return avI(strings.Count(v, str(1))), true
		case "Index":
			return avI(strings.Index(v, str(1))), true
		case "LastIndex":
			return avI(strings.LastIndex(v, str(1))), true
		case "IndexByte", "IndexRune":
			n, _ := s.int(t.A[1])
			return avI(strings.IndexRune(v, rune(n))), true
		case "LastIndexByte":
			n, _ := s.int(t.A[1])
			return avI(strings.LastIndexByte(v, byte(n))), true
		case "IndexAny":
			return avI(strings.IndexAny(v, str(1))), true
		case "Split":
			return avL(strings.Split(v, str(1))), true
		case "SplitN":
			n, _ := s.int(t.A[2])
			return avL(strings.SplitN(v, str(1), n)), true
		case "SplitAfter":
			return avL(strings.SplitAfter(v, str(1))), true
		case "Fields":
			return avL(strings.Fields(v)), true
		case "Cut":
			a, b, f := strings.Cut(v, str(1))
			return aval{K: 't', L: []aval{avS(a), avS(b), avB(f)}}, true
		case "CutPrefix":
			has, known := shapePrefix(v, str(1))
			if !known {
				return none, false
			}
			return aval{K: 't', L: []aval{avS(strings.TrimPrefix(v, str(1))), avB(has)}}, true
		case "TrimPrefix":
			if _, known := shapePrefix(v, str(1)); !known {
				return none, false
			}
			return avS(strings.TrimPrefix(v, str(1))), true
		case "TrimSuffix":
			if _, known := shapePrefix(rev(v), rev(str(1))); !known {
				return none, false
			}
			return avS(strings.TrimSuffix(v, str(1))), true
		case "TrimSpace":
			return avS(strings.TrimSpace(v)), true
		case "Trim":
			return trimShape(strings.Trim(v, str(1)), str(1), true, true)
		case "TrimLeft":
			return trimShape(strings.TrimLeft(v, str(1)), str(1), true, false)
		case "TrimRight":
			return trimShape(strings.TrimRight(v, str(1)), str(1), false, true)
		case "Replace", "ReplaceAll":
			if base == "ReplaceAll" {
				return avS(strings.ReplaceAll(v, str(1), str(2))), true
			}
			n, _ := s.int(t.A[3])
			return avS(strings.Replace(v, str(1), str(2), n)), true
		}
		return none, false
	}
	if splitsByRegexp(t) {
		v, ok := s.str(t.A[0])
		if re := s.regex(t.A[1]); ok && re != nil {
			return avL(re.Split(v, -1)), true
		}
		return none, false
	}
	switch name {
	case "strconv.Atoi", "strconv.ParseInt", "strconv.ParseUint":
		v, ok := s.str(t.A[0])
		if !ok {
			return none, false
		}
		if name != "strconv.Atoi" {
			if n, ok := s.int(t.A[1]); !ok || n != 10 {
				return none, false
			}
			if n, ok := s.int(t.A[2]); !ok || n != 0 && n < 32 {
				return none, false
			}
		}
		return aval{K: 't', L: []aval{{K: 'o', S: "int " + v}, {}}}, true
	case "time.Parse":
		l, ok := s.str(t.A[0])
		v, ok2 := s.str(t.A[1])
		if !ok || !ok2 {
			return none, false
		}
		return aval{K: 't', L: []aval{{K: 'o', S: "time " + l + "|" + v}, {}}}, true
	case "(time.Time).UTC":
		return s.eval(t.A[0])
	case "path.Join":
		el, ok := s.x.Elems(t.A[0])
		if !ok {
			return none, false
		}
		var p []string
		for _, e := range el {
			v, ok := s.str(e)
			if !ok {
				return none, false
			}
			if v != "" {
				p = append(p, v)
			}
		}
		r := strings.Join(p, "/")
		for strings.Contains(r, "//") {
			r = strings.ReplaceAll(r, "//", "/")
		}
		return avS(r), true
	case "path/filepath.Clean", "path.Clean":
		return s.eval(t.A[0])
	}
	return none, false
}

// cond decides a condition.
func (s *shapes) cond(t *Term) (v, known bool) {
	c, pol := s.x.ts.Cond(t)
	flip := func(v bool) (bool, bool) { return v == pol, true }
	switch c.Op {
	case "const":
		return flip(c.S == "true")
	case "empty":
		a, ok := s.eval(c.A[0])
		if !ok {
			return false, false
		}
		switch a.K {
		case 's':
			return flip(a.S == "")
		case 'l':
			return flip(len(a.L) == 0)
		case 'p':
			if a.S == "nil" {
				return flip(true)
			}
		}
	case "isnil":
		a, ok := s.eval(c.A[0])
		if !ok {
			return false, false
		}
		switch a.K {
		case 'p':
			return flip(a.S == "nil")
		case 'l':
			return flip(false)
		}
	case "eq":
		if v, known, is := s.lenCond(c); is {
			if known {
				return flip(v)
			}
			return false, false
		}
		for i := range c.A {
			// the beginning of a text
			l, o := c.A[i], c.A[1-i]
			if l.Op != "sl" || l.A[2] == nil {
				continue
			}
			if n, isN := s.int(l.A[1]); l.A[1] != nil && (!isN || n != 0) {
				continue
			}
			v, ok := s.str(l.A[0])
			p, ok2 := s.str(o)
			if n, isN := s.int(l.A[2]); ok && ok2 && isN && n == len(p) && !hasHole(p) {
				if r, known := shapePrefix(v, p); known {
					return flip(r)
				}
			}
		}
		a, ok := s.eval(c.A[0])
		b, ok2 := s.eval(c.A[1])
		if !ok || !ok2 {
			// the first byte of a text that starts with a hole
			for i := range c.A {
				e, o := c.A[i], c.A[1-i]
				n, isC := o.Int()
				if e.Op != "el" || !isC || n <= 0 || n > 127 {
					continue
				}
				if k, ok := s.int(e.A[1]); !ok || k != 0 {
					continue
				}
				if v, ok := s.str(e.A[0]); ok {
					if r, known := shapePrefix(v, string(rune(n))); known {
						return flip(r)
					}
				}
			}
			return false, false
		}
		if a.K != b.K {
			return false, false
		}
		switch a.K {
		case 's':
			if r, known := shapeEq(a.S, b.S); known {
				return flip(r)
			}
		case 'i':
			if a.S == b.S {
				return flip(a.N == b.N)
			}
		case 'b':
			return flip(a.N == b.N)
		}
	case "lt":
		if v, known, is := s.lenCond(c); is {
			if known {
				return flip(v)
			}
			return false, false
		}
		a, ok := s.eval(c.A[0])
		b, ok2 := s.eval(c.A[1])
		if ok && ok2 && a.K == 'i' && b.K == 'i' && a.S == b.S {
			return flip(a.N < b.N)
		}
	case "has":
		if c.A[0].Op == "g" {
			if g, ok := c.A[0].V.(*ssa.Global); ok {
				if in := s.x.p.globalInit(g); in.kind == "map" {
					if k, ok := s.eval(c.A[1]); ok && !hasHole(k.S) {
						_, has := in.m[k.enc()]
						return flip(has)
					}
				}
			}
		}
	default:
		if a, ok := s.eval(c); ok && a.K == 'b' {
			return flip(a.N == 1)
		}
	}
	return false, false
}

// lenCond decides comparisons of the length of a text with holes with a constant: a hole is at least one byte.
func (s *shapes) lenCond(c *Term) (v, known, is bool) {
	for i := range c.A {
		l, o := c.A[i], c.A[1-i]
		if l.Op != "len" {
			continue
		}
		n, isC := s.int(o)
		k := int64(n)
		if o.Op == "len" {
			if ot, ok := s.str(o.A[0]); ok && hasHole(ot) {
				isC = false
			}
		}
		if !isC {
			continue
		}
		t, ok := s.str(l.A[0])
		if !ok || !hasHole(t) {
			continue
		}
		min := int64(0)
		for _, r := range t {
			if isHole(r) {
				min++
			} else {
				min += int64(utf8.RuneLen(r))
			}
		}
		switch {
		case c.Op == "eq":
			return false, k < min, true
		case i == 0: // len < k
			return false, min >= k, true
		default: // k < len
			return true, k < min, true
		}
	}
	return false, false, false
}

var goLayouts = map[string]string{
	"aI": time.RFC3339,
	"ai": "2006-01-02 15:04:05 -0700",
}

// fieldOf names the field an address leads to: its struct type and its name.
func fieldOfAddr(v ssa.Value) (st types.Type, name string, ok bool) {
	fa, isF := v.(*ssa.FieldAddr)
	if !isF {
		return nil, "", false
	}
	pt, isP := types.Unalias(fa.X.Type()).Underlying().(*types.Pointer)
	if !isP {
		return nil, "", false
	}
	s, isS := types.Unalias(pt.Elem()).Underlying().(*types.Struct)
	if !isS {
		return nil, "", false
	}
	return pt.Elem(), s.Field(fa.Field).Name(), true
}

// splitsByRegexp: a call of a function of the program that takes a text and an expression and gives a
// list of texts; it is taken to split the text.
func splitsByRegexp(t *Term) bool {
	k, ok := t.V.(*ssa.Call)
	return ok && isRegexpSplit(k.Call.StaticCallee())
}

func isRegexpSplit(f *ssa.Function) bool {
	if f == nil || !inScopePkg(fnPkgPath(f)) {
		return false
	}
	sg := f.Signature
	return sg.Params().Len() == 2 && sg.Results().Len() == 1 && types.TypeString(sg.Params().At(0).Type(), nil) == "string" &&
		types.TypeString(sg.Params().At(1).Type(), nil) == "*regexp.Regexp" && types.TypeString(sg.Results().At(0).Type(), nil) == "[]string"
}

func unconvert(v ssa.Value) ssa.Value {
	for {
		switch c := v.(type) {
		case *ssa.Convert:
			v = c.X
		case *ssa.ChangeType:
			v = c.X
		case *ssa.MakeInterface:
			v = c.X
		default:
			return v
		}
	}
}

// trimShape: trimming stops at a hole, unless what the hole stands for can be trimmed too.
// White space around a name is not printed by git.
func trimShape(v, cut string, left, right bool) (aval, bool) {
	rs := []rune(v)
	eats := func(r rune) bool {
		if !isHole(r) {
			return false
		}
		for _, c := range cut {
			switch {
			case r >= holeHex && r < holeHex+16:
				if strings.ContainsRune("0123456789abcdef", c) {
					return true
				}
			case r >= holeDigit && r < holeDigit+16:
				if c >= '0' && c <= '9' {
					return true
				}
			default:
				if !strings.ContainsRune(" \t\r\n", c) {
					return true
				}
			}
		}
		return false
	}
	if len(rs) > 0 && (left && eats(rs[0]) || right && eats(rs[len(rs)-1])) {
		return aval{}, false
	}
	return avS(v), true
}
