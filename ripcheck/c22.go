package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C22", "Every path of the exported function that looks at a file, with everything it calls in its package, to the call that detects the language and to each return. On every path to that call each gate was passed, with the documented limit: the size of the content, the license pattern or an unrecognised license, the four filters of the path (or an entry of the cache for this path that says so), the number of lines, and the width of every line in a loop over all of them. The license detector runs only within the size limit. A return without a reason follows that call with a language that is known and is returned; every other return names the gate that was hit and carries no language; cache entries are made for the path they were computed for. On every path of the caller (as C26) removed files are not looked at, the counter is called only without a reason, records without that call carry the reason and no statistics, and every file of the commit gets one record.", runC22)
}

const langFn = ".GetLanguage"

// regexpOf: the pattern of a compiled regular expression held in a package variable.
func (p *Prog) regexpOf(g *ssa.Global) (string, bool) {
	pat, n := "", 0
	for _, fn := range p.Fns {
		if fnPkgPath(fn) != g.Pkg.Pkg.Path() {
			continue
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				st, ok := ins.(*ssa.Store)
				if !ok || st.Addr != ssa.Value(g) {
					continue
				}
				n++
				call, ok := st.Val.(*ssa.Call)
				if !ok || len(call.Call.Args) != 1 || call.Call.StaticCallee() == nil || call.Call.StaticCallee().String() != "regexp.MustCompile" {
					return "", false
				}
				s, ok := constText(call.Call.Args[0])
				if !ok {
					return "", false
				}
				pat = s
			}
		}
	}
	return pat, n == 1
}

// fileGateRoots: the exported functions that look at a file.
func (p *Prog) fileGateRoots() []*ssa.Function {
	var roots []*ssa.Function
	for _, fn := range p.Fns {
		if fnPkgPath(fn) == mp(infoPkg) && exportedFn(fn) && p.transitively(fn, func(f *ssa.Function, ins ssa.Instruction) bool {
			ci, ok := ins.(ssa.CallInstruction)
			return ok && ci.Common().StaticCallee() != nil && strings.HasSuffix(ci.Common().StaticCallee().String(), langFn)
		}) {
			roots = append(roots, fn)
		}
	}
	return roots
}

// regexGlobals: the variables of a package that hold a regular expression.
func (p *Prog) regexGlobals(pkg string) []*ssa.Global {
	var res []*ssa.Global
	for _, fn := range p.Fns {
		if fnPkgPath(fn) != mp(pkg) || fn.Name() != "init" || fn.Pkg == nil {
			continue
		}
		for _, m := range fn.Pkg.Members {
			if g, ok := m.(*ssa.Global); ok && isNamed(g.Type().Underlying().(*types.Pointer).Elem(), "regexp.Regexp") {
				res = append(res, g)
			}
		}
		break
	}
	sort.Slice(res, func(i, j int) bool { return res[i].Name() < res[j].Name() })
	return res
}

func runC22(c *Ctx) {
	c.fileRecords()
	roots := c.p.fileGateRoots()
	if len(roots) == 0 {
		c.Violate("no detection", 0, "no exported function of %s detects the language of a file", infoPkg)
	}
	for _, fn := range roots {
		c.fileGates(fn, "")
	}
	c.Min("languages detected", 1)
	c.Min("skips judged", 5)
	// nothing else detects languages or counts lines
	for _, fn := range c.p.Fns {
		if !libraryFn(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				ci, ok := ins.(ssa.CallInstruction)
				if !ok || ci.Common().StaticCallee() == nil {
					continue
				}
				s := ci.Common().StaticCallee().String()
				if strings.HasPrefix(s, "gopkg.in/src-d/enry") && strings.Contains(s, ".GetLanguage") && fnPkgPath(fn) != mp(infoPkg) ||
					s == sccPkg+".CountStats" && fnPkgPath(fn) != mp(rootPkg) {
					c.Violate("analysed elsewhere in "+fnName(fn), instrPos(ins), "%s analyses files past the limits and filters", fnName(fn))
				}
			}
		}
	}
}

// regexMatch: a condition that says whether a regular expression matches a
// text (pos) or not.
func regexMatch(ct *Term) (g *ssa.Global, text *Term, pos, ok bool) {
	m := ct
	pos = true
	if ct.Op == "isnil" {
		m, pos = ct.A[0], false
	}
	if m.Op != "call" || len(m.A) < 2 || m.A[0].Op != "g" || m.A[0].ID != "" {
		return nil, nil, false, false
	}
	name, is := strings.CutPrefix(m.S, "(*regexp.Regexp).")
	switch {
	case !is:
		return nil, nil, false, false
	case pos && (name == "MatchString" || name == "Match"):
	case !pos && strings.HasPrefix(name, "Find") && (strings.HasSuffix(name, "Index") || strings.HasSuffix(name, "Submatch")) && !strings.Contains(name, "All"):
	default:
		return nil, nil, false, false
	}
	g, ok = m.A[0].V.(*ssa.Global)
	return g, unwrapConv(m.A[1]), pos, ok
}

func constText(v ssa.Value) (string, bool) {
	k, ok := v.(*ssa.Const)
	if !ok || k.Value == nil {
		return "", false
	}
	return (&Term{Op: "const", S: k.Value.ExactString()}).Str()
}

// fileGates judges the gates a file passes before it is analysed; with "excl"
// only what concerns the exclusion list, with "own" only that what is found is
// found for the path and content of the file.
func (c *Ctx) fileGates(fn *ssa.Function, only string) {
	excl, own := only == "excl", only == "own"
	ai := -1
	for i, p := range fn.Params {
		if st := structOf(p.Type()); st != nil && fieldNamed(st, "Content") && fieldNamed(st, "FilePath") && fieldNamed(st, "Lines") {
			ai = i
		}
	}
	if ai < 0 {
		c.Violate("parameters", fn.Pos(), "%s does not take a path, lines and content", fnName(fn))
		return
	}
	sets := map[ssa.Instruction]bool{}
	pathGates := []string{"config", "dot", "excl", "vendor"}
	words := map[string]string{"size": "size", "lines": "lines", "width": "width", "config": "config", "dot": "dot", "excl": "exclusion", "vendor": "vendored", "license": "license", "lang": "language"}
	r := &Rule{Name: "info", NoLoads: true, WantPre: true}
	r.Inline = func(x *X, f *ssa.Function, call ssa.CallInstruction) bool { return fnPkgPath(f) == mp(infoPkg) }
	arg := func(x *X, n string) *Term { return x.ts.Field(x.ParamTerm(ai), n) }
	allPath := func(x *X) bool {
		for _, g := range pathGates {
			if x.Get(g) != "pass" {
				return false
			}
		}
		return true
	}
	pathPass := func(x *X) string {
		if x.Get("cached") == "pass" {
			return ""
		}
		for _, g := range pathGates {
			if x.Get(g) != "pass" {
				return g
			}
		}
		return ""
	}
	pass := func(x *X, e *Event, g string, v bool) {
		if v {
			x.Set(g, "pass")
		} else {
			x.Set(g, "hit")
			x.Set("hit", g)
		}
	}
	// limit: a comparison that says whether t is at most n
	limit := func(x *X, e *Event, t *Term, n int64) (bool, bool) {
		ct := e.Cond
		if ct.Op != "lt" {
			return false, false
		}
		if k, ok := ct.A[0].Int(); ok && ct.A[1] == t && k == n {
			return !e.Taken, true
		}
		if k, ok := ct.A[1].Int(); ok && ct.A[0] == t && k == n+1 {
			return e.Taken, true
		}
		return false, false
	}
	lenOf := func(x *X, t *Term) *Term { return x.ts.mk("len", "", "", t) }
	isCache := func(x *X, t *Term) bool {
		return (t.Op == "lk" || t.Op == "has") && (t.A[0].Op == "f" || t.A[0].Op == "g")
	}
	missing := func(x *X) string {
		for _, g := range []string{"size", "lines", "width"} {
			if x.Get(g) != "pass" {
				return g
			}
		}
		if g := pathPass(x); g != "" {
			return g
		}
		switch {
		case x.Get("lic") == "pass":
		case x.Get("lic") == "hit" && x.Get("detected") != "" && x.Get("recognised") == "no":
		default:
			return "license"
		}
		return ""
	}
	// reasonOf: the text of a reason
	reasonOf := func(t *Term) (string, bool) {
		if s, ok := t.Str(); ok {
			return s, true
		}
		if t.Op == "call" && t.S == "fmt.Sprintf" {
			return t.A[0].Str()
		}
		return "", false
	}
	names := func(reason, g string) bool { return strings.Contains(strings.ToLower(reason), words[g]) }
	r.OnEvent = func(x *X, e *Event) {
		switch e.Kind {
		case EvPre:
			switch {
			case strings.HasSuffix(e.Name, langFn):
				c.Count("languages detected", 1)
				if g := missing(x); g != "" && !own && (!excl || g == "excl") {
					x.Violate("gate "+g, e.Pos(), "the language of a file is detected without the "+words[g]+" gate being passed")
				}
				if excl {
					return
				}
				if len(e.Args) != 2 || e.Args[0] != arg(x, "FilePath") || e.Args[1] != arg(x, "Content") {
					x.Violate("other file", e.Pos(), "the language is detected for another path or content than that of the file")
				}
			case excl:
			case strings.HasSuffix(e.Name, "licensedb.Detect"):
				c.Count("licenses detected", 1)
				x.Set("detected", "1")
				if !own && x.Get("size") != "pass" {
					x.Violate("license of a large file", e.Pos(), "a file is checked for a license outside the size limit")
				}
				if !own && x.Get("lic") != "hit" {
					x.Violate("license of any file", e.Pos(), "a file that the license pattern does not match is checked for a license")
				}
				if o := e.Args[0]; o.Op == "new" {
					good := false
					if al, ok := o.V.(*ssa.Alloc); ok {
						ct := al.Type().Underlying().(*types.Pointer).Elem()
						if st := structOf(ct); st != nil {
							for i := 0; i < st.NumFields(); i++ {
								a := x.ts.mk("fa", st.Field(i).Name(), "", o)
								a.T = ct
								if isByteSlice(st.Field(i).Type()) && x.Load(a, st.Field(i).Type()) == arg(x, "Content") {
									good = true
								}
							}
						}
					}
					if !good {
						x.Violate("license of other content", e.Pos(), "something else than the content of the file is checked for a license")
					}
				}
			}
		case EvMapSet:
			m := e.Ins.(*ssa.MapUpdate)
			sets[m] = true
			if e.Map.Op != "f" && e.Map.Op != "g" || own {
				return
			}
			c.Count("cache entries", 1)
			if e.Key != arg(x, "FilePath") {
				x.Violate("cache key", e.Pos(), "an entry of the cache is made for another path than the one it was computed for")
			}
			s, ok := reasonOf(e.Val)
			switch {
			case !ok:
				x.Violate("cache value", e.Pos(), "the reason put in the cache was not recognised: "+e.Val.Canon())
			case s == "" && (!excl && !allPath(x) || x.Get("excl") != "pass"):
				x.Violate("cache value", e.Pos(), "the cache says that a path passes the filters though it may not")
			case s != "":
				if g := x.Get("hit"); excl && (g == "excl") == names(s, "excl") {
				} else if g == "" || !strings.Contains(strings.ToLower(s), words[g]) {
					x.Violate("cache value", e.Pos(), "the reason put in the cache is not that of the filter that was hit")
				}
			}
		case EvIter:
			if t := e.Coll; t.Op == "x" && t.S == "0" && strings.HasSuffix(t.A[0].S, "licensedb.Detect") {
				if e.Taken {
					x.Set("found", "1")
				} else if x.Get("found") == "" {
					x.Set("recognised", "no")
				}
			}
			if e.Coll == arg(x, "Lines") {
				if x.Get("cur") == "need" {
					x.Set("skipped", "1")
				}
				x.Set("cur", "")
				if e.Taken {
					x.Set("cur", "need")
					x.Retag("line", x.ts.mk("el", "", "", e.Coll, e.Elem))
				} else if x.Get("skipped") == "" && (e.IKind == "slice" || e.IKind == "back") {
					x.Set("width", "pass")
				}
			}
		case EvBranch:
			ct := e.Cond
			if g, text, pos, ok := regexMatch(ct); ok && text == arg(x, "FilePath") {
				matched := e.Taken == pos
				pat, ok := c.p.regexpOf(g)
				switch {
				case !ok:
				case c.p.isExclusion(pat):
					c.Count("matches of the exclusion list", 1)
					pass(x, e, "excl", !matched)
				case strings.Contains(pat, "LICENSE"):
					x.Set("lic", map[bool]string{true: "hit", false: "pass"}[matched])
				}
			}
			if v, ok := limit(x, e, lenOf(x, arg(x, "Content")), 1000000); ok {
				pass(x, e, "size", v)
			}
			if v, ok := limit(x, e, lenOf(x, arg(x, "Lines")), 40000); ok {
				pass(x, e, "lines", v)
			}
			for _, l := range x.Tagged("line") {
				if v, ok := limit(x, e, lenOf(x, l), 1096); ok {
					if v {
						x.Set("cur", "ok")
					} else {
						pass(x, e, "width", false)
					}
				}
			}
			switch ct.Op {
			case "call":
				onPath := len(ct.A) > 0 && ct.A[len(ct.A)-1] == arg(x, "FilePath")
				switch {
				case strings.HasSuffix(ct.S, ".IsConfiguration") && onPath:
					pass(x, e, "config", !e.Taken)
				case strings.HasSuffix(ct.S, ".IsDotFile") && onPath:
					pass(x, e, "dot", !e.Taken)
				case strings.HasSuffix(ct.S, ".IsVendor") && onPath:
					pass(x, e, "vendor", !e.Taken)
				case ct.S == "strings.HasPrefix" && ct.A[0] == arg(x, "FilePath"):
					if s, ok := ct.A[1].Str(); ok && s == "src/" && e.Taken {
						x.Set("vendor", "pass")
						if x.Get("hit") == "vendor" {
							x.Set("hit", "")
						}
					}
				}
			case "empty":
				t := ct.A[0]
				switch {
				case isCache(x, t) && t.A[1] == arg(x, "FilePath"):
					if e.Taken && x.Get("has") != "" {
						x.Set("cached", "pass")
					} else if !e.Taken {
						x.Set("cached", "hit")
						x.Set("hit", "cached")
					}
				case t.Op == "call" && strings.HasSuffix(t.S, langFn):
					pass(x, e, "lang", !e.Taken)
				case t.Op == "x" && t.S == "0" && strings.HasSuffix(t.A[0].S, "licensedb.Detect") && e.Taken:
					x.Set("recognised", "no")
				}
				if v, ok := t.V.(ssa.Value); ok && v != nil && e.Taken && x.Get("detected") != "" {
					if el := elemOfSlice(v.Type()); el != nil && structOf(el) != nil && fieldNamed(structOf(el), "Confidence") {
						x.Set("recognised", "no")
					}
				}
			case "has":
				if isCache(x, ct) && ct.A[1] == arg(x, "FilePath") {
					x.Set("has", map[bool]string{true: "1", false: ""}[e.Taken])
				}
			case "isnil":
				t := ct.A[0]
				if t.Op == "x" && t.S == "1" && strings.HasSuffix(t.A[0].S, "licensedb.Detect") && !e.Taken {
					x.Set("recognised", "no")
				}
			case "lt":
				conf := func(t *Term) bool { return t.Op == "f" && t.S == "Confidence" }
				_, a1 := ct.A[1].V.(*ssa.Const)
				_, a0 := ct.A[0].V.(*ssa.Const)
				switch {
				case conf(ct.A[0]) && (a1 || ct.A[1].IsConst()):
					x.Set("recognised", map[bool]string{true: "no", false: "yes"}[e.Taken])
				case conf(ct.A[1]) && (a0 || ct.A[0].IsConst()):
					x.Set("recognised", map[bool]string{true: "yes", false: "no"}[e.Taken])
				}
				if x.Get("recognised") == "yes" {
					x.Set("hit", "license")
				}
			}
		case EvReturn:
			reason := e.Args[len(e.Args)-1]
			info := e.Args[0]
			lang := x.ts.Field(info, "Language")
			s, ok := reasonOf(reason)
			if ok && s == "" {
				c.Count("files passed", 1)
				if g := missing(x); g != "" && !own && (!excl || g == "excl") {
					x.Violate("passed "+g, e.Pos(), "a file is passed without the "+words[g]+" gate being passed")
				}
				if excl {
					return
				}
				if x.Get("lang") != "pass" || !(lang.Op == "call" && strings.HasSuffix(lang.S, langFn)) {
					x.Violate("language", e.Pos(), "a file is passed without a known language")
				}
				if !zeroTerm(x.ts.Field(info, "License")) {
					x.Violate("licensed file passed", e.Pos(), "a file with a recognised license is passed")
				}
				return
			}
			if own {
				return
			}
			c.Count("skips judged", 1)
			g := x.Get("hit")
			switch {
			case excl && ok && (g == "excl") == names(s, "excl") && g != "cached":
			case g == "cached" && isCache(x, reason) && reason.A[1] == arg(x, "FilePath"):
			case !ok:
				x.Violate("reason", e.Pos(), "the reason a file is skipped for was not recognised: "+reason.Canon())
			case g == "":
				x.Violate("skipped", e.Pos(), "a file is skipped though it was found outside no limit or filter")
			case !strings.Contains(strings.ToLower(s), words[g]) || g == "cached":
				x.Violate("reason", e.Pos(), "the reason is not that of the gate that was hit: "+s)
			}
			if excl {
				return
			}
			if g != "lang" && !zeroTerm(lang) {
				x.Violate("language of a skipped file", e.Pos(), "a file that is skipped gets a language")
			}
			if lic := x.ts.Field(info, "License"); !zeroTerm(lic) != (g == "license") {
				x.Violate("license", e.Pos(), "a license is returned exactly when none was recognised")
			}
		}
	}
	c.Sim("look at file", fn, r, nil)
	for _, f := range c.p.Fns {
		if fnPkgPath(f) != mp(infoPkg) || own {
			continue
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if m, ok := ins.(*ssa.MapUpdate); ok && !sets[m] {
					if fld := loadOf(m.Map); fld != "" {
						c.Violate("cache in "+fnName(f), instrPos(ins), "the cache of paths gets entries in %s, which does not compute them", fnName(f))
					}
				}
			}
		}
	}
}

// loadOf: the field a value is loaded from.
func loadOf(v ssa.Value) string {
	if u, ok := v.(*ssa.UnOp); ok {
		if _, n, ok := fieldOfAddr(u.X); ok {
			return n
		}
	}
	return ""
}

func fieldNamed(st *types.Struct, n string) bool {
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == n {
			return true
		}
	}
	return false
}
