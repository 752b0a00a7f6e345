package main

import (
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const metaPkg = "ripsrc/branchmeta"

func init() {
	register("C20", "Every path of the ref listing of branchmeta and of the function that makes the branch records, workers included. Each line of the ref listing gives one entry, skipped only when it is empty, the symbolic HEAD, or the default branch (and that always unless asked for); the name is traced from the field of git's format that holds it, through the removal of prefixes, to the bare branch name. Each entry, and each distinct pull request head, becomes one work item; each work item is sent to a worker once and gives one record, except pull request heads that are not in the graph; the default branch has its record on exactly the paths where it is wanted.", runC20)
}

func runC20(c *Ctx) {
	n := 0
	for _, fn := range c.p.Fns {
		if fnPkgPath(fn) == mp(metaPkg) && exportedFn(fn) {
			n++
			c.refListing(fn)
		}
	}
	c.Count("functions of branchmeta", n)
	c.Min("functions of branchmeta", 2)
	c.Min("ref entries", 1)
	c.Min("default branch names", 2)
	roots := c.branchRoots()
	for _, r := range roots {
		c.workItems(r, c.p.walkFns(r))
	}
	if len(roots) == 0 {
		c.Violate("no records", 0, "no exported function of %s makes branch records", branchesPkg)
	}
	c.Min("work items", 2)
	c.Min("work items sent", 1)
	c.Min("records sent", 2)
}

// gitOut tracks the arguments of git commands to their output.
func gitOut(x *X, e *Event) {
	switch e.Kind {
	case EvCall:
		switch {
		case e.Name == "os/exec.Command" || e.Name == "os/exec.CommandContext":
			i := len(e.Args) - 1
			el, ok := x.Elems(e.Args[i])
			s := "?"
			if ok {
				s = x.renderStr(e.Args[i-1])
				for _, q := range el {
					s += "\x00" + x.renderStr(q)
				}
			}
			x.Set("cmd:"+e.Res.key, s)
		case strings.HasPrefix(e.Name, "(*os/exec.Cmd).") && strings.HasSuffix(e.Name, "Output"):
			x.Set("out:"+e.Res.key, x.Get("cmd:"+e.Args[0].key))
		}
	case EvStore:
		if e.Addr.Op == "fa" && e.Addr.S == "Stdout" {
			x.Set("out:"+e.Val.key, x.Get("cmd:"+e.Addr.A[0].key))
		}
	}
}

// outOf: the arguments of the command whose output t is made from.
func (x *X) outOf(t *Term) []string {
	var find func(t *Term, d int) string
	find = func(t *Term, d int) string {
		if s := x.Get("out:" + t.key); s != "" {
			return s
		}
		if d > 12 {
			return ""
		}
		for _, a := range t.A {
			if a != nil {
				if s := find(a, d+1); s != "" {
					return s
				}
			}
		}
		return ""
	}
	s := find(t, 0)
	if s == "" {
		return nil
	}
	return strings.Split(s, "\x00")
}

// partOfLines reports whether t leaves out lines of a split text; the last one, empty after the final line end, may go.
func partOfLines(t *Term) bool {
	if t.Op == "sl" && t.A[0].Op == "call" && strings.Contains(t.A[0].S, "Split") {
		if t.A[1] != nil {
			if n, ok := t.A[1].Int(); !ok || n != 0 {
				return true
			}
		}
		if t.A[2] != nil {
			h := t.A[2]
			if h.Op != "b" || h.S != "-" || h.A[0].Op != "len" || h.A[0].A[0] != t.A[0] {
				return true
			}
			if n, ok := h.A[1].Int(); !ok || n > 1 || n == 1 && strings.Contains(t.A[0].A[0].S, "Trim") {
				return true
			}
		}
	}
	for _, a := range t.A {
		if a != nil && partOfLines(a) {
			return true
		}
	}
	return false
}

// strip follows the removal of white space and prefixes; it returns the base and what was removed, first part first.
func strip(t *Term) (base *Term, prefixes []string) {
	switch {
	case t.Op == "call" && (t.S == "strings.TrimPrefix" || t.S == "bytes.TrimPrefix"):
		b, p := strip(t.A[0])
		if s, ok := t.A[1].Str(); ok {
			return b, append(p, s)
		}
	case t.Op == "x" && t.S == "0" && t.A[0].Op == "call" && (t.A[0].S == "strings.CutPrefix" || t.A[0].S == "bytes.CutPrefix"):
		b, p := strip(t.A[0].A[0])
		if s, ok := t.A[0].A[1].Str(); ok {
			return b, append(p, s)
		}
	case t.Op == "call" && (t.S == "strings.TrimSpace" || t.S == "bytes.TrimSpace" || t.S == "strings.Trim" || t.S == "strings.TrimRight" || t.S == "strings.TrimSuffix" || t.S == "bytes.TrimRight"):
		return strip(t.A[0])
	case t.Op == "sl" && t.A[1] != nil && t.A[2] == nil:
		if n, ok := t.A[1].Int(); ok {
			b, p := strip(t.A[0])
			return b, append(p, "#"+strconv.Itoa(int(n)))
		}
	}
	return t, nil
}

// afterStrip applies the removals to a name that starts with pre; ok is false if they cut into the name or leave a part.
func afterStrip(pre string, cut []string) bool {
	for _, p := range cut {
		if strings.HasPrefix(p, "#") {
			n, _ := strconv.Atoi(p[1:])
			if n > len(pre) {
				return false
			}
			pre = pre[n:]
			continue
		}
		if strings.HasPrefix(pre, p) {
			pre = pre[len(p):]
		} else if p != "" && pre == "" {
			return false // would cut a name that starts with it
		}
	}
	return pre == ""
}

// refFormat: the parts of the format of for-each-ref.
type refFormat struct {
	sep   string
	atoms []string
}

func parseFormat(args []string) (f refFormat, pattern string, ok bool) {
	format := ""
	for i := 1; i < len(args); i++ {
		switch {
		case args[i] == "for-each-ref":
			ok = true
		case args[i] == "--format" && i+1 < len(args):
			format = args[i+1]
			i++
		case strings.HasPrefix(args[i], "--format="):
			format = args[i][9:]
		case strings.HasPrefix(args[i], "--sort"):
		case strings.HasPrefix(args[i], "-"):
			return f, "", false
		default:
			if pattern != "" {
				return f, "", false
			}
			pattern = strings.TrimSuffix(args[i], "/")
		}
	}
	if !ok {
		return
	}
	for format != "" {
		if !strings.HasPrefix(format, "%(") {
			return f, pattern, false
		}
		j := strings.IndexByte(format, ')')
		if j < 0 {
			return f, pattern, false
		}
		f.atoms = append(f.atoms, format[2:j])
		format = format[j+1:]
		if format == "" {
			break
		}
		k := strings.Index(format, "%(")
		if k < 0 {
			return f, pattern, false
		}
		sep := format[:k]
		switch sep {
		case "%00":
			sep = "\x00"
		case "%09":
			sep = "\t"
		}
		if f.sep != "" && f.sep != sep {
			return f, pattern, false
		}
		f.sep = sep
		format = format[k:]
	}
	return f, pattern, true
}

// refPrefix: what an atom of the format leaves before the name of a branch.
func refPrefix(atom, pattern string) (string, bool) {
	full := pattern + "/"
	switch {
	case atom == "refname":
		return full, true
	case strings.HasPrefix(atom, "refname:lstrip=") || strings.HasPrefix(atom, "refname:strip="):
		n, err := strconv.Atoi(atom[strings.IndexByte(atom, '=')+1:])
		if err != nil || n < 0 || n > strings.Count(full, "/") {
			return "", false
		}
		for ; n > 0; n-- {
			full = full[strings.IndexByte(full, '/')+1:]
		}
		return full, true
	}
	return "", false
}

func (c *Ctx) refListing(fn *ssa.Function) {
	entryT := ""
	if s, ok := types.Unalias(fn.Signature.Results().At(0).Type()).Underlying().(*types.Slice); ok {
		if n := namedOf(s.Elem()); n != nil {
			entryT = n.Obj().Name()
		}
	}
	r := &Rule{Name: "refs"}
	r.Inline = func(x *X, f *ssa.Function, call ssa.CallInstruction) bool { return fnPkgPath(f) == mp(metaPkg) }
	flag := func(x *X, cd *Term) string {
		if cd.Op == "f" && (cd.S == "UseOrigin" || cd.S == "IncludeDefault") {
			return cd.S
		}
		return ""
	}
	// the field of the line that t is
	field := func(x *X, t *Term) (atom, pattern string, cut []string) {
		b, cut := strip(t)
		if b.Op != "el" && !(b.Op == "x" && b.A[0].Op == "call" && strings.HasSuffix(b.A[0].S, "Cut")) {
			return "", "", nil
		}
		if b.Op != "el" {
			return "", "", nil
		}
		k := b.A[0]
		if k.Op != "call" || !strings.HasPrefix(k.S, "strings.Split") && !strings.HasPrefix(k.S, "bytes.Split") {
			return "", "", nil
		}
		f, pat, ok := parseFormat(x.outOf(k))
		n, isC := b.A[1].Int()
		sep, okSep := k.A[1].Str()
		if !ok || !isC || int(n) >= len(f.atoms) || !okSep || sep != f.sep {
			return "", "", nil
		}
		// the separator may be part of a name
		for i, a := range f.atoms {
			if strings.HasPrefix(a, "refname") && !strings.ContainsAny(sep, " ~^:?*[\\\x00\t\n\x7f") {
				if lim := len(k.A) == 3; !lim || i != len(f.atoms)-1 {
					x.Violate("separator in "+fnName(fn), k.V.(ssa.Instruction).Pos(), "a branch name may contain the separator of the ref listing")
				} else if m, ok := k.A[2].Int(); !ok || int(m) != len(f.atoms) {
					x.Violate("separator in "+fnName(fn), k.V.(ssa.Instruction).Pos(), "the lines of the ref listing are not split into as many parts as the format has")
				}
			}
		}
		return f.atoms[n], pat, cut
	}
	isName := func(x *X, t *Term) (ok, bare bool) {
		atom, pat, cut := field(x, t)
		if !strings.HasPrefix(atom, "refname") {
			return false, false
		}
		pre, known := refPrefix(atom, pat)
		if !known {
			return true, false
		}
		return true, afterStrip(pre, cut)
	}
	// the name of the default branch
	isDefault := func(x *X, t *Term) (ok, bare bool) {
		b, cut := strip(t)
		a := x.outOf(b)
		if len(a) < 2 || b.Op == "el" {
			return false, false
		}
		opts := map[string]bool{}
		for _, o := range a[1:] {
			opts[o] = true
		}
		if !opts["HEAD"] {
			return false, false
		}
		switch {
		case a[1] == "symbolic-ref":
			return true, !opts["--short"] && afterStrip("refs/heads/", cut)
		case a[1] == "rev-parse" && (opts["--symbolic-full-name"] || opts["--abbrev-ref"] || opts["--symbolic"]):
			return true, opts["--symbolic-full-name"] && afterStrip("refs/heads/", cut)
		}
		return false, false
	}
	bad := func(x *X, e *Event, k, msg string) { x.Violate(k+" in "+fnName(fn), e.Pos(), msg) }
	type acc struct{ v ssa.Value }
	var accs []ssa.Value
	r.OnEvent = func(x *X, e *Event) {
		gitOut(x, e)
		switch e.Kind {
		case EvBranch:
			if f := flag(x, e.Cond); f != "" {
				v := map[bool]string{true: "t", false: "f"}[e.Taken]
				if o := x.Get("flag:" + f); o != "" && o != v {
					x.Stop()
					return
				}
				x.Set("flag:"+f, v)
			}
			if x.Get("line") == "" {
				return
			}
			cd := e.Cond
			switch cd.Op {
			case "empty":
				if b, _ := strip(cd.A[0]); x.HasTag("line", b) && e.Taken {
					x.Set("skip", "empty")
				}
			case "eq":
				for i, a := range cd.A {
					o := cd.A[1-i]
					s, isS := o.Str()
					if ok, bare := isName(x, a); ok {
						switch {
						case isS && s == "HEAD" && bare:
							x.Set("head", map[bool]string{true: "t", false: "f"}[e.Taken])
						case isS && s == "origin/HEAD":
							x.Set("head", map[bool]string{true: "t", false: "f"}[e.Taken])
						default:
							if d, db := isDefault(x, o); d {
								if !db || !bare {
									bad(x, e, "comparison with the default branch", "the name of a branch is compared with that of the default branch in another form")
								}
								x.Set("default", map[bool]string{true: "t", false: "f"}[e.Taken])
							}
						}
					}
					// a line that starts with a bracket is no branch
					if o.Op == "const" && a.Op == "el" && e.Taken {
						if b, _ := strip(a.A[0]); x.HasTag("line", b) {
							if n, ok := o.Int(); ok && n == '(' {
								x.Set("skip", "detached")
							}
						}
					}
				}
			}
		case EvIter:
			// lines of the listing
			a := x.outOf(e.Coll)
			if _, _, ok := parseFormat(a); !ok {
				return
			}
			if e.Coll.Op == "el" {
				return
			}
			if e.IKind != "slice" && e.IKind != "scan" && e.IKind != "back" || partOfLines(e.Coll) {
				bad(x, e, "lines", "only a part of the lines of the ref listing is looked at")
			}
			if x.Get("line") == "1" && x.Get("got") == "" {
				switch {
				case x.Get("skip") != "":
				case x.Get("head") == "t":
				case x.Get("default") == "t" && x.Get("flag:IncludeDefault") == "f":
				default:
					bad(x, e, "dropped", "a branch of the ref listing is left out")
				}
			}
			for _, k := range []string{"got", "skip", "head", "default"} {
				x.Set(k, "")
			}
			if !e.Taken {
				x.Set("line", "")
				x.Set("lines", "done")
				return
			}
			x.Set("line", "1")
			if e.Elem != nil {
				x.Retag("line", x.ts.mk("el", "", "", e.Coll, e.Elem))
			}
		case EvAppend:
			sl, ok := types.Unalias(e.Ins.(ssa.Value).Type()).Underlying().(*types.Slice)
			if !ok || namedOf(sl.Elem()) == nil || namedOf(sl.Elem()).Obj().Name() != entryT {
				return
			}
			el, ok := x.Elems(e.Args[1])
			if !ok || len(el) != 1 || x.Get("line") == "" {
				bad(x, e, "entry", "an entry is added that does not belong to one line of the ref listing")
				return
			}
			c.Count("ref entries", 1)
			accs = append(accs, e.Ins.(ssa.Value))
			if x.Get("got") != "" {
				bad(x, e, "twice", "a branch of the ref listing is added twice")
			}
			x.Set("got", "1")
			nm, cm := x.ts.Field(el[0], "Name"), x.ts.Field(el[0], "Commit")
			atom, pat, _ := field(x, nm)
			switch _, bare := isName(x, nm); {
			case !strings.HasPrefix(atom, "refname"):
				bad(x, e, "name", "the name of an entry is not the name git lists in its line")
			case !bare:
				bad(x, e, "name", "the name of an entry is not the bare name of the branch ("+atom+" below "+pat+")")
			}
			if a, _, cut := field(x, cm); a != "objectname" || len(cut) > 0 {
				bad(x, e, "commit", "the commit of an entry is not the one git lists in its line")
			}
			uo := x.Get("flag:UseOrigin")
			if pat != map[string]string{"t": "refs/remotes/origin", "f": "refs/heads"}[uo] {
				bad(x, e, "refs listed", "the refs listed are not the ones asked for")
			}
			if uo == "t" && x.Get("head") != "f" {
				bad(x, e, "symbolic HEAD", "the symbolic HEAD of origin may be listed as a branch")
			}
			if x.Get("flag:IncludeDefault") != "t" && x.Get("default") != "f" {
				bad(x, e, "default branch", "the default branch may be listed as an ordinary branch")
			}
			c.Count("default branch names", 1)
		case EvReturn:
			if nn, known := errKnown(x, e); known && nn {
				return
			}
			if entryT == "" {
				// the default branch itself
				res := e.Args[0]
				if ok, bare := isDefault(x, x.ts.Field(res, "Name")); !ok || !bare {
					bad(x, e, "default name", "the name of the default branch is not the bare name of the branch HEAD points to")
				}
				b, cut := strip(x.ts.Field(res, "Commit"))
				a := x.outOf(b)
				if len(cut) > 0 || len(a) != 3 || a[1] != "rev-parse" || a[2] != "HEAD" {
					bad(x, e, "default commit", "the commit of the default branch is not the one HEAD points to")
				}
				c.Count("default branch names", 1)
				return
			}
			if x.Get("lines") != "done" {
				bad(x, e, "listing", "a listing of the refs is returned that was not read to its end")
			}
		}
	}
	c.Sim("refs of "+fnName(fn), fn, r, nil)
	seen := map[ssa.Value]bool{}
	for _, v := range accs {
		if seen[v] {
			continue
		}
		seen[v] = true
		f := c.p.NewFlow()
		f.Containers = true
		f.Add(v, nil)
		f.Run()
		if !f.Rets[fn][0] {
			c.Violate("entries lost in "+fnName(fn), v.Pos(), "the entries collected do not flow to the result of %s", fnName(fn))
		}
		if !f.Vals[v.(*ssa.Call).Call.Args[0]] {
			c.Violate("entries restarted in "+fnName(fn), v.Pos(), "the list that an entry is appended to is not the list collected so far")
		}
	}
}

// collSSA is the list whose length an iteration compares with.
func collSSA(e *Event) ssa.Value {
	i, ok := e.Ins.(*ssa.If)
	if !ok {
		return nil
	}
	bo, ok := i.Cond.(*ssa.BinOp)
	if !ok {
		return nil
	}
	for _, v := range []ssa.Value{bo.X, bo.Y} {
		if c, ok := v.(*ssa.Call); ok {
			if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
				return c.Call.Args[0]
			}
		}
	}
	return nil
}

func (c *Ctx) workItems(root *ssa.Function, opaque map[*ssa.Function]bool) {
	workT, recT := mp(branchesPkg)+".nameAndHash", mp(branchesPkg)+".Branch"
	r := &Rule{Name: "work", WantSlice: true}
	r.Inline = func(x *X, f *ssa.Function, call ssa.CallInstruction) bool {
		return fnPkgPath(f) == mp(branchesPkg) && !opaque[f]
	}
	bad := func(x *X, e *Event, k, msg string) { x.Violate(k+" in "+fnName(root), e.Pos(), msg) }
	distinct, raw := map[ssa.Value]bool{}, map[ssa.Value]bool{}
	items := map[ssa.Value]bool{}
	workLists := map[ssa.Value]bool{}
	var fl *Flow
	fln := -1
	inFlow := func(v ssa.Value) bool {
		if v == nil {
			return false
		}
		if fln != len(distinct) {
			fl = c.p.NewFlow()
			for d := range distinct {
				fl.Add(d, nil)
			}
			fl.Run()
			fln = len(distinct)
		}
		return fl.Vals[v]
	}
	clear := func(x *X, pre string) {
		for k := range x.St.auto {
			if strings.HasPrefix(k, pre) {
				x.Set(k, "")
			}
		}
	}
	isPRs := func(t *Term) bool { return t.Op == "f" && t.S == "PullRequestSHAs" }
	isRefs := func(t *Term) bool {
		return t.Op == "x" && t.S == "0" && t.A[0].Op == "call" && strings.HasPrefix(t.A[0].S, mp(metaPkg)+".")
	}
	// leave ends one round of the loop of a class
	leave := func(x *X, e *Event, class string) {
		if x.Get("in") != class {
			return
		}
		if x.Get("got") == "" && x.Get("ok") == "" {
			bad(x, e, "dropped "+class, map[string]string{
				"refs": "a branch of the ref listing gets no work item",
				"pr":   "a pull request head gets no work item", "set": "a pull request head gets no work item", "uniq": "a pull request head gets no work item",
				"work": "a work item is not sent to the workers",
			}[class])
		}
		if x.Get("marked") == "need" {
			bad(x, e, "duplicate", "a pull request head that is given twice may get two work items")
		}
		x.Set("in", "")
		clear(x, "not:")
		for _, k := range []string{"got", "ok", "marked"} {
			x.Set(k, "")
		}
		x.Untag("cur")
	}
	endItem := func(x *X, e *Event) {
		if x.Get("item") == "" {
			return
		}
		if x.Get("sent") == "" && x.Get("stop") == "" && !(x.Get("isPR") == "t" && x.Get("inGraph") == "f") {
			bad(x, e, "no record", "a work item gets no record")
		}
		for _, k := range []string{"item", "sent", "stop", "isPR", "inGraph"} {
			x.Set(k, "")
		}
	}
	r.OnEvent = func(x *X, e *Event) {
		var cur *Term
		for _, t := range x.Tagged("cur") {
			cur = t
		}
		switch e.Kind {
		case EvGo:
			x.Fork(e, Auto{"go": "1", "flag:PullRequestsOnly": x.Get("flag:PullRequestsOnly")})
		case EvCall:
			if e.Fn != nil && fnPkgPath(e.Fn) == mp(metaPkg) && len(e.Args) > 0 && lastIsErr(e.Fn) {
				o := e.Args[len(e.Args)-1]
				if st := structOf(e.Fn.Params[len(e.Fn.Params)-1].Type()); st != nil {
					for i := 0; i < st.NumFields(); i++ {
						f := x.ts.Field(o, st.Field(i).Name())
						switch st.Field(i).Name() {
						case "UseOrigin":
							if f.Op != "f" || f.S != "UseOrigin" || zeroTerm(f) {
								bad(x, e, "option UseOrigin", "the refs are not listed with the option UseOrigin of the caller")
							}
						case "IncludeDefault":
							if !zeroTerm(f) {
								bad(x, e, "option IncludeDefault", "the default branch is listed among the ordinary branches")
							}
						}
					}
				}
			}
		case EvBranch:
			cd := e.Cond
			tf := map[bool]string{true: "t", false: "f"}[e.Taken]
			if cd.Op == "f" && (cd.S == "IncludeDefaultBranch" || cd.S == "PullRequestsOnly") {
				if o := x.Get("flag:" + cd.S); o != "" && o != tf {
					x.Stop()
					return
				}
				x.Set("flag:"+cd.S, tf)
			}
			if cd.Op == "isnil" && !e.Taken && x.Get("item") != "" && x.Get("sent") == "" {
				x.Set("stop", "1")
			}
			if cur != nil {
				switch {
				case isLk(cd) && cd.A[1] == cur && cd.A[0].Op == "f" && cd.A[0].S == "Parents":
					if !e.Taken {
						x.Set("ok", "1")
					}
				case isLk(cd) && cd.A[1] == cur && e.Taken:
					if x.Get("fill:"+cd.A[0].key) != "" {
						x.Set("ok", "1")
					} else if cd.A[0].Op == "mmap" {
						x.Stop() // an empty map
						return
					}
				case isLk(cd) && cd.A[1] == cur:
					x.Set("not:"+cd.A[0].key, "1")
				case cd.Op == "empty" && cd.A[0] == cur && e.Taken:
					x.Set("ok", "1")
				}
			}
			if x.Get("item") != "" {
				isItem := func(t *Term, f string) bool { return t.Op == "f" && t.S == f && t.A[0].Op == "recv" }
				switch {
				case cd.Op == "empty" && isItem(cd.A[0], "Name"):
					x.Set("isPR", tf)
				case isLk(cd) && isItem(cd.A[1], "Commit") && cd.A[0].Op == "f" && cd.A[0].S == "Parents":
					x.Set("inGraph", tf)
				case (cd.Op == "isnil" || cd.Op == "empty") && cd.A[0].Op == "lk" && isItem(cd.A[0].A[1], "Commit") && cd.A[0].A[0].S == "Parents" && !e.Taken:
					x.Set("inGraph", "t")
				}
			}
		case EvIter:
			class := ""
			v := collSSA(e)
			switch {
			case e.IKind == "chan":
				if itemType(chanElemT(e)) == workT {
					endItem(x, e)
					if e.Taken {
						x.Set("item", "1")
					}
				}
				return
			case isRefs(e.Coll):
				class = "refs"
			case isPRs(e.Coll):
				class = "pr"
			case x.Get("fill:"+e.Coll.key) != "":
				class = "set"
			case v != nil && itemType(sliceElemOf(e)) == workT:
				class = "work"
				workLists[v] = true
			case inFlow(v):
				class = "uniq"
			default:
				return
			}
			leave(x, e, class)
			if e.IKind == "part" {
				bad(x, e, "part of "+class, "a loop over the heads that get a record does not cover them all")
			}
			if e.Taken {
				x.Set("in", class)
				t := x.ts.mk("el", "", "", e.Coll, e.Elem)
				if e.IKind == "map" {
					t = e.Elem
				}
				x.Retag("cur", t)
			} else {
				x.Set("done:"+class, "1")
			}
		case EvMapSet:
			if cur == nil || e.Key != cur || x.Get("in") != "pr" {
				return
			}
			if mt, ok := types.Unalias(e.Ins.(*ssa.MapUpdate).Map.Type()).Underlying().(*types.Map); ok {
				if types.TypeString(mt.Elem().Underlying(), nil) == "bool" && !(e.Val.IsConst() && e.Val.S == "true") {
					return
				}
			}
			x.Set("fill:"+e.Map.key, "1")
			x.Set("marked", "done")
			if x.Get("got") == "" {
				x.Set("got", "map")
			}
		case EvSlice:
			if s, ok := types.Unalias(e.Ins.(ssa.Value).Type()).Underlying().(*types.Slice); !ok || itemType(s.Elem()) != workT || e.Res.A[2] == nil {
				return
			}
			if n, ok := e.Res.A[2].Int(); ok && n == 0 {
				bad(x, e, "emptied", "the list of work items is emptied")
			}
		case EvAppend:
			sl, ok := types.Unalias(e.Ins.(ssa.Value).Type()).Underlying().(*types.Slice)
			if !ok {
				return
			}
			el, ok := x.Elems(e.Args[1])
			class := x.Get("in")
			v := e.Ins.(ssa.Value)
			isItem := itemType(sl.Elem()) == workT
			if !isItem && (!ok || len(el) != 1 || cur == nil || el[0] != cur || class == "refs") {
				return
			}
			if isItem {
				c.Count("work items", 1)
				if !ok || len(el) != 1 || cur == nil {
					bad(x, e, "work item", "a work item is added that does not belong to one branch or pull request head")
					return
				}
				items[v] = true
				nm, cm := x.ts.Field(el[0], "Name"), x.ts.Field(el[0], "Commit")
				good := false
				if class == "refs" {
					good = nm == x.ts.Field(cur, "Name") && cm == x.ts.Field(cur, "Commit")
				} else {
					good = zeroTerm(nm) && cm == cur
				}
				if !good {
					bad(x, e, "work item", "a work item does not have the name and commit of its branch or pull request head")
				}
			}
			if x.Get("got") == "1" {
				bad(x, e, "twice", "a branch or pull request head is added twice")
			}
			x.Set("got", "1")
			if class == "pr" {
				known := false
				for k := range x.St.auto {
					known = known || strings.HasPrefix(k, "not:")
				}
				switch {
				case !known && isItem:
					bad(x, e, "duplicate", "a pull request head that is given twice may get two work items")
				case !known:
					raw[v] = true
				case x.Get("marked") == "":
					x.Set("marked", "need")
				}
			}
			if !isItem && !raw[v] {
				distinct[v] = true
			}
		case EvSend:
			switch itemType(storeType(e)) {
			case workT:
				c.Count("work items sent", 1)
				if x.Get("in") != "work" || e.Val != cur {
					bad(x, e, "item sent", "what is sent to the workers is not the next work item")
					return
				}
				if x.Get("got") != "" {
					bad(x, e, "item sent twice", "a work item is sent to the workers twice")
				}
				x.Set("got", "1")
			case recT:
				c.Count("records sent", 1)
				if x.Get("item") == "" {
					if !defaultField(x.ts.Field(e.Val, "HeadSHA"), "Commit") {
						bad(x, e, "record", "a record is sent that belongs to no work item")
						return
					}
					if x.Get("def") != "" {
						bad(x, e, "default twice", "the record of the default branch is sent twice")
					}
					if x.Get("flag:IncludeDefaultBranch") != "t" || x.Get("flag:PullRequestsOnly") != "f" {
						bad(x, e, "default unwanted", "the record of the default branch is sent although it may not be wanted")
					}
					x.Set("def", "1")
					return
				}
				h := x.ts.Field(e.Val, "HeadSHA")
				if !(h.Op == "f" && h.S == "Commit" && h.A[0].Op == "recv") {
					bad(x, e, "record", "the record sent is not the one of the work item")
				}
				if x.Get("sent") != "" {
					bad(x, e, "record twice", "a work item gets two records")
				}
				x.Set("sent", "1")
				if x.Get("isPR") != "f" && x.Get("inGraph") != "t" {
					bad(x, e, "unknown head", "a record is made for a pull request head that may not be in the graph")
				}
			}
		case EvReturn:
			endItem(x, e)
			if x.Get("go") != "" {
				return
			}
			if nn, known := errKnown(x, e); known && nn {
				return
			}
			if x.Get("def") == "" && x.Get("flag:IncludeDefaultBranch") != "f" && x.Get("flag:PullRequestsOnly") != "t" {
				bad(x, e, "no default record", "the default branch gets no record although it is wanted")
			}
			if x.Get("done:refs") == "" && x.Get("flag:PullRequestsOnly") != "t" {
				bad(x, e, "no branches", "the branches get no work items although they are wanted")
			}
			if x.Get("done:refs") != "" && x.Get("flag:PullRequestsOnly") != "f" {
				bad(x, e, "unwanted branches", "the branches get work items although only pull requests may be wanted")
			}
			if x.Get("done:pr") == "" {
				bad(x, e, "no pull requests", "the pull request heads get no work items")
			}
		}
	}
	c.Sim("work items of "+fnName(root), root, r, nil)
	for v := range items {
		f := c.p.NewFlow()
		f.Containers = true
		f.Add(v, nil)
		f.Run()
		ok := false
		for w := range workLists {
			ok = ok || f.Vals[w]
		}
		if !ok {
			c.Violate("work items lost in "+fnName(v.Parent()), v.Pos(), "the work items collected do not flow to the list that is sent to the workers")
		}
		if !f.Vals[v.(*ssa.Call).Call.Args[0]] {
			c.Violate("work items restarted in "+fnName(v.Parent()), v.Pos(), "the list that a work item is appended to is not the list collected so far")
		}
	}
	// one kind of items must not replace the others
	for v := range items {
		for w := range items {
			if v == w || v.Parent() == w.Parent() {
				continue
			}
			f := c.p.NewFlow()
			f.Add(v, nil)
			f.Run()
			g := c.p.NewFlow()
			g.Add(w, nil)
			g.Run()
			if !f.Vals[w.(*ssa.Call).Call.Args[0]] && !g.Vals[v.(*ssa.Call).Call.Args[0]] {
				c.Violate("work items replaced in "+fnName(root), v.Pos(), "the work items of branches and pull requests are not collected in one list")
			}
		}
	}
}
