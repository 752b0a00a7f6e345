package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C31", "Every path of the exported patch parser over every patch git can print, as a walk through the grammar of git's patches (stated in the rule): the line in hand is each kind of line that can come at that position, as a text of constants and holes that stand for any content, and every condition on it is decided from that text where it can be. Content that looks like a header comes as a line of a hunk. At the end the returned diff is compared with what the lines said: paths, binary flag and hunks; a hunk is complete only if its locations come from its own header and its data is every line after it, in order, each ended by a newline. In the readers of the first line and of hunk headers: paths returned are parts of the line (no call that changes texts on the way back to it), the numbers of a location are stored as parsed, and positions are not looked for from the end of the line.", runC31)
}

// patchKind is a kind of line of a patch of one file.
type patchKind struct {
	text string
	to   string
	set  map[string]string // what the line says
	hunk bool              // a hunk header
	data bool              // a line of a hunk
}

func patchGrammar() map[string][]*patchKind {
	g := map[string][]*patchKind{}
	add := func(pos, to string, set map[string]string, texts ...string) {
		for _, t := range texts {
			g[pos] = append(g[pos], &patchKind{text: t, to: to, set: set})
		}
	}
	h := hole
	g["start"] = []*patchKind{
		{text: "diff --git a/" + h(1) + " b/" + h(2), to: "plain", set: map[string]string{"decl": "1"}},
		{text: "diff --combined " + h(1), to: "plain", set: map[string]string{"decl": "1"}},
	}
	for _, p := range []string{"plain", "new", "del", "ren"} {
		add(p, p, nil, "index "+hex(1)+".."+hex(2)+" 100644", "index "+hex(1)+".."+hex(2), "index "+hex(1)+","+hex(2)+".."+hex(3), "similarity index "+digit(1)+"%", "dissimilarity index "+digit(1)+"%")
		add(p, p, nil, "old mode 100644", "new mode 100755", "mode 100644,100644..100755")
		add(p, "end", map[string]string{"bin": "1"}, "Binary files a/"+h(1)+" and b/"+h(2)+" differ", "Binary files /dev/null and b/"+h(2)+" differ", "Binary files differ")
		add(p, "names", nil, "--- a/"+h(1), "--- /dev/null", "--- \"a/"+h(1)+"\"")
	}
	add("plain", "new", map[string]string{"new": "1"}, "new file mode 100644")
	add("plain", "del", map[string]string{"del": "1"}, "deleted file mode 100644", "deleted file mode 100644,100644")
	for i, f := range [][2]string{{h(1), "rename from " + h(3)}, {h(1) + " x " + h(2), h(3) + " x  " + h(4)}, {" " + h(1), h(2) + " "}} {
		p := "from" + string(rune('1'+i))
		add("plain", p, map[string]string{"from": f[0]}, "rename from "+f[0])
		add(p, "ren", map[string]string{"to": f[1]}, "rename to "+f[1])
	}
	add("names", "ctx", nil, "+++ b/"+h(1), "+++ /dev/null", "+++ \"b/"+h(1)+"\"")
	n := func(i int) string { return digit(i) + "," + digit(i+1) }
	for _, p := range []string{"ctx", "hunk"} {
		for _, t := range []string{"@@ -" + n(1) + " +" + n(3) + " @@", "@@ -" + n(1) + " +" + n(3) + " @@ " + h(1), "@@ -" + digit(1) + " +" + digit(2) + " @@", "@@@ -" + n(1) + " -" + n(3) + " +" + n(5) + " @@@ " + h(1), "@@@@ -" + n(1) + " -" + n(3) + " -" + n(5) + " +" + n(7) + " @@@@"} {
			g[p] = append(g[p], &patchKind{text: t, to: "hunk0", hunk: true})
		}
	}
	content := []string{"", h(1), "@@ -1 +1 @@", "-- a/" + h(1), "++ b/" + h(1), "rename from " + h(1), "rename to " + h(1), "new file mode 100644", "deleted file mode 100644", "Binary files " + h(1), "diff --git a/x b/x", "diff --combined x", "\\ No newline at end of file"}
	for _, c := range content {
		for i, pre := range []string{"+", "-", " ", "++", " -", "  "} {
			if i > 2 && c != "" && c != "@@ -1 +1 @@" && c != h(1) {
				continue
			}
			g["hunk"] = append(g["hunk"], &patchKind{text: pre + c, to: "hunk", data: true})
		}
	}
	g["hunk"] = append(g["hunk"], &patchKind{text: "\\ No newline at end of file", to: "hunk", data: true})
	for _, k := range g["hunk"] {
		if k.data {
			g["hunk0"] = append(g["hunk0"], k) // a hunk has lines
		}
	}
	return g
}

func isDiff(t types.Type) bool { return isNamed(t, mp(blamePkg)+".Diff") }

func runC31(c *Ctx) {
	g := patchGrammar()
	n := 0
	for _, fn := range c.p.Fns {
		if fnPkgPath(fn) != mp(blamePkg) || !exportedFn(fn) || fn.Parent() != nil || len(fn.Params) != 1 || !isByteSlice(fn.Params[0].Type()) {
			continue
		}
		if r := fn.Signature.Results(); r.Len() != 1 || !isDiff(r.At(0).Type()) {
			continue
		}
		n++
		c.patches(fn, g)
	}
	if n == 0 {
		c.Violate("no parser", 0, "no exported function of %s makes a diff from a patch", blamePkg)
	}
	c.Min("diffs returned", 3)
	c.Min("hunks kept", 1)
	c.Min("lines kept", 1)
}

func (c *Ctx) patches(fn *ssa.Function, g map[string][]*patchKind) {
	bySig := func(f *ssa.Function, res ...string) bool {
		if f == nil || fnPkgPath(f) != mp(blamePkg) || f.Signature.Params().Len() != 1 || f.Signature.Recv() != nil || f.Signature.Results().Len() != len(res) || !isByteSlice(f.Signature.Params().At(0).Type()) {
			return false
		}
		for i, r := range res {
			if !strings.HasSuffix(types.TypeString(f.Signature.Results().At(i).Type(), nil), r) {
				return false
			}
		}
		return true
	}
	declFn := func(f *ssa.Function) bool { return bySig(f, "string", "string", "error") }
	ctxFn := func(f *ssa.Function) bool { return bySig(f, "HunkLocation") }
	c.headerTexts(declFn, ctxFn)
	// by position, number and text: a line of a hunk can look like a header
	kinds := map[string]*patchKind{}
	id := func(pos string, i int) string { return fmt.Sprintf("%s %d", pos, i) }
	for pos, ks := range g {
		for i, k := range ks {
			kinds[id(pos, i)] = k
		}
	}
	seen := map[string]bool{}
	r := &Rule{Name: "patch", NoLoads: true, MaxState: 300000}
	r.Inline = func(x *X, f *ssa.Function, call ssa.CallInstruction) bool {
		return fnPkgPath(f) == mp(blamePkg) && !declFn(f) && !ctxFn(f)
	}
	sh := func(x *X) *shapes {
		s := &shapes{x, "\x00"}
		if k := kinds[x.Get("line")]; k != nil && x.Get("in") != "" {
			s.line = k.text
		}
		return s
	}
	// what is known of a text: its shape or the part of the declaration it is
	text := func(x *X, t *Term) (string, bool) {
		t = unwrapConv(t)
		if v, ok := sh(x).str(t); ok {
			return v, true
		}
		if t.Op == "x" && t.A[0].Op == "call" && (t.S == "0" || t.S == "1") {
			if k, ok := t.A[0].V.(*ssa.Call); ok && declFn(k.Call.StaticCallee()) && x.Get("decl") != "" {
				return "decl" + t.S, true
			}
		}
		return "", false
	}
	mapKey := func(m, k *Term) string {
		if s, ok := k.Str(); ok && m.Op == "mmap" {
			return "map:" + m.key + "\x00" + s
		}
		return ""
	}
	cond := func(x *X, t *Term) (v, known bool) {
		if v, ok := sh(x).cond(t); ok {
			return v, true
		}
		// entries of a local map
		l := t
		switch t.Op {
		case "empty":
			l = t.A[0]
		case "eq":
			if l = t.A[0]; l.IsConst() {
				l = t.A[1]
			}
		case "has":
		default:
			return false, false
		}
		if l.Op != "lk" && l.Op != "has" || mapKey(l.A[0], l.A[1]) == "" {
			return false, false
		}
		e, have := x.St.auto[mapKey(l.A[0], l.A[1])]
		switch t.Op {
		case "has":
			return have, true
		case "empty":
			if e == "?" {
				return false, false
			}
			return !have, true
		}
		s, ok := t.A[1].Str()
		if l == t.A[1] {
			s, ok = t.A[0].Str()
		}
		if !ok || e == "?" {
			return false, false
		}
		return shapeEq(e, s)
	}
	// end of the line in hand
	endLine := func(x *X, e *Event) {
		if x.Get("owed") != "" {
			x.Violate("hunk lost", e.Pos(), "a hunk is not kept when the header of the next one comes")
			x.Stop()
			return
		}
		k := kinds[x.Get("line")]
		switch {
		case k != nil && k.hunk:
			x.Untag("D:done")
			x.Untag("D:got")
			x.Set("none", "1") // no line of this hunk yet
		case k != nil && k.data:
			x.Untag("D:done")
			for _, t := range x.Tagged("D:got") {
				x.Tag("D:done", t)
			}
			x.Untag("D:got")
			x.Set("none", "")
		}
		x.Untag("D:mid")
	}
	r.OnEvent = func(x *X, e *Event) {
		switch e.Kind {
		case EvIter:
			if e.IKind != "scan" {
				return
			}
			if x.Get("pos") == "" {
				x.Set("pos", "start")
			}
			endLine(x, e)
			x.Set("in", "")
			pos := x.Get("pos")
			if !e.Taken {
				if pos == "start" || strings.HasPrefix(pos, "from") || pos == "names" || pos == "ctx" || pos == "hunk0" {
					x.Stop() // no patch ends here
				}
				x.Set("line", "")
				x.Set("done", "1")
				return
			}
			var alts []Auto
			for i, k := range g[pos] {
				a := x.St.auto.clone()
				a["pos"], a["line"], a["in"] = k.to, id(pos, i), "1"
				for n, v := range k.set {
					a["say:"+n] = v
				}
				if k.set["decl"] != "" {
					a["decl"] = "1"
				}
				delete(a, "ctx")
				if k.hunk {
					if a["open"] != "" {
						a["owed"] = "1"
					}
					a["open"] = "1"
				}
				alts = append(alts, a)
			}
			if len(alts) == 0 {
				x.Stop()
				return
			}
			x.Split(alts)
		case EvBranch:
			c.Count("conditions", 1)
			if v, ok := cond(x, e.Cond); ok && v != e.Taken {
				x.Stop()
			}
		case EvPanic:
			k := kinds[x.Get("line")]
			if x.Get("in") != "" && k != nil && k.set["decl"] != "" {
				return // a declaration that does not parse
			}
			if x.Get("done") != "" && e.Val != nil && e.Val.Op == "call" && strings.HasSuffix(e.Val.S, ".Err") {
				return
			}
			c.Count("panics", 1)
			x.Violate("panic", e.Pos(), "a patch that git can print is rejected")
		case EvMapSet:
			k := mapKey(e.Map, e.Key)
			if k == "" {
				if v, ok := text(x, e.Key); ok && e.Map.Op == "mmap" {
					k = "map:" + e.Map.key + "\x00" + v
				}
			}
			if k == "" {
				return
			}
			if v, ok := text(x, e.Val); ok {
				x.Set(k, v)
			} else {
				x.Set(k, "?")
			}
		case EvStore:
			if b, ok := types.Unalias(storeType(e)).Underlying().(*types.Basic); ok && b.Kind() == types.String {
				if v, ok := text(x, e.Val); ok && !e.Val.IsConst() {
					e.Val = x.ts.StrConst(v)
				}
			}
		case EvCall:
			if e.Res == nil {
				return
			}
			k, ok := e.Ins.(*ssa.Call)
			if !ok {
				return
			}
			kind := kinds[x.Get("line")]
			own := func() bool { return len(e.Args) == 1 && isLine(unwrapConv(e.Args[0])) && x.Get("in") != "" }
			switch f := k.Call.StaticCallee(); {
			case declFn(f):
				if !own() || kind == nil || kind.set["decl"] == "" {
					x.Violate("declaration", e.Pos(), "something else than the first line of a patch is read as its declaration")
				}
			case ctxFn(f):
				x.Assume(x.ts.mk("empty", "", "", e.Res), false)
				if !own() || kind == nil || !kind.hunk {
					x.Violate("header", e.Pos(), "a line that is no hunk header is read as one")
					x.Stop()
					return
				}
				x.Untag("L:prev")
				for _, t := range x.Tagged("L:cur") {
					x.Tag("L:prev", t)
				}
				x.Retag("L:cur", e.Res)
				x.Set("ctx", "1")
			}
		case EvAppend:
			t := types.Unalias(e.Ins.(ssa.Value).Type()).Underlying()
			if isByteSlice(t) {
				v := unwrapConv(e.Args[1])
				kind := kinds[x.Get("line")]
				if isLine(v) && x.Get("in") != "" {
					if kind == nil || !kind.data {
						return
					}
					if x.HasTag("D:done", e.Args[0]) || x.Get("none") != "" && x.freshList(e.Args[0]) {
						x.Retag("D:mid", e.Res)
					}
					return
				}
				s, ok := v.Str()
				if !ok {
					if el, isL := x.Elems(e.Args[1]); isL && len(el) == 1 {
						if n, isN := el[0].Int(); isN && n == 10 {
							s, ok = "\n", true
						}
					}
				}
				if ok && s == "\n" && x.HasTag("D:mid", e.Args[0]) {
					c.Count("lines kept", 1)
					x.Untag("D:mid")
					x.Retag("D:got", e.Res)
				}
				return
			}
			el := elemOfSlice(t)
			if el == nil || !isNamed(el, mp(blamePkg)+".Hunk") {
				return
			}
			l, ok := x.Elems(e.Args[1])
			if !ok || len(l) != 1 {
				x.Violate("hunks", e.Pos(), "hunks are collected in a way that was not recognised")
				return
			}
			c.Count("hunks kept", 1)
			if x.Get("open") == "" {
				x.Violate("no hunk", e.Pos(), "a hunk is kept that no header began")
				return
			}
			if d := unwrapConv(x.ts.Field(l[0], "Data")); !x.HasTag("D:done", d) && !(x.Get("done") != "" && x.HasTag("D:done", d)) {
				x.Violate("hunk data", e.Pos(), "the data of a hunk is not every line that follows its header, in order")
			}
			loc := x.ts.Field(l[0], "Locations")
			if want := "L:cur"; x.Get("owed") != "" && x.Get("ctx") != "" && !x.HasTag("L:prev", loc) || (x.Get("owed") == "" || x.Get("ctx") == "") && !x.HasTag(want, loc) {
				x.Violate("hunk locations", e.Pos(), "the locations of a hunk are not those of its header")
			}
			if !(x.HasTag("R:full", e.Args[0]) || x.Get("kept") == "" && x.freshList(e.Args[0])) {
				x.Violate("hunk order", e.Pos(), "a hunk is put into another list than the hunks before it")
			}
			x.Retag("R:full", e.Res)
			x.Set("kept", "1")
			if x.Get("owed") != "" {
				x.Set("owed", "")
			} else {
				x.Set("open", "")
			}
		case EvReturn:
			d := e.Args[0]
			f := func(n string) *Term { return unwrapConv(x.ts.Field(d, n)) }
			if x.Get("done") == "" {
				for _, n := range []string{"PathPrev", "Path", "IsBinary", "Hunks"} {
					if v, ok := x.IsEmpty(x.ParamTerm(0)); !ok || !v {
						x.Violate("not read", e.Pos(), "a diff is returned though the patch was not read to its end")
					} else if !zeroTerm(f(n)) {
						x.Violate("empty patch", e.Pos(), "the diff of an empty patch is not empty")
					}
				}
				return
			}
			c.Count("diffs returned", 1)
			seen[x.Get("say:new")+x.Get("say:del")+x.Get("say:bin")+x.Get("say:from")] = true
			path := func(n, want, what string) {
				v, ok := text(x, f(n))
				if t := f(n); !ok && t.Op == "lk" && mapKey(t.A[0], t.A[1]) != "" {
					v, ok = x.Get(mapKey(t.A[0], t.A[1])), true
				}
				if !ok && zeroTerm(f(n)) {
					v, ok = "", true
				}
				if !ok || v != want {
					x.Violate(n+" of "+what, e.Pos(), "the "+map[string]string{"PathPrev": "previous path", "Path": "path"}[n]+" of "+what+" is not the one git printed")
				}
			}
			prev, cur, wp, wc := "decl0", "decl1", "a change", "a change"
			if x.Get("say:new") != "" {
				prev, wp, wc = "", "a new file", "a new file"
			}
			if x.Get("say:del") != "" {
				cur, wp, wc = "", "a deleted file", "a deleted file"
			}
			if x.Get("say:from") != "" {
				prev, cur, wp, wc = x.Get("say:from"), x.Get("say:to"), "a renamed file", "a renamed file"
			}
			path("PathPrev", prev, wp)
			path("Path", cur, wc)
			bin := f("IsBinary")
			v, ok := bin.key == "const:true", bin.key == "const:true" || zeroTerm(bin)
			if !ok {
				t, pol := x.ts.Cond(bin)
				if v, ok = cond(x, t); !ok {
					v, ok = x.KnownCond(t)
				}
				v = v == pol
			}
			if !ok || v != (x.Get("say:bin") != "") {
				x.Violate("binary", e.Pos(), "the binary flag of a diff does not say what git printed")
			}
			hs := f("Hunks")
			switch {
			case x.Get("say:del") != "":
				if v, ok := x.IsEmpty(hs); !zeroTerm(hs) && (!ok || !v) {
					x.Violate("hunks of a deleted file", e.Pos(), "the diff of a deleted file has hunks")
				}
			case x.Get("open") != "" || x.Get("owed") != "":
				x.Violate("last hunk lost", e.Pos(), "the last hunk is not kept at the end of the patch")
			case x.Get("kept") != "" && !x.HasTag("R:full", hs), x.Get("kept") == "" && !zeroTerm(hs) && !x.freshList(hs):
				x.Violate("hunks", e.Pos(), "the hunks of a diff are not all hunks that were read")
			}
		}
	}
	c.Sim("patch parser "+fnName(fn), fn, r, nil)
	c.Count("kinds of diffs", len(seen))
}
