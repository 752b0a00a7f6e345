package main

import (
	"fmt"
)

// logKind is a kind of line of the log with patches.
type logKind struct {
	text, to   string
	commit     bool
	hash, from string
	start      bool // starts a patch
	patch      bool // belongs to the open patch
}

// patchLogGrammar: what git log -p -m --pretty=short prints, line by line.
func patchLogGrammar() map[string][]*logKind {
	g := map[string][]*logKind{}
	h := hole
	commits := func(pos string) {
		g[pos] = append(g[pos],
			&logKind{text: "commit " + hex(1), to: "commit", commit: true, hash: hex(1)},
			&logKind{text: "commit " + hex(1) + " (from " + hex(2) + ")", to: "merge", commit: true, hash: hex(1), from: hex(2)})
	}
	add := func(pos, to string, texts ...string) {
		for _, t := range texts {
			g[pos] = append(g[pos], &logKind{text: t, to: to})
		}
	}
	starts := func(pos string) {
		for _, t := range []string{"diff --git a/" + h(1) + " b/" + h(2), "diff --git \"a/" + h(1) + "\" \"b/" + h(2) + "\"", "diff --git \"a/" + h(1) + "\" b/" + h(2), "diff --git a/" + h(1) + " \"b/" + h(2) + "\""} {
			g[pos] = append(g[pos], &logKind{text: t, to: "patch", start: true})
		}
	}
	author := "Author: " + h(1) + " <" + h(2) + ">"
	commits("start")
	add("commit", "author", author)
	add("commit", "merged", "Merge: "+hex(1)+" "+hex(2), "Merge: "+hex(1)+" "+hex(2)+" "+hex(3))
	add("merge", "merged", "Merge: "+hex(1)+" "+hex(2), "Merge: "+hex(1)+" "+hex(2)+" "+hex(3))
	add("merged", "author", author)
	add("author", "subject", "")
	add("subject", "message", "    "+h(1), "    ", "    commit "+hex(1), "    diff --git a/"+h(1)+" b/"+h(2), "    Merge: "+h(1))
	add("message", "message", "    "+h(1), "    ")
	add("message", "space", "")
	commits("space")
	starts("space")
	starts("patch")
	for _, t := range []string{"index " + hex(1) + ".." + hex(2) + " 100644", "similarity index " + digit(1) + "%", "new file mode 100644", "deleted file mode 100644", "old mode 100644", "new mode 100755",
		"rename from " + h(1), "rename to " + h(1), "rename from \"" + h(1) + "\"", "copy from " + h(1), "copy to " + h(1), "Binary files a/" + h(1) + " and b/" + h(2) + " differ",
		"--- a/" + h(1), "--- /dev/null", "+++ b/" + h(1), "+++ /dev/null", "@@ -" + digit(1) + "," + digit(2) + " +" + digit(3) + " @@ " + h(1),
		"+" + h(1), "-" + h(1), " " + h(1), "+", "-", " ", "\\ No newline at end of file",
		"+commit " + hex(1), "-commit " + hex(1), " commit " + hex(1), "+diff --git a/x b/x", "-diff --git a/x b/x", " diff --git a/x b/x", "+Merge: x", "-Author: x", " Author: x"} {
		g["patch"] = append(g["patch"], &logKind{text: t, to: "patch", patch: true})
	}
	add("patch", "gap", "")
	commits("gap")
	return g
}

// c01Grammar walks the log parser through the lines git prints and compares what it makes of each with what git means.
func c01Grammar(c *Ctx) {
	fn := c.Must(parserPkg, "Parser.Run")
	if fn == nil {
		return
	}
	commitT := mp(parserPkg) + ".Commit"
	g := patchLogGrammar()
	kinds := map[string]*logKind{}
	id := func(pos string, i int) string { return fmt.Sprintf("%s %d", pos, i) }
	for pos, ks := range g {
		for i, k := range ks {
			kinds[id(pos, i)] = k
		}
	}
	walked := map[*logKind]bool{}
	r := &Rule{Name: "log", NoLoads: true, MaxState: 300000}
	kind := func(x *X) *logKind { return kinds[x.Get("line")] }
	sh := func(x *X) *shapes {
		s := &shapes{x, "\x00"}
		if k := kind(x); k != nil {
			s.line = k.text
		}
		return s
	}
	endLine := func(x *X, e *Event) {
		k := kind(x)
		if k == nil {
			return
		}
		walked[k] = true
		switch {
		case k.commit:
			for _, n := range [][2]string{{"hash", "Hash"}, {"from", "MergeDiffFrom"}} {
				if x.Get(n[0]) == "bad" {
					x.Violate("log: value of "+n[1], e.Pos(), "the field "+n[1]+" of a commit is not what its commit line says")
				}
			}
			if x.Get("hash") == "" {
				x.Violate("log: commit line", e.Pos(), "the line that starts a commit does not start one")
			} else if k.from != "" && x.Get("from") == "" {
				x.Violate("log: parent", e.Pos(), "the parent that a part of a merge is compared with is not kept")
			}
		case k.start:
			if x.Get("kept") != "new" {
				x.Violate("log: patch start", e.Pos(), "the first line of a patch does not start a new patch")
			}
		case k.patch:
			if x.Get("kept") != "open" {
				x.Violate("log: patch line", e.Pos(), "a line of a patch is not added to the patch it is in")
			}
		default:
			if x.Get("kept") != "" {
				x.Violate("log: header in patch", e.Pos(), "a line outside of the patches is added to a patch")
			}
		}
		if !k.commit && x.Get("hash") != "" {
			x.Violate("log: commit start", e.Pos(), "a line that does not start a commit starts one")
		}
		for _, n := range []string{"line", "kept", "hash", "from"} {
			x.Set(n, "")
		}
	}
	value := func(x *X, k *logKind, v *Term, want string) string {
		if s, ok := sh(x).str(unwrapConv(v)); ok && s == want {
			return "1"
		}
		return "bad"
	}
	r.OnEvent = func(x *X, e *Event) {
		switch e.Kind {
		case EvIter:
			if e.IKind != "scan" {
				return
			}
			endLine(x, e)
			pos := x.Get("pos")
			if pos == "" {
				pos = "start"
			}
			if !e.Taken {
				if pos != "start" && pos != "message" && pos != "patch" {
					x.Stop() // the log does not end here
				}
				return
			}
			var alts []Auto
			for i, k := range g[pos] {
				a := x.St.auto.clone()
				a["pos"], a["line"] = k.to, id(pos, i)
				alts = append(alts, a)
			}
			x.Split(alts)
		case EvBranch:
			if kind(x) == nil {
				return
			}
			c.Count("conditions on lines of the log", 1)
			if v, ok := sh(x).cond(e.Cond); ok && v != e.Taken {
				x.Stop()
			}
		case EvPanic:
			if kind(x) != nil {
				x.Violate("log: panic", e.Pos(), "a line that git can print is rejected")
			}
		case EvStore:
			t := storeType(e)
			k := kind(x)
			if e.Addr.Op == "fa" && e.Addr.T != nil && isNamed(e.Addr.T, commitT) {
				empty := false
				if v, ok := x.IsEmpty(e.Val); ok && v && e.Val.IsConst() {
					empty = true
				}
				switch e.Addr.S {
				case "Hash":
					if empty {
						x.Set("hash", "")
					} else if k != nil {
						x.Set("hash", value(x, k, e.Val, k.hash))
					}
				case "MergeDiffFrom":
					if empty {
						x.Set("from", "")
					} else if k != nil {
						x.Set("from", value(x, k, e.Val, k.from))
					}
				case "Changes":
					x.Set("diff", "")
				}
				return
			}
			if !isByteSlice(t) || !rootedAt(e.Addr, x.ParamTerm(0)) {
				return
			}
			_, parts := flattenApp(e.Val, x.Load(e.Addr, t))
			for _, p := range parts {
				if !isLine(p) {
					continue
				}
				if x.Get("diff") == "1" {
					x.Set("kept", "open")
				} else {
					x.Set("kept", "new")
				}
				x.Set("diff", "1")
			}
		}
	}
	c.Sim("log grammar", fn, r, nil)
	c.Count("kinds of lines of the log walked", len(walked))
	c.Min("kinds of lines of the log walked", len(kinds)/2)
	c.Min("conditions on lines of the log", 3)
}
