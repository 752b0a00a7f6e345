package main

import (
	"strings"

	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C13", "CheckpointReader.Read is followed on every path: with an expected commit set, data is returned only after the marker file, the one CheckpointWriter.Write fills with exactly the commit it was given, was seen to be equal to the expected commit. Process.Run is followed with its helpers: a checkpoint is read only on paths where a starting commit is set, what it returns becomes the state, any other way leaves a new state only in full runs; it is saved only after the channel of parsed commits was drained and every error before, that of the log parser in its goroutine included, was seen to be nil, with the current state, under the hash of the commit whose result was sent last. Directories and expected commits are compared, for every combination of options, with the configured ones.", runC13)
}

// unwrapText strips conversions and trimming from a text term.
func unwrapText(t *Term) *Term {
	for t != nil {
		switch {
		case t.Op == "conv" || t.Op == "u" && t.S == "conv":
			t = t.A[0]
		case t.Op == "call" && (t.S == "strings.TrimSpace" || t.S == "bytes.TrimSpace"):
			t = t.A[0]
		default:
			return t
		}
	}
	return t
}

func runC13(c *Ctx) {
	p := c.p
	rd := c.Must(repoPkg, "CheckpointReader.Read")
	wr := c.Must(repoPkg, "CheckpointWriter.Write")
	run := c.Must(processPkg, "Process.Run")
	if rd == nil || wr == nil || run == nil {
		return
	}
	strParam := func(fn *ssa.Function, n int) int {
		for i, prm := range fn.Params {
			if types.TypeString(prm.Type(), nil) == "string" {
				if n == 0 {
					return i
				}
				n--
			}
		}
		return -1
	}
	expected := strParam(rd, 1)
	label := strParam(wr, 1)
	if expected < 0 || label < 0 {
		c.Violate("parameters", rd.Pos(), "the checkpoint reader or writer has no commit parameter")
		return
	}
	inRepo := func(x *X, f *ssa.Function, call ssa.CallInstruction) bool { return fnPkgPath(f) == mp(repoPkg) }

	// reading
	marker := map[string]bool{}
	r := &Rule{Name: "reading", NoLoads: true, MaxState: 80000, Inline: inRepo}
	r.OnEvent = func(x *X, e *Event) {
		want := x.ParamTerm(expected)
		switch e.Kind {
		case EvCall:
			if e.Name == "os.ReadFile" || e.Name == "io/ioutil.ReadFile" {
				if s, ok := x.dirPath(e.Args[0], rd); ok {
					x.Set("read:"+e.Res.key, s)
				}
			}
		case EvBranch:
			if e.Cond.Op != "eq" || !e.Taken {
				return
			}
			a, b := unwrapText(e.Cond.A[0]), unwrapText(e.Cond.A[1])
			if b != want {
				a, b = b, a
			}
			if b != want || a.Op != "x" || a.S != "0" {
				return
			}
			if s := x.Get("read:" + a.A[0].key); s != "" {
				marker[s] = true
				x.Set("matched", s)
			}
		case EvReturn:
			if v, ok := x.IsNil(e.Args[len(e.Args)-1]); ok && !v {
				return
			}
			if v, ok := x.IsNil(e.Args[0]); ok && v {
				return
			}
			c.Count("results of the reader", 1)
			if v, ok := x.IsEmpty(want); ok && v {
				c.Count("results without expected commit", 1)
				return
			}
			if x.Get("matched") == "" {
				x.Violate("not compared", e.Pos(), "a checkpoint is returned although the commit it was saved for was not seen to be equal to the expected one")
			}
		}
	}
	c.Sim("reading a checkpoint", rd, r, nil)
	c.Min("results of the reader", 1)

	// the marker is written with the label
	r = &Rule{Name: "marker", NoLoads: true, MaxState: 150000, Inline: inRepo}
	r.OnEvent = func(x *X, e *Event) {
		switch e.Kind {
		case EvCall:
			switch e.Name {
			case "os.WriteFile", "io/ioutil.WriteFile":
				s, _ := x.dirPath(e.Args[0], wr)
				v := ""
				if d := e.Args[1]; unwrapConv(d) == x.ParamTerm(label) {
					v = "label"
				} else {
					v = "other: " + d.Canon()
				}
				x.Set("c:"+s, v)
			case "os.Create", "os.OpenFile":
				s, _ := x.dirPath(e.Args[0], wr)
				x.Set("h:"+x.ts.mk("x", "0", "", e.Res).key, s)
			case "(*os.File).WriteString", "(*os.File).Write", "io.WriteString":
				if s := x.Get("h:" + e.Args[0].key); s != "" {
					v := "label"
					if x.Get("c:"+s) != "" || unwrapConv(e.Args[1]) != x.ParamTerm(label) {
						v = "other: " + e.Args[1].Canon()
					}
					x.Set("c:"+s, v)
				}
			case "os.Rename":
				a, _ := x.dirPath(e.Args[0], wr)
				b, _ := x.dirPath(e.Args[1], wr)
				for k, v := range x.St.auto {
					if strings.HasPrefix(k, "c:") && within(k[2:], a) {
						x.Set(k, "")
						x.Set("c:"+b+k[2+len(a):], v)
					}
				}
			}
		case EvReturn:
			if v, ok := x.IsNil(e.Args[len(e.Args)-1]); ok && !v {
				return
			}
			for m := range marker {
				c.Count("markers written", 1)
				switch v := x.Get("c:" + m); v {
				case "label":
				case "":
					x.Violate("no marker", e.Pos(), "a checkpoint is saved without the marker "+m+" that the reader compares")
				default:
					x.Violate("marker", e.Pos(), "the marker "+m+" is not written with exactly the commit the checkpoint is saved for, "+v)
				}
			}
		}
	}
	c.Sim("marker of a checkpoint", wr, r, nil)
	if len(marker) != 1 {
		c.Violate("markers", rd.Pos(), "%d files are compared with the expected commit, want one", len(marker))
	}
	c.Min("markers written", 1)

	// the history processor
	repoField := ""
	repoT := p.SPkgs[mp(repoPkg)].Type("Repo").Type()
	if st := structOf(p.SPkgs[mp(processPkg)].Type("Process").Type()); st != nil {
		for i := 0; i < st.NumFields(); i++ {
			if types.Identical(st.Field(i).Type(), repoT) {
				repoField = st.Field(i).Name()
			}
		}
	}
	procT := p.SPkgs[mp(processPkg)].Type("Process").Type()
	var labels []string
	parts := map[string]bool{}
	for i, st := 0, structOf(procT); st != nil && i < st.NumFields(); i++ {
		if types.TypeString(st.Field(i).Type(), nil) == "string" {
			labels = append(labels, st.Field(i).Name())
		}
		if isPartsMap(st.Field(i).Type()) {
			parts[st.Field(i).Name()] = true
		}
	}
	isProducer := func(f *ssa.Function) bool {
		return f != nil && f.Blocks != nil && f.Parent() == nil && fnPkgPath(f) == mp(processPkg) && f.Signature.Results().Len() > 0 && isNamed(f.Signature.Results().At(0).Type(), mp(processPkg)+".Result")
	}
	// fields that hold the commit of the result whenever a producer ends with success
	sets := map[*ssa.Function]map[string]bool{}
	// which argument names the commit of the result: its number, and whether it is a commit
	type named struct {
		arg   int
		field string
	}
	names := map[*ssa.Function]*named{}
	producer := func(f *ssa.Function) map[string]bool {
		if m, ok := sets[f]; ok {
			return m
		}
		m := map[string]bool{}
		for _, l := range labels {
			m[l] = true
		}
		sets[f] = m
		n := 0
		r := &Rule{Name: "label", NoLoads: true, MaxState: 80000}
		r.Inline = func(x *X, g *ssa.Function, call ssa.CallInstruction) bool { return isProducer(g) }
		r.OnEvent = func(x *X, e *Event) {
			if e.Kind != EvReturn {
				return
			}
			if lastIsErr(f) {
				if v, ok := x.IsNil(e.Args[len(e.Args)-1]); ok && !v {
					return
				}
			}
			n++
			rc := x.ts.Field(e.Args[0], "Commit")
			var nm *named
			for i := range f.Params {
				switch {
				case rc == x.ParamTerm(i):
					nm = &named{i, ""}
				case rc == x.ts.Field(x.ParamTerm(i), "Hash"):
					nm = &named{i, "Hash"}
				}
			}
			if n == 1 {
				names[f] = nm
			} else if names[f] != nil && (nm == nil || *nm != *names[f]) {
				names[f] = nil
			}
			for l := range m {
				if x.Load(x.ts.mk("fa", l, "", x.ParamTerm(0)), types.Typ[types.String]) != x.ts.Field(e.Args[0], "Commit") {
					m[l] = false
				}
			}
		}
		c.Sim("label in "+fnName(f), f, r, nil)
		if n == 0 {
			sets[f] = map[string]bool{}
		}
		return sets[f]
	}
	saves := func(f *ssa.Function, ins ssa.Instruction) bool {
		if isChanOp(f, ins) {
			return true
		}
		switch i := ins.(type) {
		case ssa.CallInstruction:
			return isCheckpoint(i.Common().StaticCallee()) != ""
		case *ssa.Store:
			fa, ok := i.Addr.(*ssa.FieldAddr)
			if !ok || !isNamed(fa.X.Type(), mp(processPkg)+".Process") {
				return false
			}
			t := structOf(fa.X.Type()).Field(fa.Field).Type()
			return types.Identical(t, repoT) || types.TypeString(t, nil) == "string"
		}
		return false
	}
	r = &Rule{Name: "use of checkpoints", NoLoads: true, MaxState: 200000}
	r.Inline = func(x *X, f *ssa.Function, call ssa.CallInstruction) bool {
		return fnPkgPath(f) == mp(processPkg) && !isProducer(f) && p.transitively(f, saves)
	}
	r.Init = func(x *X) {
		for f := range parts {
			a := x.ts.mk("fa", f, "", x.ParamTerm(0))
			a.T = types.NewPointer(procT)
			x.St.mem[a.key] = cell{a, x.ts.Nil()}
		}
	}
	r.OnEvent = func(x *X, e *Event) {
		opts := x.ts.Field(x.ParamTerm(0), "opts")
		from := x.ts.Field(opts, "CommitFromIncl")
		switch e.Kind {
		case EvIter:
			if e.IKind == "chan" && isNamed(chanElem(e.Coll), mp(parserPkg)+".Commit") {
				if e.Taken {
					x.Set("log", "more")
				} else {
					x.Set("log", "end")
				}
			}
		case EvSend:
			if isNamed(storeType(e), mp(processPkg)+".Result") {
				commit := x.ts.Field(e.Val, "Commit")
				x.Retag("last", commit)
				var alias []*Term
				if e.Val.Op == "x" && e.Val.S == "0" && x.Get("aliasof") == e.Val.A[0].key {
					alias = x.Tagged("alias")
				}
				for _, a := range alias {
					x.Tag("last", a)
				}
				for _, l := range labels {
					v := x.Get("lab:" + l)
					same := x.HasTag("lv:"+l, commit)
					for _, a := range alias {
						same = same || x.HasTag("lv:"+l, a)
					}
					if v == "val" && same || strings.HasPrefix(v, "res:") && e.Val.Op == "x" && e.Val.S == "0" && e.Val.A[0].key == v[4:] {
						x.Set("lab:"+l, "ok")
					} else {
						x.Set("lab:"+l, "")
					}
				}
				x.Set("sent", "1")
				if x.Get("state") == "" {
					x.Violate("no state", e.Pos(), "a result is sent before a checkpoint was read or a new state made")
				}
			}
		case EvStore:
			for _, l := range labels {
				if e.Addr.Op == "fa" && e.Addr.S == l && e.Addr.A[0] == x.ParamTerm(0) {
					x.Retag("lv:"+l, e.Val)
					x.Set("lab:"+l, "val")
					if x.HasTag("last", e.Val) {
						x.Set("lab:"+l, "ok")
					}
				}
			}
			if e.Addr.Op == "fa" && e.Addr.S == repoField && rootedAt(e.Addr, x.ParamTerm(0)) {
				c.Count("states set", 1)
				read := e.Val.Op == "x" && e.Val.S == "0" && x.Get("readcall") == e.Val.A[0].key
				v, known := x.IsEmpty(from)
				switch {
				case read:
					x.Set("state", "read")
				case known && v && (e.Val.Op == "mmap" || e.Val.Is("call", mp(repoPkg)+".New")):
					x.Set("state", "new")
				default:
					x.Violate("state", e.Pos(), "the processing can start from another state than the checkpoint it was told to continue from, or, in full runs, a new one: "+e.Val.Canon())
				}
			}
		case EvCall:
			if isProducer(e.Fn) {
				m := producer(e.Fn)
				x.Untag("alias")
				x.Set("aliasof", e.Res.key)
				if nm := names[e.Fn]; nm != nil {
					t := e.Args[nm.arg]
					if nm.field != "" {
						t = x.ts.Field(t, nm.field)
					}
					x.Tag("alias", t)
				}
				for _, l := range labels {
					switch {
					case m[l]:
						x.Set("lab:"+l, "res:"+e.Res.key)
						c.Count("producers that note their commit", 1)
					case p.Mods(e.Fn)[typeKey(procT)+"."+l]:
						x.Set("lab:"+l, "")
					}
				}
				return
			}
			switch isCheckpoint(e.Fn) {
			case "read":
				c.Count("checkpoint reads", 1)
				x.Set("readcall", e.Res.key)
				if v, ok := x.IsEmpty(from); !ok || v {
					x.Violate("read in full run", e.Pos(), "a checkpoint is read on a path where no starting commit is known to be set")
				}
				if x.Get("sent") != "" {
					x.Violate("read late", e.Pos(), "a checkpoint is read after results were sent")
				}
			case "write":
				c.Count("checkpoint writes", 1)
				if x.Get("log") != "end" {
					x.Violate("saved early", e.Pos(), "a checkpoint is saved before the log was read to its end")
				}
				cur := x.Load(x.ts.mk("fa", repoField, "", x.ParamTerm(0)), repoT)
				if e.Args[1] != cur {
					x.Violate("saved state", e.Pos(), "what is saved is not the state of the processing: "+e.Args[1].Canon())
				}
				lt := e.Args[label]
				ok := x.HasTag("last", lt)
				for _, l := range labels {
					if x.Get("lab:"+l) == "ok" && lt == x.Load(x.ts.mk("fa", l, "", x.ParamTerm(0)), types.Typ[types.String]) {
						ok = true
					}
				}
				if !ok {
					x.Violate("label", e.Pos(), "a checkpoint is saved under a hash that is not the commit of the result sent last: "+lt.Canon())
				}
			}
		}
	}
	c.Sim("use of checkpoints", run, r, nil)
	c.Min("checkpoint reads", 1)
	c.Min("checkpoint writes", 1)
	c.Min("states set", 1)

	// errors before saving
	for _, fn := range p.Fns {
		if fn.Parent() != nil || !isLibrary(fn) || !p.savesCheckpoint(fn) || isCheckpoint(fn) != "" || fnPkgPath(fn) == mp("ripsrc") {
			continue
		}
		sub := &Ctx{p: p, id: c.id, tier: c.tier, findings: map[string]*Finding{}, rules: map[string]int{}, minimum: map[string]int{}, fns: map[string]bool{}}
		sub.errFlow(fn)
		c.Saw(fn)
		c.sims += sub.sims
		c.states += sub.states
		c.Count("fallible calls followed to the saving", sub.rules["fallible calls"])
		for k, f := range sub.findings {
			if strings.Contains(k, "checkpoint after failure") || strings.Contains(k, "undecided") {
				c.findings[k] = f
			}
		}
	}
	c.Min("fallible calls followed to the saving", 3)

	// directories and expected commits
	for _, k := range p.gitCommands().cmds {
		if k.kind != "git" && k.apiRoot() {
			c.checkCheckpointArgs(k)
		}
		if k.kind != "git" && !k.apiRoot() && !k.runRoot() {
			c.Violate("other user of checkpoints", 0, "%s uses checkpoints apart from the history processing", k.fn)
		}
	}
	c.Min("checkpoint accesses", 1)
}

func unwrapConv(t *Term) *Term {
	for t != nil && (t.Op == "conv" || t.Op == "u" && t.S == "conv") {
		t = t.A[0]
	}
	return t
}
