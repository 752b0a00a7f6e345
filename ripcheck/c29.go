package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// checkRevisions: the logs are asked for exactly the revisions the options prescribe.
func (c *Ctx) checkRevisions(logs map[string][]*gitCmd, kinds ...string) {
	for _, n := range kinds {
		for _, k := range logs[n] {
			for _, o := range revCombos() {
				if !k.consistent(o) {
					continue
				}
				c.Count("revisions per option combination", 1)
				var got []string
				for _, r := range parseGit(k.argv).revs {
					if r == "*{WantedBranchRefs}" && !o.noAll && !o.noFrom && !k.apiRoot() {
						continue
					}
					got = append(got, r)
				}
				want := wantRevs(o)
				if n == "graph" {
					want = wantRevs(optCombo{noFrom: true, noAll: o.noAll})
				}
				if g, w := strings.Join(got, " "), strings.Join(want, " "); g != w {
					c.ViolateAt("revisions of "+n, k.pos, k.trace, "with %s the log of %s covers %q instead of %q", o, n, g, w)
				}
			}
		}
	}
}

// checkPatchFlags: what the processing of the patch log relies on.
func (c *Ctx) checkPatchFlags(logs map[string][]*gitCmd) {
	for _, k := range logs["patches"] {
		a := parseGit(k.argv)
		c.Count("patch log requests", 1)
		if s := a.selecting(); len(s) > 0 {
			for _, f := range s {
				if !strings.HasPrefix(f, "-M") && !strings.HasPrefix(f, "--find-renames") && f != "--no-renames" && !strings.HasPrefix(f, "-l") {
					c.ViolateAt("patch log flag "+f, k.pos, k.trace, "the patch log is requested with %s, which is not known to keep every commit and patch", f)
				}
			}
		}
		need := func(why string, fs ...string) {
			for _, f := range fs {
				if a.flags[f] {
					return
				}
			}
			c.ViolateAt("patch log without "+fs[0], k.pos, k.trace, "the patch log is requested without %s: %s", fs[0], why)
		}
		need("the oldest commit would not come first", "--reverse")
		need("a commit could be listed before its parents", "--date-order", "--topo-order", "--author-date-order")
		need("merges would have no diff per parent", "-m", "--diff-merges=separate", "--diff-merges=m")
		need("hashes could be shortened", "--no-abbrev-commit", "--no-abbrev")
		if a.flags["-c"] {
			c.ViolateAt("patch log combined", k.pos, k.trace, "the patch log is requested with combined diffs of merges")
		}
		switch a.format {
		case "short", "medium", "full", "fuller":
		default:
			c.ViolateAt("patch log format", k.pos, k.trace, "the patch log has the format %q; the parser needs commit headers and indented messages", a.format)
		}
		if len(a.paths) > 0 {
			c.ViolateAt("patch log paths", k.pos, k.trace, "the patch log is limited to %v", a.paths)
		}
	}
}

// stageOpts: what the options of each stage have to be; "@X" is the caller's option X.
var stageOpts = map[string]map[string]string{
	"ripsrc/branches2.Opts":        {"Logger": "@Logger", "RepoDir": "@RepoDir", "UseOrigin": "@BranchesUseOrigin", "PullRequestSHAs": "@PullRequestSHAs", "IncludeDefaultBranch": "true", "PullRequestsOnly": "false", "CommitGraph": "graph"},
	"ripsrc/history3/process.Opts": {"Logger": "@Logger", "RepoDir": "@RepoDir", "CheckpointsDir": "@CheckpointsDir", "NoStrictResume": "@NoStrictResume", "CommitFromIncl": "@CommitFromIncl", "CommitFromMakeNonIncl": "@CommitFromMakeNonIncl", "AllBranches": "@AllBranches", "ParentsGraph": "graph"},
	"ripsrc/commitmeta.Opts":       {"CommitFromIncl": "@CommitFromIncl", "CommitFromMakeNonIncl": "@CommitFromMakeNonIncl", "AllBranches": "@AllBranches"},
	"ripsrc/parentsgraph.Opts":     {"RepoDir": "@RepoDir", "AllBranches": "@AllBranches", "Logger": "@Logger"},
}

func optType(t types.Type) string {
	n := namedOf(t)
	if n == nil || n.Obj().Pkg() == nil {
		return ""
	}
	s := strings.TrimPrefix(n.Obj().Pkg().Path(), modPath+"/") + "." + n.Obj().Name()
	if stageOpts[s] != nil {
		return s
	}
	return ""
}

func init() {
	register("C29", "From every public method the options handed to each stage (history processing, commit metadata, commit graph, branches) are computed on every path and must equal, field by field, the caller's options; the constructors keep all of them (a missing logger and a zero concurrency are replaced, nothing else), and no other code assigns them later. End to end, every git command and checkpoint access derived from them has the prescribed directory, revisions, references and expected commit for every combination of option values.", func(c *Ctx) {
		p := c.p
		logs := c.gitLogs()
		c.checkRevisions(logs, "patches", "metadata", "graph")
		c.Min("revisions per option combination", 10)
		g := p.gitCommands()
		for _, k := range g.cmds {
			if k.kind == "git" && k.apiRoot() && k.dir != "{RepoDir}" {
				c.ViolateAt("directory of "+k.role, k.pos, k.trace, "a git command of %s runs in %q instead of the configured repository", k.role, k.dir)
			}
			if k.kind == "git" && k.apiRoot() && k.argvKnown() {
				if a := parseGit(k.argv); a.sub == "for-each-ref" {
					c.Count("reference listings", 1)
					v, known := k.opts["BranchesUseOrigin"]
					want := "refs/heads"
					if !v {
						want = "refs/remotes/origin"
					}
					if got := strings.TrimSuffix(strings.Join(a.rest, " "), "/"); !known || got != want {
						c.ViolateAt("references", k.pos, k.trace, "branches are listed from %q, want refs/remotes/origin when origin branches are chosen and refs/heads otherwise", got)
					}
				}
			}
			if k.kind != "git" && k.apiRoot() {
				c.checkCheckpointArgs(k)
			}
		}
		c.Min("reference listings", 1)
		c.Min("checkpoint accesses", 1)
		c.checkStages()
		c.checkConstructors()
		// nothing assigns options later
		for _, fn := range p.Fns {
			if !isLibrary(fn) {
				continue
			}
			for _, b := range fn.Blocks {
				for _, ins := range b.Instrs {
					st, ok := ins.(*ssa.Store)
					if !ok {
						continue
					}
					fa, ok := st.Addr.(*ssa.FieldAddr)
					if !ok {
						continue
					}
					if n := namedOf(fa.X.Type()); n == nil || n.Obj().Name() != "Opts" {
						continue
					}
					c.Count("assignments to options", 1)
					// through a local variable: it is seen where it is handed over
					root := fa.X
					for {
						if in, ok := root.(*ssa.FieldAddr); ok {
							root = in.X
							continue
						}
						break
					}
					if _, ok := root.(*ssa.Alloc); ok {
						continue
					}
					// the constructor is judged as a whole
					if fn.Signature.Recv() == nil && fn.Parent() == nil && fn.Name() == "New" {
						continue
					}
					c.Violate("assignment in "+fnName(fn), st.Pos(), "%s assigns the option %s of an object in use", fnName(fn), structOf(fa.X.Type()).Field(fa.Field).Name())
				}
			}
		}
	})
}

// checkCheckpointArgs: where checkpoints are, and which commit is expected.
func (c *Ctx) checkCheckpointArgs(k *gitCmd) {
	c.Count("checkpoint accesses", 1)
	dirAt, want := 0, "{RepoDir}/pp-git-cache"
	if k.kind == "write" {
		dirAt = 1
	}
	v, known := k.opts["CheckpointsDir"]
	if !known {
		c.ViolateAt("checkpoint directory", k.pos, k.trace, "the checkpoint is used without looking whether a checkpoint directory is set")
		return
	}
	if !v {
		want = "{CheckpointsDir}/pp-git-cache"
	}
	if len(k.argv) <= dirAt || k.argv[dirAt] != want {
		c.ViolateAt("checkpoint directory", k.pos, k.trace, "the checkpoint is used in %v, want the directory %s", k.argv, want)
	}
	if k.kind == "read" {
		if v, ok := k.opts["CommitFromIncl"]; !ok || v {
			c.ViolateAt("checkpoint read", k.pos, k.trace, "a checkpoint is read although no starting commit is set")
		}
		strict, ok := k.opts["NoStrictResume"]
		wantC := "{CommitFromIncl}"
		if !strict {
			wantC = ""
		}
		if !ok || len(k.argv) < 2 || k.argv[1] != wantC {
			c.ViolateAt("expected commit", k.pos, k.trace, "the checkpoint is read with the expected commit %q, want %q", k.argv[len(k.argv)-1], wantC)
		}
	}
}

func (c *Ctx) checkStages() {
	p := c.p
	for _, root := range p.Fns {
		if root.Parent() != nil || root.Signature.Recv() == nil || !isNamed(root.Signature.Recv().Type(), mp("ripsrc.Ripsrc")) || root.Object() == nil || !root.Object().Exported() {
			continue
		}
		takes := func(f *ssa.Function, ins ssa.Instruction) bool {
			ci, ok := ins.(ssa.CallInstruction)
			if !ok || !isCtor(ci.Common().StaticCallee()) {
				return false
			}
			return true
		}
		if !p.transitively(root, takes) {
			continue
		}
		r := &Rule{Name: "options", MaxState: 60000}
		r.Inline = func(x *X, fn *ssa.Function, call ssa.CallInstruction) bool {
			if fnPkgPath(fn) != mp("ripsrc") || isCtor(fn) {
				return false
			}
			return p.transitively(fn, takes) || len(fn.Blocks) <= 8 && len(p.Loops(fn).back) == 0
		}
		r.OnEvent = func(x *X, e *Event) {
			if e.Kind != EvCall || !isCtor(e.Fn) {
				return
			}
			o := optBase(p, x)
			for i, prm := range e.Fn.Params {
				if i >= len(e.Args) {
					break
				}
				arg := e.Args[i]
				if types.TypeString(prm.Type(), nil) == "string" {
					c.Count("option values handed over", 1)
					if !x.sameOpt(o, arg, "RepoDir") {
						x.Violate("repository directory of "+fnName(e.Fn), e.Pos(), "the repository directory handed to "+fnName(e.Fn)+" is not the configured one: "+arg.Canon())
					}
					continue
				}
				tn := optType(prm.Type())
				if tn == "" {
					continue
				}
				st := structOf(prm.Type())
				for j := 0; j < st.NumFields(); j++ {
					want := stageOpts[tn][st.Field(j).Name()]
					if want == "" {
						continue
					}
					c.Count("option values handed over", 1)
					var v *Term
					if arg.Op == "new" {
						v = x.Load(x.ts.mk("fa", st.Field(j).Name(), "", arg), st.Field(j).Type())
					} else {
						v = x.ts.Field(arg, st.Field(j).Name())
					}
					if v.Op == "f" && v.A[0].Op == "zero" {
						v = x.ts.Zero(st.Field(j).Type())
					}
					ok := false
					switch {
					case want[0] == '@':
						ok = x.sameOpt(o, v, want[1:])
					case want == "graph":
						ok = v.Op == "f" && isNamed(st.Field(j).Type(), mp("ripsrc/parentsgraph.Graph")) && v.Has(func(t *Term) bool { return t.Op == "param" })
						if !ok {
							ok = v.Op != "const" // built on this path
						}
					default:
						ok = v.IsConst() && v.S == want
						if k, known := x.KnownCond(v); known && types.TypeString(st.Field(j).Type(), nil) == "bool" {
							ok = k == (want == "true")
						}
					}
					if !ok {
						x.Violate(tn+"."+st.Field(j).Name(), e.Pos(), "the option "+st.Field(j).Name()+" of "+tn+" is "+v.Canon()+", want "+strings.Replace(want, "@", "the caller's ", 1))
					}
				}
			}
		}
		c.Sim("options in "+fnName(root), root, r, nil)
	}
	c.Min("option values handed over", 10)
}

// isCtor: the constructor of a stage.
func isCtor(fn *ssa.Function) bool {
	if fn == nil || fn.Signature.Recv() != nil || fn.Parent() != nil || fnPkgPath(fn) == mp("ripsrc") {
		return false
	}
	for i := 0; i < fn.Signature.Params().Len(); i++ {
		if optType(fn.Signature.Params().At(i).Type()) != "" {
			return true
		}
	}
	return false
}

// sameOpt: v is the caller's option, or a constant it is known to equal here.
func (x *X) sameOpt(o, v *Term, name string) bool {
	want := x.ts.Field(o, name)
	if v == want {
		return true
	}
	if v.Op == "const" {
		switch v.S {
		case "true", "false":
			k, ok := x.KnownCond(want)
			return ok && k == (v.S == "true")
		case `""`, "nil":
			k, ok := x.IsEmpty(want)
			return ok && k
		}
	}
	return false
}

// checkConstructors: the options a constructor stores are the ones it was given.
func (c *Ctx) checkConstructors() {
	for _, fn := range c.p.Fns {
		if fn.Parent() != nil || fn.Signature.Recv() != nil || !isLibrary(fn) || fn.Object() == nil || !fn.Object().Exported() || fn.Signature.Results().Len() == 0 {
			continue
		}
		pi := -1
		for i, prm := range fn.Params {
			if n := namedOf(prm.Type()); n != nil && n.Obj().Name() == "Opts" && (optType(prm.Type()) != "" || n.Obj().Pkg().Path() == mp("ripsrc")) {
				pi = i
			}
		}
		res := structOf(fn.Signature.Results().At(0).Type())
		if pi < 0 || res == nil {
			continue
		}
		st := structOf(fn.Params[pi].Type())
		field := -1
		for i := 0; i < res.NumFields(); i++ {
			if types.Identical(res.Field(i).Type(), fn.Params[pi].Type()) {
				field = i
			}
		}
		if field < 0 {
			c.Violate("constructor "+fnName(fn), fn.Pos(), "%s does not keep its options", fnName(fn))
			continue
		}
		r := &Rule{Name: "constructor"}
		r.Inline = func(x *X, fn *ssa.Function, call ssa.CallInstruction) bool {
			return len(fn.Blocks) <= 10 && len(c.p.Loops(fn).back) == 0
		}
		r.OnEvent = func(x *X, e *Event) {
			if e.Kind != EvReturn {
				return
			}
			obj := e.Args[0]
			prm := x.ParamTerm(pi)
			addr := x.ts.mk("fa", res.Field(field).Name(), "", obj)
			all := x.Load(addr, res.Field(field).Type())
			for j := 0; j < st.NumFields(); j++ {
				n := st.Field(j).Name()
				if !c.p.fieldRead(fn.Params[pi].Type(), j) {
					continue // no one looks at it
				}
				c.Count("options kept by constructors", 1)
				want := x.ts.Field(prm, n)
				got := x.ts.Field(all, n)
				if cl, ok := x.St.mem[x.ts.mk("fa", n, "", addr).key]; ok {
					got = cl.val
				}
				if got == want || got.Canon() == want.Canon() {
					continue
				}
				if n == "Logger" {
					if v, ok := x.IsNil(want); ok && v {
						continue
					}
				}
				if n == "Concurrency" {
					if v, ok := x.KnownCond(x.ts.mk("eq", "", "", want, x.ts.IntConst(0))); ok && v {
						continue
					}
				}
				if got.IsConst() && x.sameOpt(prm, got, n) {
					continue
				}
				x.Violate(fnName(fn)+" "+n, e.Pos(), fnName(fn)+" keeps "+got.Canon()+" instead of the given option "+n)
			}
		}
		c.Sim("constructor "+fnName(fn), fn, r, nil)
		c.Count("constructors", 1)
	}
	c.Min("constructors", 2)
}

// fieldRead reports whether the library reads the field on its own (copies of the whole struct do not count).
func (p *Prog) fieldRead(t types.Type, i int) bool {
	for _, fn := range p.Fns {
		if !isLibrary(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				switch ins := ins.(type) {
				case *ssa.Field:
					if ins.Field == i && types.Identical(ins.X.Type(), t) {
						return true
					}
				case *ssa.FieldAddr:
					if ins.Field != i || !types.Identical(deref(ins.X.Type()), t) {
						continue
					}
					for _, r := range *ins.Referrers() {
						if st, ok := r.(*ssa.Store); !ok || st.Addr != ins {
							return true
						}
					}
				}
			}
		}
	}
	return false
}
