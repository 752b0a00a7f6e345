package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C02", "Property simulation of the functions that produce the result of a commit and of the code result of a commit: every change of a regular commit, "+
		"every change of a merge part, every merged file and every file of a result is followed through its loop iteration; the iteration may only end with an entry "+
		"under the new path (old path when deleted) or one of the documented exemptions.", runC02)
	register("C03", "Property simulation of the functions that produce the result of a commit: the state of the commit is created first, every change that leaves a file stores its "+
		"blame there, the same object as in the result; every other file of the first parent (of all parents for a merge) is carried over with the parent's blame.", runC03)
	register("C28", "Property simulation with path facts: at every call of Apply and ApplyMerge each diff and each version handed over is known not to be binary; "+
		"binary cases store a binary marker or the blame git computes; Apply and ApplyMerge refuse binary input. The texts and commits of the lines git blame printed are stored "+
		"as printed: through no function that changes texts, and from the same line.", runC28)
}

// procSim holds the findings of the simulations of the result producers, tagged with the property they belong to.
type procSim struct {
	sims   []*Sim
	names  []string
	counts map[string]map[string]int
	fail   string
}

var procCache = map[*Prog]*procSim{}

func (c *Ctx) useProc(prop string) {
	ps := procCache[c.p]
	if ps == nil {
		ps = &procSim{counts: map[string]map[string]int{}}
		procCache[c.p] = ps
		simProducers(c.p, ps)
	}
	if ps.fail != "" {
		c.ViolateAt("producers", "?", nil, "%s", ps.fail)
	}
	for i, s := range ps.sims {
		c.MergeTagged(ps.names[i], s, prop)
	}
	for r, n := range ps.counts[prop] {
		c.Count(r, n)
		c.Min(r, 1)
	}
}

// MergeTagged merges the findings whose key starts with "prop|".
func (c *Ctx) MergeTagged(name string, s *Sim, prop string) {
	c.sims++
	c.states += s.States
	c.steps += s.Steps
	for f := range s.Inlined {
		c.Saw(f)
	}
	for k, v := range s.viol {
		if strings.HasPrefix(k, prop+"|") {
			c.ViolateAt(name+": "+k[len(prop)+1:], c.p.Pos(v.Pos), v.Trace, "%s", v.Msg)
		}
	}
	if s.Over {
		c.ViolateAt(name+": undecided", c.p.Pos(s.root.fn.Pos()), nil, "undecided: more than %d abstract states", s.States)
	}
	if s.RecHit != "" {
		c.ViolateAt(name+": undecided recursion", c.p.Pos(s.root.fn.Pos()), nil, "undecided: recursion of %s is deeper than the analysis follows", s.RecHit)
	}
}

func isBlameMap(t types.Type) bool {
	m, ok := types.Unalias(t).Underlying().(*types.Map)
	return ok && isNamed(m.Elem(), mp(blamePkg)+".Blame")
}

func isRepoMap(t types.Type) bool {
	m, ok := types.Unalias(t).Underlying().(*types.Map)
	return ok && isBlameMap(m.Elem())
}

func mapType(e *Event) types.Type {
	switch i := e.Ins.(type) {
	case *ssa.MapUpdate:
		return i.Map.Type()
	case *ssa.Lookup:
		return i.X.Type()
	case ssa.CallInstruction:
		return i.Common().Args[0].Type()
	}
	return types.Typ[types.Invalid]
}

// producers finds the functions that compute the result of one commit: from a commit and from merge parts.
func producers(p *Prog) (regular, merge []*ssa.Function) {
	for _, f := range p.Fns {
		if fnPkgPath(f) != mp(processPkg) || f.Signature.Results().Len() == 0 || !isNamed(f.Signature.Results().At(0).Type(), mp(processPkg)+".Result") {
			continue
		}
		for _, q := range f.Params {
			if isNamed(q.Type(), mp(parserPkg)+".Commit") {
				regular = append(regular, f)
				break
			}
			if isPartsMap(q.Type()) {
				merge = append(merge, f)
				break
			}
		}
	}
	return
}

func producerInline(p *Prog) func(x *X, f *ssa.Function, call ssa.CallInstruction) bool {
	return func(x *X, f *ssa.Function, call ssa.CallInstruction) bool {
		switch fnPkgPath(f) {
		case mp(processPkg):
			if r := outermost(f).Signature.Recv(); r != nil && isNamed(r.Type(), mp(processPkg)+".Timing") {
				return false
			}
			return true
		case mp(repoPkg):
			return true
		case mp(blamePkg):
			switch f.Name() {
			case "Parse", "Apply", "ApplyMerge":
				return f.Signature.Recv() != nil
			}
			return f.Name() != "String" && f.Name() != "Eq"
		}
		return false
	}
}

func simProducers(p *Prog, ps *procSim) {
	reg, mer := producers(p)
	if len(reg) == 0 || len(mer) == 0 {
		ps.fail = "no functions were found that compute the result of a regular commit and of a merge"
		return
	}
	for _, f := range reg {
		s := simRegular(p, f, ps)
		ps.sims = append(ps.sims, s)
		ps.names = append(ps.names, fnName(f))
	}
	for _, f := range mer {
		s := simMerge(p, f, ps)
		ps.sims = append(ps.sims, s)
		ps.names = append(ps.names, fnName(f))
	}
}

func (ps *procSim) count(prop, rule string, n int) {
	m := ps.counts[prop]
	if m == nil {
		m = map[string]int{}
		ps.counts[prop] = m
	}
	m[rule] += n
}

func paramIdx(f *ssa.Function, pred func(t types.Type) bool) int {
	for i, q := range f.Params {
		if pred(q.Type()) {
			return i
		}
	}
	return -1
}

func isString(t types.Type) bool {
	b, ok := types.Unalias(t).Underlying().(*types.Basic)
	return ok && b.Kind() == types.String
}

// isParse: t is the diff parsed from the patch bytes item.Diff.
func isParse(t *Term) (item *Term, ok bool) {
	if t.Op == "call" && t.S == mp(blamePkg)+".Parse" && len(t.A) == 1 && t.A[0].Op == "f" && t.A[0].S == "Diff" {
		return t.A[0].A[0], true
	}
	return nil, false
}

// repoFile: t is the blame of a file looked up in the state of a commit: returns commit and path terms.
func repoFile(t *Term) (commit, path *Term, ok bool) {
	if t.Op == "mval" && t.A[0].Op == "lk" && isRepoLookup(t.A[0]) {
		return t.A[0].A[1], nil, true
	}
	if t.Op != "lk" || t.A[0].Op != "lk" || !isRepoLookup(t.A[0]) {
		return nil, nil, false
	}
	return t.A[0].A[1], t.A[1], true
}

func isRepoLookup(t *Term) bool {
	lk, ok := t.V.(*ssa.Lookup)
	return ok && isRepoMap(lk.X.Type())
}

// setAll narrows the set of maps that received every item of an iteration.
func setAll(x *X, key string, cur string) {
	all := x.Get(key)
	if all == "" || all == "*" {
		if cur == "" {
			cur = "-"
		}
		x.Set(key, cur)
		return
	}
	keep := []string{}
	in := map[string]bool{}
	for _, k := range strings.Split(cur, "\x00") {
		in[k] = true
	}
	for _, k := range strings.Split(all, "\x00") {
		if in[k] && k != "-" {
			keep = append(keep, k)
		}
	}
	if len(keep) == 0 {
		x.Set(key, "-")
		return
	}
	x.Set(key, strings.Join(keep, "\x00"))
}

func addTo(x *X, key, v string) {
	cur := x.Get(key)
	for _, k := range strings.Split(cur, "\x00") {
		if k == v {
			return
		}
	}
	if cur == "" {
		x.Set(key, v)
	} else {
		a := append(strings.Split(cur, "\x00"), v)
		sortStrings(a)
		x.Set(key, strings.Join(a, "\x00"))
	}
}

func hasIn(x *X, key, v string) bool {
	for _, k := range strings.Split(x.Get(key), "\x00") {
		if k == v {
			return true
		}
	}
	return false
}

func sortStrings(a []string) {
	for i := 1; i < len(a); i++ {
		for j := i; j > 0 && a[j] < a[j-1]; j-- {
			a[j], a[j-1] = a[j-1], a[j]
		}
	}
}

func applyName(n string) string {
	switch n {
	case mp(blamePkg) + ".Apply":
		return "Apply"
	case mp(blamePkg) + ".ApplyMerge":
		return "ApplyMerge"
	}
	return ""
}

func simRegular(p *Prog, fn *ssa.Function, ps *procSim) *Sim {
	ci := paramIdx(fn, func(t types.Type) bool { return isNamed(t, mp(parserPkg)+".Commit") })
	loops, applies, carries, stores := map[ssa.Instruction]bool{}, map[ssa.Instruction]bool{}, map[ssa.Instruction]bool{}, map[ssa.Instruction]bool{}
	r := &Rule{Name: "regular", NoLoads: true, Inline: producerInline(p)}
	s := NewSim(p, r)
	commit := s.ParamTerm(ci)
	hash := s.ts.Field(commit, "Hash")
	parents := s.ts.Field(commit, "Parents")
	isState := func(x *X, e *Event) bool {
		return e.Map.Op == "lk" && isRepoLookup(e.Map) && e.Map.A[1] == hash || hasIn(x, "state", e.Map.key)
	}
	inDiff := func(x *X, t *Term) (which string) {
		t0 := t
		if t0.Op == "f" && (t0.S == "Path" || t0.S == "PathPrev") {
			if _, ok := isParse(t0.A[0]); ok {
				return t0.S
			}
		}
		return ""
	}
	endItem := func(x *X, e *Event) {
		if x.Get("item") == "" {
			return
		}
		setAll(x, "all", x.Get("cur"))
		// C03: a file that exists after the change must be stored in the state of the commit
		switch {
		case x.Get("deleted") == "1":
			if x.Get("st") == "1" {
				x.Violate("C03|deleted file kept", e.Pos(), "a file deleted by the commit is stored in the state of the commit")
			}
		case x.Get("st") != "1":
			x.Set("C03lost", "1")
		case x.Get("cur") != "" && x.Get("same") != "1":
			x.Violate("C03|blame differs", e.Pos(), "the blame stored for later commits is not the one in the result of the commit")
		}
		for _, k := range []string{"item", "cur", "st", "deleted", "same", "vst", "vres", "gitblame", "pbin", "pnil"} {
			x.Set(k, "")
		}
	}
	r.OnEvent = func(x *X, e *Event) {
		switch e.Kind {
		case EvBranch:
			if x.Get("item") != "" && e.Cond.Op == "empty" && inDiff(x, e.Cond.A[0]) == "Path" && e.Taken {
				x.Set("deleted", "1")
			}
			if x.Get("item") != "" {
				switch e.Cond.Op {
				case "f":
					if e.Cond.S == "IsBinary" && e.Taken {
						if _, _, ok := repoFile(e.Cond.A[0]); ok {
							x.Set("pbin", "1")
						}
					}
				case "isnil":
					if _, _, ok := repoFile(e.Cond.A[0]); ok && e.Taken {
						x.Set("pnil", "1")
					}
				case "has":
					if !e.Taken && isBlameMapTerm(e.Cond.A[0]) {
						x.Set("pnil", "1")
					}
				}
			}
		case EvIter:
			if e.IKind == "slice" || e.IKind == "part" || e.IKind == "back" {
				if e.Coll.Op == "f" && e.Coll.S == "Changes" && e.Coll.A[0] == commit {
					loops[e.Ins] = true
					endItem(x, e)
					if e.IKind != "slice" {
						x.Violate("C02|partial loop", e.Pos(), "the loop over the changes of a commit does not start at the first one and advance by one")
					}
					if e.Taken {
						x.Set("item", "1")
						if x.Get("all") == "" {
							x.Set("all", "*")
						}
					} else {
						x.Set("changesDone", "1")
						if x.Get("all") == "" {
							x.Set("all", "*")
						}
					}
				}
			}
			if e.IKind == "map" && e.Coll.Op == "lk" && isRepoLookup(e.Coll) {
				par := e.Coll.A[1]
				if !(par.Op == "el" && par.A[0] == parents && par.A[1].IsConst() && par.A[1].S == "0") {
					return
				}
				carries[e.Ins] = true
				if x.Get("carry") == "held" {
					x.Set("C03carry", "1")
				}
				if e.Taken {
					x.Set("carry", "held")
				} else {
					x.Set("carry", "")
					x.Set("carried", "1")
				}
			}
		case EvMapSet:
			if isRepoMap(mapType(e)) {
				if e.Key == hash {
					if x.Get("stateInit") == "1" && (x.Get("changesDone") == "1" || x.Get("item") == "1" || x.Get("carried") == "1") {
						x.Violate("C03|state replaced", e.Pos(), "the state of the commit is replaced after files were stored in it")
					}
					if v, ok := x.IsEmpty(e.Val); !(ok && v) && e.Val.Op != "mmap" {
						x.Violate("C03|state not fresh", e.Pos(), "the state of the commit is not a new map")
					}
					x.Set("stateInit", "1")
					addTo(x, "state", e.Val.key)
				} else {
					x.Violate("C03|other commit replaced", e.Pos(), "the state of another commit is replaced")
				}
				return
			}
			if !isBlameMap(mapType(e)) {
				return
			}
			st := isState(x, e)
			if e.Map.Op == "lk" && isRepoLookup(e.Map) && !st {
				x.Violate("C03|other commit changed", e.Pos(), "a file is stored in the state of another commit")
				return
			}
			if v, ok := x.IsNil(e.Val); ok && v {
				x.Violate("C02|nil entry", e.Pos(), "a file is recorded without a blame")
			}
			if st {
				stores[e.Ins] = true
			}
			switch w := inDiff(x, e.Key); {
			case w != "" && x.Get("item") == "1":
				empty, known := x.IsEmpty(x.ts.Field(e.Key.A[0], "Path"))
				okKey := w == "Path" && !(known && empty) || w == "PathPrev" && known && empty
				if !okKey {
					x.Violate("C02|wrong path", e.Pos(), "a changed file is recorded under its "+map[string]string{"Path": "new path although it was deleted", "PathPrev": "old path although it still exists"}[w])
				}
				if w == "Path" && !known && !st {
					x.Violate("C02|path not checked", e.Pos(), "a file is recorded under its new path without checking that it was not deleted")
				}
				if st {
					if w == "Path" {
						x.Set("st", "1")
						x.Set("vst", e.Val.key)
					} else {
						x.Set("st", "1")
					}
				} else {
					addTo(x, "cur", e.Map.key)
					x.Set("vres", e.Val.key)
				}
				if x.Get("vst") != "" && x.Get("vst") == x.Get("vres") {
					x.Set("same", "1")
				}
				// C28
				blameValue(x, e, hash, "C28|")
			case x.Get("carry") == "held" && st:
				c, pth, ok := repoFile(e.Val)
				okv := ok && c.Canon() == e.Key.A[0].A[1].Canon() && (pth == nil || pth.Canon() == e.Key.Canon())
				if e.Key.Op != "mkey" || !ok || !okv {
					x.Violate("C03|carry value", e.Pos(), "an untouched file is not stored with the blame it has in the first parent")
				}
				x.Set("carry", "done")
			case st && x.Get("item") != "1":
				x.Violate("C03|foreign store", e.Pos(), "a file is stored in the state of the commit that is neither one of its changes nor an untouched file of its first parent")
			}
		case EvMapDel:
			if isBlameMap(mapType(e)) && (isState(x, e) || e.Map.Op == "lk") {
				x.Violate("C03|file dropped", e.Pos(), "a file is deleted from the recorded state of a commit")
			}
			if isRepoMap(mapType(e)) {
				x.Violate("C03|state dropped", e.Pos(), "the state of a commit is deleted while a commit is processed")
			}
		case EvLookup:
			if x.Get("carry") == "held" && e.Key.Op == "mkey" && isBlameMap(mapType(e)) {
				x.Set("lkown", e.Res.key)
			}
		case EvCall:
			if e.Name == mp("ripsrc/gitblame2")+".Run" && x.Get("item") == "1" {
				x.Set("gitblame", "1")
				pa := e.Args[2]
				if !(e.Args[1] == hash && pa.Op == "f" && pa.S == "Path" && e.Args[0].Op == "f" && e.Args[0].S == "RepoDir") {
					x.Violate("C28|git blame arguments", e.Pos(), "git blame is not asked for the new path of the file at the commit being processed")
				} else if _, ok := isParse(pa.A[0]); !ok {
					x.Violate("C28|git blame arguments", e.Pos(), "git blame is not asked for the new path of the file at the commit being processed")
				}
			}
			switch applyName(e.Name) {
			case "Apply":
				applies[e.Ins] = true
				checkApplyArgs(x, e, hash)
				if e.Args[0].Op == "zero" && x.Get("pnil") != "1" {
					prev := x.ts.Field(e.Args[1], "PathPrev")
					v, ok := x.IsEmpty(prev)
					w, ok2 := x.IsEmpty(parents)
					if !(ok && v || ok2 && w) {
						x.Violate("C04|previous version ignored", e.Pos(), "a patch is applied to an empty file although the parent may have the file")
					}
				}
			case "ApplyMerge":
				x.Violate("C28|merge apply", e.Pos(), "a regular commit is processed as a merge")
			}
		case EvReturn:
			if nn, known := errKnown(x, e); known && nn {
				return
			}
			files := x.ts.Field(e.Args[0], "Files")
			if x.Get("item") == "1" || x.Get("changesDone") != "1" {
				x.Violate("C02|changes skipped", e.Pos(), "the function can finish without error before all changes of the commit were processed")
			}
			if a := x.Get("all"); a != "*" && !hasIn(x, "all", files.key) {
				x.Violate("C02|change lost", e.Pos(), "a change of the commit can be left out of its result")
			}
			if x.Get("stateInit") != "1" {
				x.Violate("C03|state not created", e.Pos(), "the state of the commit is not created")
			}
			if x.Get("C03lost") == "1" {
				x.Violate("C03|change not stored", e.Pos(), "a file that exists after the commit is not stored in the state of the commit")
			}
			if x.Get("C03carry") == "1" {
				x.Violate("C03|untouched file lost", e.Pos(), "an untouched file of the first parent can be left out of the state of the commit")
			}
			if x.Get("carried") != "1" {
				if v, ok := x.IsEmpty(parents); !(ok && v) {
					x.Violate("C03|no carry-over", e.Pos(), "the function can finish without carrying over the untouched files of the first parent")
				}
			}
		}
		// exemption of the carry-over: the path is already in the result or in the state
		if e.Kind == EvBranch && x.Get("carry") == "held" {
			t, pol := e.Cond, e.Taken
			switch t.Op {
			case "has":
				if pol && t.A[1].Op == "mkey" && ownMap(x, t.A[0], isState, hash) {
					x.Set("carry", "done")
				}
			case "isnil":
				if !pol && t.A[0].Op == "lk" && t.A[0].A[1].Op == "mkey" && ownMap(x, t.A[0].A[0], isState, hash) {
					x.Set("carry", "done")
				}
			}
		}
	}
	s.Run(fn, nil)
	ps.count("C02", "loops over the changes of a regular commit", len(loops))
	ps.count("C03", "carry-over loops of a regular commit", len(carries))
	ps.count("C03", "stores into the state of a regular commit", len(stores))
	ps.count("C28", "Apply calls for regular commits", len(applies))
	return s
}

// ownMap: m is a map filled in this activation or the state of the commit being processed.
func ownMap(x *X, m *Term, isState func(x *X, e *Event) bool, hash *Term) bool {
	if m.Op == "lk" && isRepoLookup(m) {
		return m.A[1] == hash
	}
	return m.Op == "mmap"
}

// checkApplyArgs: Apply may only see a text diff and a text version (or no previous version at all).
func checkApplyArgs(x *X, e *Event, hash *Term) {
	parent, diff := e.Args[0], e.Args[1]
	if v, ok := x.KnownCond(x.ts.Field(diff, "IsBinary")); !(ok && !v) {
		x.Violate("C28|diff not checked", e.Pos(), "a patch is applied line by line although the diff is not known to be text")
	}
	if parent.Op != "zero" {
		if v, ok := x.KnownCond(x.ts.Field(parent, "IsBinary")); !(ok && !v) {
			x.Violate("C28|parent not checked", e.Pos(), "a patch is applied line by line although the previous version is not known to be text")
		}
	}
	if e.Args[2] != hash {
		x.Violate("C04|commit", e.Pos(), "a patch is applied under another commit than the one being processed")
	}
	// the previous version is the one of the first parent under the old path
	if _, ok := isParse(diff); !ok {
		x.Violate("C04|diff", e.Pos(), "the diff applied is not the one parsed from the change of the commit")
		return
	}
	prev := x.ts.Field(diff, "PathPrev")
	if parent.Op == "zero" {
		x.Set("noparent", "1")
		return
	}
	pt := parent
	if pt.Op == "ld" {
		pt = pt.A[0]
	}
	c, pth, ok := repoFile(pt)
	if !ok || pth == nil || pth.Canon() != prev.Canon() && !(x.samePath(pth, diff)) {
		x.Violate("C04|previous version", e.Pos(), "the version a patch is applied to is not the parent's file under its old path")
	} else if !(c.Op == "el" && c.A[1].IsConst() && c.A[1].S == "0") {
		x.Violate("C04|previous commit", e.Pos(), "the version a patch is applied to is not the one of the first parent")
	}
}

func (x *X) samePath(p *Term, diff *Term) bool {
	if p != x.ts.Field(diff, "Path") {
		return false
	}
	v, ok := x.ts.Known(x.ts.mk("eq", "", "", p, x.ts.Field(diff, "PathPrev")), x.St.facts)
	return ok && v
}

// blameValue: the blame recorded for a change matches the kind of the change.
func blameValue(x *X, e *Event, hash *Term, tag string) {
	diff := e.Key.A[0]
	bin, known := x.KnownCond(x.ts.Field(diff, "IsBinary"))
	if known && bin {
		v := e.Val
		isB := x.Load(x.ts.mk("fa", "IsBinary", "", v), types.Typ[types.Bool])
		cm := x.Load(x.ts.mk("fa", "Commit", "", v), types.Typ[types.String])
		if v.Op != "new" || !(isB.IsConst() && isB.S == "true") {
			x.Violate(tag+"binary marker", e.Pos(), "a binary change is not recorded as a binary version")
		} else if cm != hash {
			x.Violate(tag+"binary commit", e.Pos(), "a binary change is recorded under another commit")
		}
		return
	}
	if e.Key.S != "Path" {
		return
	}
	// a patch on top of a binary version
	if x.Get("pbin") == "1" && x.Get("gitblame") == "" {
		if _, _, ok := repoFile(e.Val); !ok {
			x.Violate(tag+"binary to text", e.Pos(), "a file that was binary before a text patch is not blamed by git itself")
		}
	}
	if x.Get("pbin") == "1" && x.Get("gitblame") == "" {
		if v, ok := x.IsEmpty(x.ts.Field(diff, "Hunks")); !(ok && v) {
			x.Violate(tag+"binary kept", e.Pos(), "a file that was binary before keeps its binary version although the change has a text patch")
		}
	}
}

func isBlameMapTerm(t *Term) bool { return t.Op == "lk" && isRepoLookup(t) }

func runC02(c *Ctx) {
	c.useProc("C02")
	c02Files(c)
	c01Grammar(c)
}

func runC03(c *Ctx) { c.useProc("C03") }

func runC28(c *Ctx) {
	c.useProc("C28")
	c28Refuse(c)
	c.blameTexts()
}

// c28Refuse: Apply and ApplyMerge panic before they use a binary version or a binary diff.
func c28Refuse(c *Ctx) {
	for _, name := range []string{"Apply", "ApplyMerge"} {
		fn := c.Must(blamePkg, name)
		if fn == nil {
			continue
		}
		n := 0
		r := &Rule{Name: name, NoLoads: true, Inline: func(x *X, f *ssa.Function, call ssa.CallInstruction) bool {
			return fnPkgPath(f) == mp(blamePkg) && applyName(f.RelString(nil)) == ""
		}}
		name := name
		r.OnEvent = func(x *X, e *Event) {
			if name == "Apply" {
				if e.Kind == EvReturn {
					n++
					for i, what := range []string{"version", "diff"} {
						if v, ok := x.KnownCond(x.ts.Field(x.ParamTerm(i), "IsBinary")); !(ok && !v) {
							x.Violate("binary "+what+" accepted", e.Pos(), "Apply can finish for a binary "+what)
						}
					}
				}
				return
			}
			switch e.Kind {
			case EvIter:
				for i := 0; i < 2; i++ {
					if e.Coll == x.ParamTerm(i) {
						k := "it" + itoa(i)
						if x.Get(k) == "open" {
							x.Set("part"+itoa(i), "1")
						}
						if e.Taken {
							x.Set(k, "open")
						} else {
							if x.Get("part"+itoa(i)) != "1" {
								x.Set("chk"+itoa(i), "1")
							}
							x.Set(k, "")
							x.Set("part"+itoa(i), "")
						}
					}
				}
			case EvBranch:
				if e.Cond.Op == "f" && e.Cond.S == "IsBinary" {
					for i := 0; i < 2; i++ {
						b := e.Cond.A[0]
						if b.Op == "ld" {
							b = b.A[0]
						}
						if (b.Op == "el" || b.Op == "ia") && b.A[0] == x.ParamTerm(i) {
							x.Set("it"+itoa(i), "ok")
							if e.Taken {
								x.Set("bin", "1")
							}
						}
					}
				}
			case EvCall:
				if applyName(fnNameOf(e)) == "Apply" {
					// Apply itself refuses each version and diff
					n++
					x.Set("chk0", "1")
					x.Set("chk1", "1")
					return
				}
			case EvReturn:
				n++
				if x.Get("bin") == "1" {
					x.Violate("binary merge accepted", e.Pos(), "ApplyMerge can finish although a version or diff is binary")
				}
				if x.Get("chk0") != "1" {
					if v, ok := x.IsEmpty(x.ParamTerm(0)); !(ok && v) {
						x.Violate("binary merge not checked", e.Pos(), "ApplyMerge can finish without checking that no version is binary")
					}
				}
			}
		}
		c.Sim(name, fn, r, nil)
		c.Count("exits of "+name, n)
		c.Min("exits of "+name, 1)
	}
}

func fnNameOf(e *Event) string { return e.Name }
