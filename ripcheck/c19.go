package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C19", "Every path from the exported functions of branches2 that make records to each point where one is sent, the workers' bodies included. At every such point the fields of the record are compared as symbolic values: the ahead count is the length of the listed commits and the first commit their first element; both lists are the two results of one branchCommits call for the graph, the default head, the set reachable from it, and this head; the merged flag agrees with the membership of the head in that set on this path; a merge commit is an element of the head's children that is known to be in that set, and is left empty for a merged record only after all children were found not to be; the behind count is a result of behindBranch for this head on exactly the paths where the record is not merged and has branch points; the id is a hash of the name and the first branch point, set exactly with the name. The walks of branchCommits and behindBranch are judged for an arbitrary step: every commit that is visited is listed, or counted by one, exactly once, from the right head. The default record carries the default head, and one root commit of git's list.", runC19)
}

// branchRoots: the exported functions that make and send branch records.
func (c *Ctx) branchRoots() (out []*ssa.Function) {
	bt := mp(branchesPkg) + ".Branch"
	for _, fn := range c.p.Fns {
		if fnPkgPath(fn) != mp(branchesPkg) || !exportedFn(fn) {
			continue
		}
		sends, recvs := false, itemRecv(c.p, fn, bt)
		for g := range c.p.reachFns([]*ssa.Function{fn}) {
			for _, b := range g.Blocks {
				for _, ins := range b.Instrs {
					if s, ok := ins.(*ssa.Send); ok && itemType(s.X.Type()) == bt {
						sends = true
					}
				}
			}
		}
		if sends && !recvs {
			out = append(out, fn)
		}
	}
	return
}

// walkFns: the functions that contain walks over the commit graph.
func (p *Prog) walkFns(root *ssa.Function) map[*ssa.Function]bool {
	reach := p.reachFns([]*ssa.Function{root})
	rec, wl := p.walkers(reach)
	out := map[*ssa.Function]bool{}
	for f := range rec {
		out[outermost(f)] = true
	}
	for f := range wl {
		out[outermost(f)] = true
	}
	anchor := map[*ssa.Function]bool{}
	for f := range reach {
		if fnPkgPath(f) == mp(branchesPkg) && walkRootNames[f.Name()] && f.Parent() == nil {
			anchor[f] = true
			out[f] = true
		}
	}
	// what gets to a walk otherwise than through one of these
	for ch := true; ch; {
		ch = false
		for f := range reach {
			o := outermost(f)
			if out[o] || o == outermost(root) {
				continue
			}
			for _, g := range p.callsOf(f) {
				g = outermost(g)
				if out[g] && !anchor[g] && !p.transitively(o, isChanOp) {
					out[o] = true
					ch = true
				}
			}
		}
	}
	return out
}

func runC19(c *Ctx) {
	roots := c.branchRoots()
	for _, r := range roots {
		c.branchRecords(r, c.p.walkFns(r))
	}
	if len(roots) == 0 {
		c.Violate("no records", 0, "no exported function of %s makes branch records", branchesPkg)
	}
	c.Min("records sent", 2)
	for _, n := range []string{"branchCommits", "behindBranch", "newReachableFromHead"} {
		if f := c.Must(branchesPkg, n); f != nil {
			c.listWalk(f, n, map[string]string{"branchCommits": "param:3", "behindBranch": "param:3", "newReachableFromHead": "param:1"}[n])
		}
	}
	c.Min("list walks", 3)
}

// listWalk: the walk whose commits make up the result of f starts at its head and leaves none out.
func (c *Ctx) listWalk(f *ssa.Function, name, start string) {
	rec, wl := c.p.walkers(c.p.reachFns([]*ssa.Function{f}))
	ws := c.simWalks(f, rec, wl, nil)
	counts := name == "behindBranch"
	found := false
	var fs []*ssa.Function
	for g := range ws.walks {
		fs = append(fs, g)
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].Pos() < fs[j].Pos() })
	for _, g := range fs {
		w := ws.walks[g]
		main := false
		for _, t := range w.takes {
			for _, e := range t.eff {
				if counts && strings.HasPrefix(e, "count") || !counts && e == "list" {
					main = true
				}
			}
			if name == "newReachableFromHead" && len(t.set) > 0 {
				main = true
			}
		}
		for _, t := range w.pushes {
			if name == "newReachableFromHead" && len(t.set) > 0 {
				main = true
			}
		}
		if !main {
			continue
		}
		found = true
		c.Count("list walks", 1)
		if _, ok := w.starts[start]; !ok || len(w.starts) != 1 {
			var st []string
			for s := range w.starts {
				st = append(st, s)
			}
			sort.Strings(st)
			c.Violate("start of "+fnName(g), w.pos, "the walk %s starts at %s, not at the head it is called for", fnName(g), strings.Join(st, ", "))
		}
		for _, t := range w.takes {
			if ws.again(w, t) {
				continue
			}
			n, bad := 0, false
			for _, e := range t.eff {
				switch {
				case counts && e == "count1", !counts && e == "list":
					n++
				case strings.HasPrefix(e, "count") && e != "count0":
					bad = true
				}
			}
			c.Count("visits judged", 1)
			if name == "newReachableFromHead" {
				continue
			}
			// where the walk ends nothing is counted
			stop := counts && !t.done && t.why != "no entry"
			if stop && n > 0 {
				c.Violate("counted in "+fnName(g), t.pos, "in %s a commit is counted where the walk ends", fnName(g))
			}
			if !stop && (n != 1 || bad) {
				c.Violate("not counted in "+fnName(g), t.pos, "in %s a commit that is visited for the first time is not listed or counted exactly once", fnName(g))
			}
		}
	}
	if counts {
		for _, pos := range ws.outside {
			c.Violate("count of "+fnName(f)+" changed", pos, "the number of commits that %s returns is changed outside the walk", fnName(f))
		}
	}
	if !found {
		c.Violate("walk of "+fnName(f), f.Pos(), "no walk was recognised that makes up the result of %s", fnName(f))
	}
}

func zeroTerm(t *Term) bool {
	if t.IsConst() {
		return t.S == "" || t.S == "0" || t.S == "false" || t.S == "nil" || t.S == `""`
	}
	for t.Op == "f" {
		t = t.A[0]
	}
	return t.Op == "zero"
}

func callTo(t *Term, name string) bool {
	return t.Op == "call" && strings.HasSuffix(t.S, name)
}

// defaultHead: the commit (or name) of the default branch as git reported it.
func defaultField(t *Term, field string) bool {
	if t.Op != "f" || t.S != field || t.A[0].Op != "x" || t.A[0].S != "0" {
		return false
	}
	k := t.A[0].A[0]
	return k.Op == "call" && strings.HasPrefix(k.S, mp("ripsrc/branchmeta")+".GetDefault")
}

// reachDefault: the set of commits reachable from the default head.
func reachDefault(t *Term) bool {
	return callTo(t, branchesPkg+".newReachableFromHead") && len(t.A) == 2 && defaultField(t.A[1], "Commit")
}

func isLk(t *Term) bool { return t.Op == "lk" || t.Op == "has" }

// leaves: what a string was put together from.
func (x *X) leaves(t *Term, out map[string]bool) {
	if s := x.St.auto["lv:"+t.key]; s != "" {
		for _, l := range strings.Split(s, "\x00") {
			if l != "" {
				out[l] = true
			}
		}
		return
	}
	switch t.Op {
	case "const":
		return
	case "b":
		for _, a := range t.A {
			x.leaves(a, out)
		}
		return
	case "call":
		for _, a := range t.A {
			x.leaves(a, out)
		}
		return
	}
	if t.IsConst() {
		return
	}
	if t.Op == "sl" && t.A[0].Op == "new" {
		if v := x.Load(t.A[0], nil); v != nil && v.Op == "call" {
			x.leaves(v, out)
			return
		}
	}
	if el, ok := x.Elems(t); ok {
		for _, e := range el {
			x.leaves(e, out)
		}
		return
	}
	if t.Op == "new" {
		return
	}
	out[t.Canon()] = true
}

func (x *X) trackLeaves(e *Event) {
	all := map[string]bool{}
	for _, a := range e.Args {
		x.leaves(a, all)
	}
	if len(all) == 0 {
		return
	}
	s := "\x00" + strings.Join(sortedKeys(all), "\x00")
	if e.Res != nil {
		x.Set("lv:"+e.Res.key, s)
	}
	for _, a := range e.Args {
		if a.Op == "new" || a.Op == "call" && !strings.HasPrefix(a.S, modPath) && (strings.Contains(e.Name, ").Write") || strings.HasPrefix(e.Name, "io.Write") || strings.HasPrefix(e.Name, "fmt.Fprint")) {
			x.Set("lv:"+a.key, s)
		}
	}
}

func (c *Ctx) branchRecords(root *ssa.Function, opaque map[*ssa.Function]bool) {
	r := &Rule{Name: "records"}
	r.Inline = func(x *X, f *ssa.Function, call ssa.CallInstruction) bool {
		return fnPkgPath(f) == mp(branchesPkg) && !opaque[f]
	}
	lists := map[*ssa.Function]bool{}
	r.OnEvent = func(x *X, e *Event) {
		switch e.Kind {
		case EvGo:
			x.Fork(e, x.St.auto.clone())
		case EvCall:
			if !strings.HasPrefix(e.Name, "(ripsrc") && !strings.Contains(e.Name, "logger") && !strings.Contains(e.Name, "sync.") {
				x.trackLeaves(e)
			}
			if callTo(&Term{Op: "call", S: e.Name}, "os/exec.Command") {
				el, ok := x.Elems(e.Args[1])
				if ok {
					a := ""
					for _, q := range el {
						a += x.renderStr(q) + " "
					}
					x.Set("git", a)
				}
			}
		case EvIter:
			if e.Coll.Op == "lk" && e.Coll.A[0].Op == "f" && e.Coll.A[0].S == "Children" {
				if e.Elem != nil {
					el := x.ts.mk("el", "", "", e.Coll, e.Elem)
					for k := range x.St.auto {
						if strings.HasPrefix(k, "mem:") && strings.HasSuffix(k, "|"+el.key) {
							x.Set(k, "")
						}
					}
				}
				if e.Taken {
					x.Set("ch", "part")
				} else if x.Get("ch.on") == "" {
					x.Set("ch", "all:"+e.Coll.A[1].key)
				}
				if e.IKind != "slice" && e.IKind != "back" {
					x.Set("ch.on", "1")
				}
			}
		case EvBranch:
			if isLk(e.Cond) && reachDefault(e.Cond.A[0]) {
				if e.Cond.A[1].Op == "el" && e.Taken {
					x.Set("ch.on", "1")
				}
				x.Set("mem:"+e.Cond.A[0].key+"|"+e.Cond.A[1].key, map[bool]string{true: "t", false: "f"}[e.Taken])
			}
		case EvRecv:
			x.Set("ch", "")
			x.Set("ch.on", "")
			for k := range x.St.auto {
				if strings.HasPrefix(k, "lv:") || strings.HasPrefix(k, "mem:") {
					x.Set(k, "")
				}
			}
		case EvSend:
			if itemType(storeType(e)) == mp(branchesPkg)+".Branch" {
				c.judgeRecord(x, e, lists, opaque)
			}
		}
	}
	c.Sim("branch records of "+fnName(root), root, r, nil)
	for f := range lists {
		var h string
		for i, prm := range f.Params {
			if types.TypeString(prm.Type().Underlying(), nil) == "string" {
				h = "param:" + itoa(i)
			}
		}
		c.listWalk(f, "", h)
	}
}

func (c *Ctx) judgeRecord(x *X, e *Event, lists, opaque map[*ssa.Function]bool) {
	c.Count("records sent", 1)
	st := structOf(e.Ins.(*ssa.Send).X.Type())
	F := map[string]*Term{}
	for i := 0; i < st.NumFields(); i++ {
		n := st.Field(i).Name()
		F[n] = x.ts.Field(e.Val, n)
	}
	for _, n := range []string{"BranchID", "Name", "IsPullRequest", "HeadSHA", "IsDefault", "IsMerged", "MergeCommit", "BranchedFromCommits", "Commits", "BehindDefaultCount", "AheadDefaultCount", "FirstCommit"} {
		if F[n] == nil {
			c.Violate("field "+n, e.Pos(), "the record has no field %s", n)
			return
		}
	}
	bad := func(f, msg string) { x.Violate(f+" of "+fnName(x.Fn()), e.Pos(), msg) }
	zero := func(n string) bool {
		t := F[n]
		if zeroTerm(t) {
			return true
		}
		if v, ok := x.KnownCond(t); ok && !v {
			return true
		}
		v, ok := x.IsEmpty(t)
		return ok && v
	}
	// truth of a boolean field
	truth := func(t *Term) (bool, bool) {
		if zeroTerm(t) {
			return false, true
		}
		if t.IsConst() {
			return t.S == "true", true
		}
		return x.KnownCond(t)
	}
	head := F["HeadSHA"]
	id := map[string]bool{}
	x.leaves(F["BranchID"], id)
	idIs := func(want ...string) bool {
		if zero("BranchID") || len(id) != len(want) {
			return false
		}
		for _, w := range want {
			if !id[w] {
				return false
			}
		}
		return true
	}
	if defaultField(head, "Commit") {
		if v, ok := truth(F["IsDefault"]); !ok || !v {
			bad("default flag", "the record of the default branch is not marked as default")
		}
		if !defaultField(F["Name"], "Name") {
			bad("default name", "the record of the default branch does not carry its name")
		}
		if !idIs(F["Name"].Canon()) {
			bad("default id", "the id of the default branch is not derived from its name alone")
		}
		for _, n := range []string{"IsPullRequest", "IsMerged", "MergeCommit", "BranchedFromCommits", "BehindDefaultCount", "AheadDefaultCount"} {
			if !zero(n) {
				bad("default "+n, "the record of the default branch has "+n+" set")
			}
		}
		k := F["Commits"]
		if k.Op == "call" && len(k.A) > 0 && k.A[len(k.A)-1] == head {
			for f := range opaque {
				if f.RelString(nil) == k.S {
					lists[f] = true
				}
			}
		} else {
			bad("default commits", "the commits of the default branch are not those of its head")
		}
		f := F["FirstCommit"]
		switch {
		case f.Op == "el" && callTo(f.A[0], "strings.Fields") && strings.Contains(x.Get("git"), "rev-list ") && strings.Contains(x.Get("git"), "--max-parents=0 ") && strings.Contains(x.Get("git"), "HEAD "):
		case f.Op == "el" && f.A[1].IsConst() && f.A[1].S == "0" && f.A[0] == k:
		default:
			bad("default first commit", "the first commit of the default branch is not one root commit of its history")
		}
		return
	}
	if v, ok := truth(F["IsDefault"]); !ok || v {
		bad("default flag", "a record that is not the default branch's is marked as default")
	}
	// commits and branch points: the two results of one call
	k, bf := F["Commits"], F["BranchedFromCommits"]
	ok := k.Op == "x" && k.S == "0" && bf.Op == "x" && bf.S == "1" && k.A[0] == bf.A[0] && callTo(k.A[0], branchesPkg+".branchCommits")
	var gr *Term
	if ok {
		a := k.A[0].A
		gr = a[0]
		ok = len(a) == 4 && defaultField(a[1], "Commit") && reachDefault(a[2]) && a[3] == head && a[2].A[0] == gr
	}
	if !ok {
		bad("commits", "the commits and branch points of the record are not those of its head")
		return
	}
	if l := F["AheadDefaultCount"]; !(l.Op == "len" && l.A[0] == k) {
		bad("ahead count", "the ahead count is not the number of the commits listed")
	}
	if f := F["FirstCommit"]; !(f.Op == "el" && f.A[0] == k && f.A[1].IsConst() && f.A[1].S == "0") {
		bad("first commit", "the first commit is not the first of the commits listed")
	}
	// merged
	inDefault, known := false, false
	if v := x.Get("mem:" + k.A[0].A[2].key + "|" + head.key); v != "" {
		inDefault, known = v == "t", true
	}
	m := F["IsMerged"]
	merged, mk := truth(m)
	switch {
	case isLk(m) && m.A[0] == k.A[0].A[2] && m.A[1] == head:
		// the flag is the membership
		if !known {
			inDefault, known = false, false
		}
	case !mk || !known || merged != inDefault:
		bad("merged", "the merged flag does not tell whether the head is reachable from the default head")
	}
	mc := F["MergeCommit"]
	switch {
	case zero("MergeCommit"):
		if (inDefault || !known) && x.Get("ch") != "all:"+head.key {
			bad("merge commit missing", "the merge commit of a merged record is left empty although not all children of the head were considered")
		}
	case !known || !inDefault:
		bad("merge commit", "a merge commit is set on a path where the head is not known to be merged")
	default:
		ok := mc.Op == "el" && mc.A[0].Op == "lk" && mc.A[0].A[1] == head && mc.A[0].A[0].Op == "f" && mc.A[0].A[0].S == "Children" && mc.A[0].A[0].A[0] == gr
		if !ok {
			bad("merge commit", "the merge commit is not a child of the head")
			break
		}
		if x.Get("mem:"+k.A[0].A[2].key+"|"+mc.key) != "t" {
			bad("merge commit", "the merge commit is not known to be reachable from the default head")
		}
	}
	// behind
	bfEmpty, bfKnown := x.IsEmpty(bf)
	b := F["BehindDefaultCount"]
	switch {
	case zero("BehindDefaultCount"):
		if !(known && inDefault) && !(bfKnown && bfEmpty) {
			bad("behind count missing", "a record that is not merged and has a branch point has no behind count")
		}
	case callTo(b, branchesPkg+".behindBranch") && len(b.A) == 4 && b.A[0] == gr && b.A[2] == head && defaultField(b.A[3], "Commit"):
		if !known || inDefault {
			bad("behind count of merged", "the behind count is set on a path where the record may be merged")
		}
		if !bfKnown || bfEmpty {
			bad("behind count without branch point", "the behind count is set on a path where there may be no branch point")
		}
	default:
		bad("behind count", "the behind count is not that of this head and the default head")
	}
	// name, id and kind
	var item *Term
	if head.Op == "f" {
		item = head.A[0]
	}
	var nm *Term
	if item != nil {
		nm = x.ts.Field(item, "Name")
	}
	pr, pk := truth(F["IsPullRequest"])
	if !pk && F["IsPullRequest"].Op == "empty" && nm != nil && F["IsPullRequest"].A[0] == nm {
		if v, o := x.IsEmpty(nm); o {
			pr, pk = v, true
		}
	}
	if !pk {
		bad("kind", "it is not decided on this path whether the record is a pull request")
		return
	}
	var nmEmpty, nmKnown bool
	if nm != nil {
		nmEmpty, nmKnown = x.IsEmpty(nm)
	}
	if !nmKnown || nmEmpty != pr {
		bad("kind", "a record is marked as a pull request without having no branch name, or the other way round")
	}
	if pr {
		if !zero("Name") && F["Name"] != nm {
			bad("name", "a pull request has a name")
		}
		if !zero("BranchID") {
			bad("id", "a pull request has a branch id")
		}
		return
	}
	if F["Name"] != nm {
		bad("name", "the name of the record is not the one of the branch whose head it has")
	}
	if nm == nil {
		return
	}
	first := x.ts.mk("el", "", "", bf, x.ts.IntConst(0)).Canon()
	if !(bfKnown && !bfEmpty && idIs(nm.Canon(), first) || bfKnown && bfEmpty && idIs(nm.Canon())) {
		dbg("ID", bfKnown, bfEmpty, sortedKeys(id))
		bad("id", "the id of the branch is not derived from its name and its first branch point")
	}
}
