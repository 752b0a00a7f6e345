package main

import (
	"fmt"
	"slices"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C18", "Every recursive function and worklist loop over the commit graph that the library can get to is followed for an arbitrary step (any commit, any state of the captured variables). It goes on only from commits that were not in the visited set and are in it now (so it ends, after one step per commit); what it lists or counts, it does only for such commits; it goes on to every parent, from the first to the last, except where its definition ends it: the reachability walk nowhere, the behind walk at commits of the branch, the branch walk at parents the default branch reaches (for a merged branch: reaches without the head of the branch), all others nowhere. Each of these sets is itself the complete result of such a walk from the right commit.", runC18)
}

// walkRoots: the functions whose walks are judged, and the recursive functions and loops they contain.
func (c *Ctx) walkRoots() (roots []*ssa.Function, rec map[*ssa.Function]map[*ssa.Function]bool, wl map[*ssa.Function]*worklist) {
	p := c.p
	var api []*ssa.Function
	for _, fn := range p.Fns {
		if fnPkgPath(fn) == mp("ripsrc") && fn.Parent() == nil && fn.Object() != nil && fn.Object().Exported() {
			api = append(api, fn)
		}
	}
	lib := p.reachFns(api)
	c.Count("functions reachable from the library's entry points", len(lib))
	rec, wl = p.walkers(lib)
	seen := map[*ssa.Function]bool{}
	var add func(f *ssa.Function, depth int)
	add = func(f *ssa.Function, depth int) {
		for f.Parent() != nil {
			f = f.Parent()
		}
		// a walk with a callback is judged in its callers
		cb := false
		for _, prm := range f.Params {
			if isFuncType(prm.Type()) {
				cb = true
			}
		}
		if (cb || rec[f] != nil) && depth < 4 {
			for g := range lib {
				for _, h := range p.callsOf(g) {
					if h == f && (rec[f] == nil || !rec[f][g]) {
						add(g, depth+1)
					}
				}
			}
			return
		}
		if !seen[f] {
			seen[f] = true
			roots = append(roots, f)
		}
	}
	for f := range rec {
		add(f, 0)
	}
	for f := range wl {
		add(f, 0)
	}
	for _, n := range sortedKeys(walkRootNames) {
		if f := c.Must(branchesPkg, n); f != nil && !seen[f] {
			seen[f] = true
			roots = append(roots, f)
		}
	}
	sort.Slice(roots, func(i, j int) bool { return roots[i].Pos() < roots[j].Pos() })
	return
}

func runC18(c *Ctx) {
	roots, rec, wl := c.walkRoots()
	entered := map[*ssa.Function]bool{}
	specified := func(f *ssa.Function) bool {
		return fnPkgPath(f) == mp(branchesPkg) && walkRootNames[f.Name()]
	}
	sort.SliceStable(roots, func(i, j int) bool { return specified(roots[i]) && !specified(roots[j]) })
	for _, r := range roots {
		if !specified(r) {
			// a part of a walk that was judged with its context
			in := true
			for f := range rec {
				if outermost(f) == r && !entered[f] {
					in = false
				}
			}
			for _, f := range c.p.callsOf(r) {
				if rec[f] != nil && !entered[f] {
					in = false
				}
			}
			if wl[r] != nil && !entered[r] {
				in = false
			}
			if in {
				continue
			}
		}
		ws := c.simWalks(r, rec, wl, nil)
		for f := range ws.walks {
			entered[f] = true
			for g := range rec[f] {
				entered[g] = true
			}
		}
		c.judgeWalks(ws)
	}
	for f := range rec {
		if !entered[f] {
			c.Violate("walk "+fnName(f), f.Pos(), "the recursive function %s over the commit graph is not reached by the analysis", fnName(f))
		}
	}
	for f := range wl {
		if !entered[f] {
			c.Violate("walk "+fnName(f), f.Pos(), "the worklist loop over the commit graph in %s is not reached by the analysis", fnName(f))
		}
	}
	c.Min("walks judged", 5)
	c.Min("steps to a neighbour", 5)
}

var walkRootNames = map[string]bool{"newReachableFromHead": true, "behindBranch": true, "branchCommits": true, "dedupLinearFromHead": true}

// desc: what the set m is: a parameter, or what the complete walk that fills it has reached.
func (ws *walkSet) desc(m string) string {
	t := ws.maps[m]
	if t != nil && t.Op == "param" {
		return t.Canon()
	}
	var out []string
	for _, w := range ws.walks {
		n, all := 0, 0
		for _, tk := range w.takes {
			if ws.again(w, tk) {
				continue
			}
			all++
			for _, s := range tk.set {
				if s == m {
					n++
				}
			}
		}
		if n == 0 && ws.setAhead(w, m) {
			n = all
		}
		if n == 0 {
			continue
		}
		if n != all {
			out = append(out, "some commits")
			continue
		}
		var st []string
		for _, s := range w.starts {
			st = append(st, s.Canon())
		}
		sort.Strings(st)
		d := "from " + strings.Join(st, ",")
		for _, s := range ws.stops(w) {
			d += "; " + s
		}
		out = append(out, d)
	}
	sort.Strings(out)
	if len(out) == 0 && t != nil {
		return t.Canon()
	}
	return strings.Join(out, " | ")
}

// setAhead: m is set for a commit when it is put on the list.
func (ws *walkSet) setAhead(w *walk, m string) bool {
	if len(w.pushes) == 0 {
		return false
	}
	for _, p := range w.pushes {
		if !slices.Contains(p.set, m) {
			return false
		}
	}
	for s := range w.starts {
		if !ws.preset[m][s] {
			return false
		}
	}
	return true
}

// again: the commit had been visited before.
func (ws *walkSet) again(w *walk, t take) bool {
	if t.done {
		return false
	}
	for m := range w.visited {
		if t.why == "in "+m {
			return true
		}
	}
	return false
}

// stops: where the walk does not go on, with the conditions on the parameters of the root.
func (ws *walkSet) stops(w *walk) (out []string) {
	seen := map[string]bool{}
	add := func(s, cond string) {
		if cond != "" {
			s += " if " + cond
		}
		if !seen[s] {
			seen[s] = true
			out = append(out, s)
		}
	}
	for _, t := range w.takes {
		if t.done || ws.again(w, t) || t.why == "no entry" {
			continue
		}
		if strings.HasPrefix(t.why, "in ") {
			add("in {"+ws.desc(t.why[3:])+"}", t.cond)
		} else {
			add(t.why, t.cond)
		}
	}
	for _, s := range w.skips {
		if !w.visited[s.m] {
			add("in {"+ws.desc(s.m)+"}", s.cond)
		}
	}
	sort.Strings(out)
	return
}

func (c *Ctx) judgeWalks(ws *walkSet) {
	rn := fnName(ws.root)
	short := rn[strings.LastIndexByte(rn, '.')+1:]
	var ord []*ssa.Function
	for f := range ws.walks {
		ord = append(ord, f)
	}
	sort.Slice(ord, func(i, j int) bool { return ord[i].Pos() < ord[j].Pos() })
	for _, f := range ord {
		w := ws.walks[f]
		c.Count("walks judged", 1)
		n := fnName(f)
		full := 0
		for _, t := range w.takes {
			c.Count("takes of a commit", 1)
			if t.done {
				full++
			}
			if ws.again(w, t) && len(t.eff) > 0 {
				c.Violate("twice in "+n, t.pos, "in %s a commit that was visited before is listed or counted again", n)
			}
			if len(t.eff) > 0 && w.late && !t.checked && !ws.again(w, t) {
				c.Violate("unchecked in "+n, t.pos, "in %s a commit is listed or counted that may have been visited before", n)
			}
		}
		if full == 0 {
			c.Violate("no neighbours in "+n, w.pos, "the walk %s never follows the parents of a commit to the last", n)
		}
		for _, s := range ws.stops(w) {
			dbg("STOP", rn, n, s)
			if !ws.stopAllowed(short, s) {
				c.Violate("stop in "+n+" of "+rn, w.pos, "the walk %s of %s does not go on at commits %s, which is not part of its definition", n, rn, s)
			}
		}
		// where the definition ends the walk, it must end
		listed := false
		for _, t := range w.takes {
			for _, e := range t.eff {
				listed = listed || e == "list" || strings.HasPrefix(e, "count")
			}
		}
		for _, t := range w.takes {
			if !t.done && len(t.eff) == 0 {
				continue
			}
			have := func(want string) bool {
				for _, m := range t.not {
					if m == want || "in {"+ws.desc(m)+"}" == want {
						return true
					}
				}
				return false
			}
			bad := ""
			switch {
			case short == "behindBranch" && listed && !have("in {from param:2}"):
				bad = "commits of the branch"
			case short == "branchCommits" && !listed && ws.isSkipSet(w) && !have("is param:3"):
				bad = "the head of the merged branch"
			}
			if bad != "" {
				c.Violate("no stop in "+n+" of "+rn, t.pos, "the walk %s of %s may go on beyond %s", n, rn, bad)
			}
		}
		if short == "branchCommits" && listed {
			for _, p := range w.pushes {
				ok := false
				for _, m := range p.not {
					ok = ok || ws.stopAllowed(short, "in {"+ws.desc(m)+"} if "+p.cond)
				}
				if !ok {
					c.Violate("no stop in "+n+" of "+rn, p.pos, "the walk %s of %s may go on to a commit that the default branch reaches", n, rn)
				}
			}
		}
		for _, g := range w.graphs {
			if g.Op != "f" || g.S != "Parents" {
				c.Violate("graph of "+n, w.pos, "the walk %s follows %s, not the parents", n, g.Canon())
			}
		}
	}
}

func (ws *walkSet) stopAllowed(root, s string) bool {
	base, cond := s, ""
	if i := strings.LastIndex(s, " if "); i >= 0 {
		base, cond = s[:i], s[i+4:]
	}
	merged := func(v bool) bool {
		for _, k := range strings.Split(cond, ",") {
			if k == fmt.Sprintf("param:2[param:3]=%v", v) {
				return true
			}
		}
		return false
	}
	switch root {
	case "behindBranch":
		return base == "in {from param:2}"
	case "branchCommits":
		return base == "in {param:2}" && merged(false) || base == "is param:3" && merged(true) || merged(true) && strings.HasPrefix(base, "in {from param:1; is param:3")
	}
	return false
}

// isSkipSet: the commits this walk reaches are where another one does not go on to.
func (ws *walkSet) isSkipSet(w *walk) bool {
	for _, o := range ws.walks {
		for _, s := range o.skips {
			for _, t := range w.takes {
				for _, m := range t.set {
					if o != w && m == s.m {
						return true
					}
				}
			}
		}
	}
	return false
}

func sortedKeys(m map[string]bool) (out []string) {
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return
}
