package main

import (
	"fmt"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func isDiffPtrSlice(t types.Type) bool {
	s, ok := types.Unalias(t).Underlying().(*types.Slice)
	if !ok {
		return false
	}
	p, ok := types.Unalias(s.Elem()).Underlying().(*types.Pointer)
	return ok && isNamed(p.Elem(), mp(blamePkg)+".Diff")
}

func isDiffsMap(t types.Type) bool {
	m, ok := types.Unalias(t).Underlying().(*types.Map)
	return ok && isDiffPtrSlice(m.Elem())
}

func isOrdMap(t types.Type) bool {
	m, ok := types.Unalias(t).Underlying().(*types.Map)
	if !ok || !isString(m.Key()) {
		return false
	}
	b, ok := types.Unalias(m.Elem()).Underlying().(*types.Basic)
	return ok && b.Kind() == types.Int
}

// simMerge follows every change of a merge into the table of diffs, every entry of that table into the result
// and every file of the parents into the state of the merge.
func simMerge(p *Prog, fn *ssa.Function, ps *procSim) *Sim {
	pi := paramIdx(fn, isPartsMap)
	hi := paramIdx(fn, isString)
	partLoops, fileLoops, carries, applies, pairs := map[ssa.Instruction]bool{}, map[ssa.Instruction]bool{}, map[ssa.Instruction]bool{}, map[ssa.Instruction]bool{}, map[ssa.Instruction]bool{}
	r := &Rule{Name: "merge", NoLoads: true, Inline: producerInline(p)}
	s := NewSim(p, r)
	parts := s.ParamTerm(pi)
	var hash *Term
	if hi >= 0 {
		hash = s.ParamTerm(hi)
	} else {
		hash = s.ts.mk("none", "", "")
	}
	isParents := func(t *Term) bool {
		if t.Op == "f" && t.S == "Parents" {
			b := t.A[0]
			return b.Op == "mval" && b.A[0] == parts || b.Op == "lk" && b.A[0] == parts
		}
		return t.Op == "lk" && t.A[0].Op == "f" && t.A[0].S == "Parents" && t.A[1] == hash
	}
	// parIdx: t is parents[i]; returns i
	parIdx := func(t *Term) *Term {
		if t.Op == "el" && isParents(t.A[0]) {
			return t.A[1]
		}
		return nil
	}
	isState := func(x *X, m *Term) bool {
		return m.Op == "lk" && isRepoLookup(m) && m.A[1] == hash || hasIn(x, "state", m.key)
	}
	// diffs[k] for the file being processed
	isRow := func(x *X, t *Term) bool {
		return t.Op == "lk" && isDiffsMapTerm(t.A[0]) && x.Get("k") != "" && t.A[1].key == x.Get("k") ||
			t.Op == "mval" && isDiffsMapTerm(t.A[0]) && x.Get("k") == x.ts.mk("mkey", "", t.ID, t.A[0]).key
	}
	rowEl := func(x *X, t *Term) *Term {
		if t.Op == "ld" {
			t = t.A[0]
		}
		if t.Op == "el" && isRow(x, t.A[0]) {
			return t.A[1]
		}
		return nil
	}
	lost := func(x *X, prop, what string) {
		if x.Get("lost:"+prop) == "" {
			x.Set("lost:"+prop, what)
		}
	}
	perFile := []string{"k", "cur", "st", "vst", "vres", "same", "path", "gone", "bin", "chkD", "chkP", "itD", "itP", "itN", "badD", "badP", "par0", "dif0", "keyed", "copied", "one", "nilAt", "created", "rowLoop"}
	endFile := func(x *X, e *Event) {
		if x.Get("k") == "" {
			return
		}
		if x.Get("copied") != "1" {
			switch {
			case x.Get("cur") != "":
				setAll(x, "all", x.Get("cur"))
			case x.Get("one") == "1":
			default:
				setAll(x, "all", "")
			}
			if x.Get("del") != "1" && x.Get("st") != "1" {
				lost(x, "C03", "a file of a merge that exists after it is not stored in the state of the merge")
			}
			if x.Get("st") == "1" && x.Get("cur") != "" && x.Get("same") != "1" {
				x.Violate("C03|blame differs", e.Pos(), "the blame of a merged file stored for later commits is not the one in the result of the merge")
			}
		}
		for _, k := range perFile {
			x.Set(k, "")
		}
		x.Set("del", "")
	}
	endItem := func(x *X) {
		if x.Get("item") == "1" {
			lost(x, "C02", "a change of a merge is not entered into the table of changed files")
		}
		x.Set("item", "")
		x.Set("rows", "")
	}
	endCarry := func(x *X) {
		if x.Get("f") != "" {
			lost(x, "C03", "a file of a parent that the merge does not change is not stored in the state of the merge")
		}
		x.Set("f", "")
	}
	r.OnEvent = func(x *X, e *Event) {
		switch e.Kind {
		case EvIter:
			c := e.Coll
			switch {
			case c == parts && e.IKind == "map":
				partLoops[e.Ins] = true
				endItem(x)
				if x.Get("part") == "open" {
					lost(x, "C02", "the changes of a part of a merge are not processed")
				}
				x.Set("part", "")
				if e.Taken {
					x.Set("part", "open")
				} else {
					x.Set("partsDone", "1")
				}
			case c.Op == "f" && c.S == "Changes":
				b := c.A[0]
				if !(b.Op == "mval" && b.A[0] == parts || b.Op == "lk" && b.A[0] == parts) {
					return
				}
				endItem(x)
				if e.IKind != "slice" && e.IKind != "back" {
					x.Violate("C02|partial loop", e.Pos(), "the loop over the changes of a merge part does not visit each of them")
				}
				if e.Taken {
					x.Set("item", "1")
				} else {
					x.Set("part", "done")
				}
			case isParents(c) && (e.IKind == "slice" || e.IKind == "back"):
				if e.Taken && x.Get("pl") == "" {
					x.Set("pl", "*")
				}
				if x.Get("pp") == "1" {
					x.Set("pl", "0")
				}
				x.Set("pp", "")
				if x.Get("ord") == "1" {
					x.Set("ordbad", "1")
				}
				x.Set("ord", "")
				if e.Taken {
					x.Set("pp", "1")
					x.Set("ord", "1")
				} else {
					if x.Get("pl") == "" && x.Get("ords") == "" {
						x.Set("noPar", "1") // no parents at all
					}
					if x.Get("pl") != "0" {
						x.Set("carried", "1")
					}
					if x.Get("ordbad") != "1" {
						x.Set("ordOK", "1")
					}
					x.Set("pl", "")
					x.Set("ordbad", "")
				}
			case e.IKind == "map" && c.Op == "lk" && isRepoLookup(c) && parIdx(c.A[1]) != nil:
				carries[e.Ins] = true
				endCarry(x)
				if e.Taken {
					x.Set("f", e.Elem.key)
				} else {
					x.Set("pp", "done")
				}
			case e.IKind == "map" && hasIn(x, "fsets", c.key):
				carries[e.Ins] = true
				endCarry(x)
				if e.Taken {
					x.Set("f", e.Elem.key)
				} else {
					addTo(x, "fdone", c.key)
				}
			case e.IKind == "map" && (isDiffsMapTerm(c) || hasIn(x, "ksets", c.key)):
				fileLoops[e.Ins] = true
				endFile(x, e)
				if e.Taken {
					x.Set("k", e.Elem.key)
					if x.Get("all") == "" {
						x.Set("all", "*")
					}
				} else {
					if x.Get("partsDone") != "1" {
						x.Violate("C02|files before parts", e.Pos(), "files of a merge are processed before all its parts were read")
					}
					addTo(x, "kdone", c.key)
				}
			case (e.IKind == "slice" || e.IKind == "back") && isRow(x, c):
				if id := fmt.Sprintf("%p", e.Ins); x.Get("rowLoop") != id {
					// another loop: what an earlier one, left early, has not finished does not count
					for _, k := range []string{"itD", "itP", "itN", "badD", "badP", "nPar", "nDif", "nilAt", "created"} {
						x.Set(k, "")
					}
					x.Set("rowLoop", id)
				}
				endRow(x, e)
				if e.Taken {
					for _, k := range []string{"itD", "itP", "itN"} {
						x.Set(k, "open")
					}
					x.Set("nPar", "")
					x.Set("nDif", "")
				} else {
					if x.Get("badD") != "1" {
						x.Set("chkD", "1")
					}
					if x.Get("badP") != "1" {
						x.Set("chkP", "1")
					}
					x.Set("badD", "")
					x.Set("badP", "")
					x.Set("rowLoop", "")
				}
			case (e.IKind == "slice" || e.IKind == "back") && e.Taken && isStringSliceTerm(c) && x.Get("kslice") == "1":
				// sorted copy of the file names
				fileLoops[e.Ins] = true
				endFile(x, e)
				x.Set("k", x.ts.mk("el", "", "", c, e.Elem).key)
				if x.Get("all") == "" {
					x.Set("all", "*")
				}
			case (e.IKind == "slice" || e.IKind == "back") && !e.Taken && isStringSliceTerm(c) && x.Get("kslice") == "1":
				endFile(x, e)
				addTo(x, "kdone", "slice")
			}
		case EvBranch:
			t := e.Cond
			if x.Get("k") != "" {
				switch t.Op {
				case "isnil":
					if i := rowEl(x, t.A[0]); i != nil {
						x.Set("nilAt", map[bool]string{true: "1", false: "0"}[e.Taken]+i.key)
					}
					if i := rowEl(x, t.A[0]); i != nil && e.Taken {
						x.Set("itD", "ok")
						x.Set("itP", "ok")
					}
				case "empty":
					if f := t.A[0]; f.Op == "f" && rowEl(x, f.A[0]) != nil {
						if f.S == "Path" && !e.Taken {
							x.Set("path", "1")
						}
						if f.S == "Path" && e.Taken {
							x.Set("gone", "1") // the changes of one entry are all deletions or none is
						}
						if f.S == "PathPrev" && e.Taken {
							x.Set("itP", "ok")
							x.Set("created", "1")
						}
					}
				case "f":
					if t.S == "IsBinary" {
						b := t.A[0]
						if rowEl(x, b) != nil {
							x.Set("itD", "ok")
							if e.Taken {
								x.Set("bin", "1")
							}
						} else if c, pth, ok := repoFile(b); ok && pth != nil {
							if e.Taken {
								x.Set("bin", "1")
							}
							if j := parIdx(c); j != nil && pth.Op == "f" && pth.S == "PathPrev" && rowEl(x, pth.A[0]) == j {
								x.Set("itP", "ok")
							}
						}
					}
				case "call":
					if t.S == "strings.HasPrefix" && t.A[0].key == x.Get("k") {
						x.Set("pfx", map[bool]string{true: "1", false: "0"}[e.Taken])
					}
				}
			}
			if f := x.Get("f"); f != "" {
				switch t.Op {
				case "has":
					if e.Taken && t.A[1].key == f && (isState(x, t.A[0]) || t.A[0].Op == "mmap" && hasIn(x, "fsets", t.A[0].key)) {
						x.Set("f", "")
					}
				case "isnil":
					if !e.Taken && t.A[0].Op == "lk" && t.A[0].A[1].key == f && isState(x, t.A[0].A[0]) {
						x.Set("f", "")
					}
				case "lk":
					if e.Taken && t.A[1].key == f && hasIn(x, "fsets", t.A[0].key) {
						x.Set("f", "")
					}
				}
			}
		case EvStore:
			// diffs[key][parent] = &diff
			if e.Addr.Op == "ia" && storeType(e) != nil && isNamed(storeType(e), mp(blamePkg)+".Diff") {
				if _, isPtr := types.Unalias(storeType(e)).Underlying().(*types.Pointer); isPtr {
					mergeTable(x, e, e.Addr.A[0], e.Addr.A[1], parts, isParents)
				}
			}
		case EvMapSet:
			mt := mapType(e)
			switch {
			case isOrdMap(mt):
				if j := parIdx(e.Key); j != nil {
					if e.Val == j {
						x.Set("ord", "")
						addTo(x, "ords", e.Map.key)
					} else {
						x.Violate("C05|parent index", e.Pos(), "the position recorded for a parent is not its position in the list of parents")
					}
				}
			case isDiffsMap(mt):
				if x.Get("item") == "1" || x.Get("item") == "stored" {
					addTo(x, "rows", e.Val.key+"\x01"+e.Key.key)
				}
			case isRepoMap(mt):
				if e.Key == hash {
					if x.Get("stateInit") == "1" && x.Get("partsDone") == "1" {
						x.Violate("C03|state replaced", e.Pos(), "the state of the merge is replaced after files were stored in it")
					}
					if v, ok := x.IsEmpty(e.Val); !(ok && v) && e.Val.Op != "mmap" {
						x.Violate("C03|state not fresh", e.Pos(), "the state of the merge is not a new map")
					}
					x.Set("stateInit", "1")
					addTo(x, "state", e.Val.key)
				} else {
					x.Violate("C03|other commit replaced", e.Pos(), "the state of another commit is replaced")
				}
			case isBlameMap(mt):
				if v, ok := x.IsNil(e.Val); ok && v {
					x.Violate("C02|nil entry", e.Pos(), "a file is recorded without a blame")
				}
				st := isState(x, e.Map)
				if !st && isBlameMapTerm(e.Map) {
					x.Violate("C03|other commit changed", e.Pos(), "a file is stored in the state of another commit")
					return
				}
				switch {
				case x.Get("f") != "" && st:
					if e.Key.key != x.Get("f") {
						x.Violate("C03|carry path", e.Pos(), "an untouched file is stored under another path")
					}
					if e.Val.Op == "new" || e.Val.IsConst() {
						x.Violate("C03|carry value", e.Pos(), "an untouched file is not stored with the blame of a parent")
					}
					x.Set("f", "")
				case x.Get("k") != "":
					mergeFile(x, e, st, hash, isParents, rowEl, parIdx)
				default:
					dbg("foreign", e.Key, e.Map, x.St.auto)
					x.Violate("C03|foreign store", e.Pos(), "a file is recorded for a merge that is neither one of its changes nor a file of a parent")
				}
			default:
				if x.Get("k") != "" && e.Key.key == x.Get("k") {
					addTo(x, "ksets", e.Map.key)
					x.Set("copied", "1")
				}
				if x.Get("f") != "" && e.Key.key == x.Get("f") {
					addTo(x, "fsets", e.Map.key)
					x.Set("f", "")
				}
			}
		case EvAppend:
			if x.Get("k") == "" {
				if x.Get("f") != "" {
					if el, ok := x.Elems(e.Args[1]); ok && len(el) == 1 && el[0].key == x.Get("f") {
						x.Set("f", "")
						x.Set("fslice", "1")
					}
				}
				return
			}
			el, ok := x.Elems(e.Args[1])
			if !ok || len(el) != 1 {
				return
			}
			if el[0].key == x.Get("k") {
				x.Set("copied", "1")
				x.Set("kslice", "1")
				return
			}
			mergeArg(x, e, appendElem(e), el[0], pairs, rowEl, parIdx, hash)
		case EvLookup:
			if f := x.Get("f"); f != "" && isBlameMap(mapType(e)) && isBlameMapTerm(e.Map) && e.Key.key != f {
				x.Violate("C03|carry lookup", e.Pos(), "an untouched file is looked up under another path")
			}
		case EvMapDel:
			if isBlameMap(mapType(e)) && isBlameMapTerm(e.Map) {
				x.Violate("C03|file dropped", e.Pos(), "a file is deleted from the recorded state of a commit")
			}
			if isRepoMap(mapType(e)) {
				x.Violate("C03|state dropped", e.Pos(), "the state of a commit is deleted while a merge is processed")
			}
			if isDiffsMap(mapType(e)) {
				lost(x, "C02", "changed files are removed from the table of changed files")
			}
		case EvCall:
			switch applyName(e.Name) {
			case "Apply":
				x.Violate("C05|single apply", e.Pos(), "a patch of a merge is applied outside ApplyMerge")
			case "ApplyMerge":
				applies[e.Ins] = true
				if x.Get("bin") == "1" {
					x.Violate("C28|binary merge", e.Pos(), "a merge is applied line by line although a version or diff is binary")
				}
				if x.Get("chkD") != "1" {
					dbg("chkD", x.St.auto)
					x.Violate("C28|merge diffs not checked", e.Pos(), "a merge is applied line by line although not all its diffs are known to be text")
				}
				if x.Get("chkP") != "1" {
					x.Violate("C28|merge parents not checked", e.Pos(), "a merge is applied line by line although not all versions in its parents are known to be text")
				}
				if len(e.Args) > 2 && e.Args[2] != hash {
					x.Violate("C05|commit", e.Pos(), "a merge is applied under another commit than the one being processed")
				}
			}
		case EvReturn:
			if nn, known := errKnown(x, e); known && nn {
				return
			}
			if x.Get("partsDone") != "1" {
				x.Violate("C02|parts skipped", e.Pos(), "the function can finish without error before all parts of the merge were read")
			}
			files := x.ts.Field(e.Args[0], "Files")
			done := x.Get("kdone")
			if x.Get("k") != "" || done == "" {
				x.Violate("C02|files skipped", e.Pos(), "the function can finish without error before all changed files of a merge were processed")
			}
			for _, k := range strings.Split(x.Get("ksets"), "\x00") {
				if k != "" && !hasIn(x, "kdone", k) {
					x.Violate("C02|files skipped", e.Pos(), "the function can finish without error before all changed files of a merge were processed")
				}
			}
			if x.Get("kslice") == "1" && !hasIn(x, "kdone", "slice") {
				x.Violate("C02|files skipped", e.Pos(), "the function can finish without error before all changed files of a merge were processed")
			}
			if a := x.Get("all"); a != "" && a != "*" && !hasIn(x, "all", files.key) {
				x.Violate("C02|merge file lost", e.Pos(), "a file changed in a merge can be left out of its result although no parent has the same version")
			}
			if w := x.Get("lost:C02"); w != "" {
				x.Violate("C02|"+w, e.Pos(), w)
			}
			if w := x.Get("lost:C03"); w != "" {
				x.Violate("C03|"+w, e.Pos(), w)
			}
			if x.Get("stateInit") != "1" {
				x.Violate("C03|state not created", e.Pos(), "the state of the merge is not created")
			}
			if x.Get("carried") != "1" || x.Get("f") != "" {
				x.Violate("C03|no carry-over", e.Pos(), "the function can finish without carrying over the untouched files of every parent")
			}
			for _, k := range strings.Split(x.Get("fsets"), "\x00") {
				if k != "" && !hasIn(x, "fdone", k) {
					x.Violate("C03|no carry-over", e.Pos(), "the function can finish without carrying over the untouched files of every parent")
				}
			}
		}
	}
	s.Run(fn, nil)
	ps.count("C02", "loops over merge parts", len(partLoops))
	ps.count("C02", "loops over the changed files of a merge", len(fileLoops))
	ps.count("C03", "carry-over loops of a merge", len(carries))
	ps.count("C28", "ApplyMerge calls", len(applies))
	ps.count("C05", "versions and diffs handed to ApplyMerge", len(pairs))
	return s
}

func isDiffsMapTerm(t *Term) bool {
	return t.Op == "mmap" && t.V != nil && isDiffsMap(t.V.Type()) || t.V != nil && isDiffsMap(t.V.Type())
}

func isStringSliceTerm(t *Term) bool {
	if t.V == nil {
		return t.Op == "app"
	}
	s, ok := types.Unalias(t.V.Type()).Underlying().(*types.Slice)
	return ok && isString(s.Elem())
}

func appendElem(e *Event) types.Type {
	c, ok := e.Ins.(ssa.CallInstruction)
	if !ok {
		return types.Typ[types.Invalid]
	}
	if s, ok := types.Unalias(c.Common().Args[0].Type()).Underlying().(*types.Slice); ok {
		return s.Elem()
	}
	return types.Typ[types.Invalid]
}

// endRow closes one iteration over the diffs of a file.
func endRow(x *X, e *Event) {
	if x.Get("itD") == "open" {
		x.Set("badD", "1")
	}
	if x.Get("itP") == "open" {
		x.Set("badP", "1")
	}
	if n := x.Get("nPar"); n == "2" {
		x.Violate("C05|version repeated", e.Pos(), "more than one version is recorded for one parent of a merge")
	} else if n == "" && x.Get("itN") == "open" && x.Get("par0") == "open" {
		x.Violate("C05|version missing", e.Pos(), "no version is recorded for a parent of a merge")
	}
	if n := x.Get("nDif"); n == "2" {
		x.Violate("C05|diff repeated", e.Pos(), "more than one diff is recorded for one parent of a merge")
	} else if n == "" && x.Get("itN") == "open" && x.Get("dif0") == "open" {
		x.Violate("C05|diff missing", e.Pos(), "no diff is recorded for a parent of a merge")
	}
	// a loop that records versions (diffs) must do so in every iteration
	x.Set("par0", map[bool]string{true: "open"}[x.Get("nPar") != "" && e.Taken])
	x.Set("dif0", map[bool]string{true: "open"}[x.Get("nDif") != "" && e.Taken])
	for _, k := range []string{"itD", "itP", "itN", "nPar", "nDif", "nilAt", "created"} {
		x.Set(k, "")
	}
}

// mergeTable: the diff of a change is entered under its file and at the position of the parent it was compared with.
func mergeTable(x *X, e *Event, row, idx *Term, parts *Term, isParents func(*Term) bool) {
	if x.Get("item") != "1" && x.Get("item") != "stored" {
		return
	}
	v := x.Load(e.Val, types.Unalias(storeType(e)).Underlying().(*types.Pointer).Elem())
	item, ok := isParse(v)
	if !ok {
		x.Violate("C02|table value", e.Pos(), "the diff entered into the table of changed files is not the one parsed from the change")
		return
	}
	part := item
	for part.Op == "el" || part.Op == "ld" || part.Op == "f" && part.S == "Changes" || part.Op == "ia" {
		part = part.A[0]
	}
	var pk *Term
	switch {
	case part.Op == "mval" && part.A[0] == parts:
		pk = x.ts.mk("mkey", "", part.ID, part.A[0])
	case part.Op == "lk" && part.A[0] == parts:
		pk = part.A[1]
	default:
		x.Violate("C02|table value", e.Pos(), "the diff entered into the table of changed files does not come from a part of the merge")
		return
	}
	// key
	var key *Term
	if row.Op == "lk" && isDiffsMapTerm(row.A[0]) {
		key = row.A[1]
	}
	kk := ""
	if key != nil {
		kk = key.key
	} else {
		for _, r := range strings.Split(x.Get("rows"), "\x00") {
			if i := strings.Index(r, "\x01"); i >= 0 && r[:i] == row.key {
				kk = r[i+1:]
			}
		}
	}
	if kk == "" {
		lost(x, "C02", "the row a diff of a merge is entered into is not in the table of changed files")
		return
	}
	path, prev := x.ts.Field(v, "Path"), x.ts.Field(v, "PathPrev")
	emp, known := x.IsEmpty(path)
	okKey := false
	if kk == path.key {
		okKey = known && !emp
	} else if known && emp {
		for _, t := range x.ts.m {
			if t.key == kk && t.Op == "b" && t.S == "+" && t.A[1] == prev {
				if s, isS := t.A[0].Str(); isS && s != "" {
					okKey = true
				}
			}
		}
	}
	if !okKey {
		dbg("tablekey", kk, path, emp, known, key)
		x.Violate("C02|table key", e.Pos(), "a change of a merge is entered under another name than its new path (or marked old path when it was deleted)")
	}
	// position
	okIdx := x.Get("noPar") == "1"
	if idx.Op == "lk" && hasIn(x, "ords", idx.A[0].key) && idx.A[1] == pk {
		okIdx = x.Get("ordOK") == "1"
	}
	for _, f := range x.St.facts {
		if f.v && f.t.Op == "eq" {
			a, b := f.t.A[0], f.t.A[1]
			if b.Op == "el" {
				a, b = b, a
			}
			if a.Op == "el" && isParents(a.A[0]) && a.A[1] == idx && b == pk {
				okIdx = true
			}
		}
	}
	if !okIdx {
		x.Violate("C05|table position", e.Pos(), "a diff of a merge is not entered at the position of the parent it was compared with")
	}
	x.Set("item", "stored")
}

func lost(x *X, prop, what string) {
	if x.Get("lost:"+prop) == "" {
		x.Set("lost:"+prop, what)
	}
}

// mergeFile: an entry in the result or the state of a merge for the file being processed.
func mergeFile(x *X, e *Event, st bool, hash *Term, isParents func(*Term) bool, rowEl func(*X, *Term) *Term, parIdx func(*Term) *Term) {
	k := x.Get("k")
	isDel := false
	switch {
	case e.Key.key == k:
	case e.Key.Op == "sl" && e.Key.A[0].key == k && e.Key.A[1] != nil && e.Key.A[2] == nil:
		isDel = true
	case e.Key.Op == "call" && strings.HasPrefix(e.Key.S, "strings.TrimPrefix") && e.Key.A[0].key == k:
		isDel = true
	default:
		x.Violate("C02|merge path", e.Pos(), "a file of a merge is recorded under another path")
		return
	}
	if isDel {
		if st {
			x.Violate("C03|deleted file kept", e.Pos(), "a file deleted by a merge is stored in the state of the merge")
			return
		}
		if x.Get("path") == "1" && x.Get("pfx") != "1" && x.Get("gone") != "1" {
			x.Violate("C02|merge delete", e.Pos(), "a file is recorded as deleted although it exists after the merge")
		}
		x.Set("del", "1")
		addTo(x, "cur", e.Map.key)
		return
	}
	if (x.Get("path") != "1" || x.Get("gone") == "1") && x.Get("pfx") != "0" && x.Get("chkD") != "1" && x.Get("one") != "1" {
		// nothing shows that the file exists after the merge
		if c, _, ok := repoFile(e.Val); !ok || parIdx(c) == nil {
			x.Violate("C02|merge delete unchecked", e.Pos(), "a file of a merge is recorded without checking whether the merge deletes it")
		}
	}
	if st {
		x.Set("st", "1")
		x.Set("vst", e.Val.key)
		if c, pth, ok := repoFile(e.Val); ok && pth != nil {
			j := parIdx(c)
			okOne := false
			if j != nil && pth.key == k && x.Get("nilAt") == "1"+j.key {
				okOne = true
			}
			if !okOne {
				x.Violate("C03|taken from parent", e.Pos(), "a merged file is taken from a parent although the merge is not known to keep that parent's version")
			}
			x.Set("one", "1")
		}
	} else {
		addTo(x, "cur", e.Map.key)
		x.Set("vres", e.Val.key)
	}
	if x.Get("vst") != "" && x.Get("vst") == x.Get("vres") {
		x.Set("same", "1")
	}
	if _, _, ok := repoFile(e.Val); ok {
		return
	}
	isB := x.Load(x.ts.mk("fa", "IsBinary", "", e.Val), types.Typ[types.Bool])
	if isB.IsConst() && isB.S == "true" {
		cm := x.Load(x.ts.mk("fa", "Commit", "", e.Val), types.Typ[types.String])
		if cm != hash {
			x.Violate("C28|binary commit", e.Pos(), "a binary version made by a merge is recorded under another commit")
		}
		if x.Get("bin") != "1" {
			x.Violate("C28|binary marker", e.Pos(), "a merged file is recorded as binary although none of its versions is")
		}
	}
}

// mergeArg: an element of the list of versions or diffs handed to ApplyMerge.
func mergeArg(x *X, e *Event, t types.Type, v *Term, pairs map[ssa.Instruction]bool, rowEl func(*X, *Term) *Term, parIdx func(*Term) *Term, hash *Term) {
	if _, isPtr := types.Unalias(t).Underlying().(*types.Pointer); isPtr {
		return
	}
	k := x.Get("k")
	if x.Get("itN") == "" {
		return
	}
	inc := func(c string) {
		if x.Get(c) == "" {
			x.Set(c, "1")
		} else {
			x.Set(c, "2")
		}
	}
	switch {
	case isNamed(t, mp(blamePkg)+".Blame"):
		pairs[e.Ins] = true
		inc("nPar")
		if v.Op == "zero" || v.Op == "const" {
			// only for a file created relative to that parent
			ok := x.Get("created") == "1"
			if !ok {
				x.Violate("C05|version ignored", e.Pos(), "no version of a parent is used for a merged file although the file was not created relative to it")
			}
			return
		}
		b := v
		if b.Op == "ld" {
			b = b.A[0]
		}
		c, pth, ok := repoFile(b)
		var j *Term
		if ok {
			j = parIdx(c)
		}
		if !ok || j == nil || pth == nil {
			x.Violate("C05|version source", e.Pos(), "the version used for a parent of a merge is not looked up in the state of that parent")
			return
		}
		if pth.key == k {
			if x.Get("nilAt") != "1"+j.key {
				x.Violate("C05|version path", e.Pos(), "the version of a parent is looked up under the new path although the merge changed the file relative to it")
			}
			return
		}
		if !(pth.Op == "f" && pth.S == "PathPrev" && rowEl(x, pth.A[0]) == j) {
			x.Violate("C05|version path", e.Pos(), "the version of a parent is not looked up under the old path of the diff relative to that parent")
		}
	case isNamed(t, mp(blamePkg)+".Diff"):
		pairs[e.Ins] = true
		inc("nDif")
		if v.Op == "zero" || v.Op == "const" || v.Op == "ld" && v.A[0].Op == "new" {
			ok := strings.HasPrefix(x.Get("nilAt"), "1")
			if !ok {
				x.Violate("C05|diff ignored", e.Pos(), "an empty diff is used for a parent of a merge although there is one")
			}
			return
		}
		if rowEl(x, v) == nil {
			x.Violate("C05|diff source", e.Pos(), "the diff used for a parent of a merge is not the one entered for that parent")
		}
	}
}

// c02Files: every file of a commit's blame gets one code result, except removed-from-the-log ones.
func c02Files(c *Ctx) {
	var fns []*ssa.Function
	for _, f := range c.p.Fns {
		if f.Parent() != nil || fnPkgPath(f) != mp("ripsrc") {
			continue
		}
		for _, q := range f.Params {
			if isNamed(q.Type(), mp(processPkg)+".Result") && f.Signature.Results().Len() > 0 {
				fns = append(fns, f)
			}
		}
	}
	c.Count("functions turning a commit into code results", len(fns))
	c.Min("functions turning a commit into code results", 1)
	resT := mp("ripsrc") + ".BlameResult"
	for _, fn := range fns {
		c.Saw(fn)
		ri := paramIdx(fn, func(t types.Type) bool { return isNamed(t, mp(processPkg)+".Result") })
		loops, apps := map[ssa.Instruction]bool{}, map[ssa.Instruction]bool{}
		r := &Rule{Name: "files", NoLoads: true, Inline: func(x *X, f *ssa.Function, call ssa.CallInstruction) bool {
			if fnPkgPath(f) != mp("ripsrc") {
				return false
			}
			res := f.Signature.Results()
			for i := 0; i < res.Len(); i++ {
				if isNamed(res.At(i).Type(), resT) {
					return true
				}
			}
			for _, q := range f.Params {
				if isNamed(q.Type(), resT) {
					return true
				}
			}
			return false
		}}
		end := func(x *X, e *Event) {
			if x.Get("k") != "" && x.Get("n") == "" {
				x.Set("lost", "1")
			}
			x.Set("k", "")
			x.Set("n", "")
		}
		r.OnEvent = func(x *X, e *Event) {
			blame := x.ParamTerm(ri)
			files := x.ts.Field(blame, "Files")
			isCommit := func(t *Term) bool { // the metadata of this commit
				for t.Op == "ld" || t.Op == "st" {
					t = t.A[0]
				}
				return t.Op == "lk" && t.A[1] == x.ts.Field(blame, "Commit")
			}
			switch e.Kind {
			case EvIter:
				over := e.Coll == files && e.IKind == "map" || e.IKind != "map" && x.Get("keys") == "1" && isStringSliceTerm(e.Coll)
				if !over {
					return
				}
				if x.Get("k") != "" && x.Get("n") == "" && x.Get("aux") == "1" {
					x.Set("k", "") // a loop that only collects or checks names
				}
				x.Set("aux", "")
				loops[e.Ins] = true
				end(x, e)
				if e.Taken {
					k := e.Elem
					if e.IKind != "map" {
						k = x.ts.mk("el", "", "", e.Coll, e.Elem)
					}
					x.Set("k", k.key)
				} else {
					if e.IKind == "map" {
						addTo(x, "done", "map")
					} else {
						addTo(x, "done", "keys")
					}
				}
			case EvMapSet:
				if k := x.Get("k"); k != "" && e.Key.key == k {
					x.Set("aux", "1")
				}
			case EvBranch:
				k := x.Get("k")
				if k == "" {
					return
				}
				t := e.Cond
				if e.Taken && t.Op == "empty" && t.A[0].key == k {
					x.Set("n", "skip")
				}
				if !e.Taken && t.Op == "has" && t.A[1].key == k && t.A[0].Op == "f" && t.A[0].S == "Files" && isCommit(t.A[0].A[0]) {
					x.Set("n", "skip")
				}
				if !e.Taken && t.Op == "has" && t.A[1].key == k && t.A[0] == files {
					x.Stop() // contradiction: k is a key of files
				}
			case EvAppend:
				t := appendElem(e)
				if isString(t) && x.Get("k") != "" {
					if el, ok := x.Elems(e.Args[1]); ok && len(el) == 1 && el[0].key == x.Get("k") {
						x.Set("aux", "1")
						x.Set("keys", "1")
					}
					return
				}
				if !isNamed(t, resT) {
					return
				}
				apps[e.Ins] = true
				el, ok := x.Elems(e.Args[1])
				if !ok || len(el) != 1 {
					x.Violate("result list", e.Pos(), "cannot tell which code result is added")
					return
				}
				k := x.Get("k")
				if k == "" || x.Get("n") != "" {
					x.Violate("result repeated", e.Pos(), "a code result is added that is not the first one of a file of the commit")
					return
				}
				v := el[0]
				if x.ts.Field(v, "Filename").key != k {
					x.Violate("result file", e.Pos(), "the code result of a file is labelled with another file name")
				}
				if cm := x.ts.Field(v, "Commit"); !isCommit(cm) {
					x.Violate("result commit", e.Pos(), "the code result of a file does not carry the metadata of its commit")
				}
				x.Set("n", "1")
			case EvReturn:
				if nn, known := errKnown(x, e); known && nn {
					return
				}
				if x.Get("k") != "" || !hasIn(x, "done", "map") || x.Get("keys") == "1" && !hasIn(x, "done", "keys") {
					x.Violate("files skipped", e.Pos(), "the function can finish without error before all files of the commit were turned into code results")
				}
				if x.Get("lost") == "1" {
					x.Violate("file lost", e.Pos(), "a file of the commit can be left out of its code results")
				}
			}
		}
		c.Sim(fnName(fn), fn, r, nil)
		c.Count("loops over the files of a commit", len(loops))
		c.Min("loops over the files of a commit", 1)
		c.Count("code results added", len(apps))
		c.Min("code results added", 1)
	}
}

func dbg(a ...interface{}) {
	if os.Getenv("RIPCHECK_DBG") != "" {
		fmt.Println(a...)
	}
}
