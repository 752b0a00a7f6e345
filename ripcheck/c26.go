package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const rootPkg = "ripsrc"
const infoPkg = "ripsrc/fileinfo"
const sccPkg = "github.com/boyter/scc/processor"

func init() {
	register("C26", "Every path from the exported function that turns processed commits into file records to each record made, with what it calls in its package. Every loop over the lines of a blame is followed as an arbitrary iteration; a list counts as the lines of the file only if the loop runs over the lines of this record's blame from first to last and appends exactly one entry in every iteration, made for that line. The name, email, date and hash stored for a line must be fields of the metadata found under that line's own commit in the map git log filled; a lookup that is not checked in a map that holds only a part of the history is reported. The record carries the file name and the commit its blame belongs to, and the list of those lines. The counter is called with the file's lines joined by newlines, and its callback stores exactly the class it was told in the line with the number it was told, for every line in range.", runC26)
	register("C33", "As C26: at every point where a record is made after the counter was called, each statistics field is compared with the field of the counter's job it must hold, the job with the file's name, language and full content, and the size with the length of that content.", func(c *Ctx) {
		c.fileRecords()
		for _, fn := range c.p.fileGateRoots() {
			c.fileGates(fn, "own")
		}
		c.Min("languages detected", 1)
	})
}

// recordRoots: the functions of the root package that receive processed commits.
func (c *Ctx) recordRoots() (out []*ssa.Function) {
	for _, r := range c.p.streamRoots(func(t types.Type) bool { return itemType(t) == mp(processPkg)+".Result" }) {
		if fnPkgPath(r) == mp(rootPkg) {
			out = append(out, r)
		}
	}
	return
}

func runC26(c *Ctx) {
	c.fileRecords()
	c.lineCallback()
}

func elemOfSlice(t types.Type) types.Type {
	s, ok := types.Unalias(t).Underlying().(*types.Slice)
	if !ok {
		return nil
	}
	return s.Elem()
}

// lineList: the kind of list of per-line values t is.
func lineList(t types.Type) string {
	el := elemOfSlice(t)
	if el == nil {
		return ""
	}
	if b, ok := types.Unalias(el).Underlying().(*types.Basic); ok && b.Kind() == types.Byte {
		return "C"
	}
	if in := elemOfSlice(el); in != nil && lineList(el) == "C" {
		return "L"
	}
	pt, ok := types.Unalias(el).Underlying().(*types.Pointer)
	if !ok {
		if hasLine(el) {
			return "S"
		}
		return ""
	}
	if isNamed(pt.Elem(), mp(rootPkg)+".BlameLine") {
		return "B"
	}
	if hasLine(pt.Elem()) {
		return "S"
	}
	return ""
}

// hasLine: a struct that holds a reported line.
func hasLine(t types.Type) bool {
	if pt, ok := types.Unalias(t).Underlying().(*types.Pointer); ok {
		t = pt.Elem()
	}
	st, ok := types.Unalias(t).Underlying().(*types.Struct)
	if !ok || isNamed(t, mp(rootPkg)+".BlameLine") {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i).Type()
		if pt, ok := types.Unalias(f).Underlying().(*types.Pointer); ok {
			f = pt.Elem()
		}
		if isNamed(f, mp(rootPkg)+".BlameLine") {
			return true
		}
	}
	return false
}

var listKinds = []string{"C", "L", "B", "S"}

// seqIter: one step of a loop over the lines; the lists built in it must have got one entry in every iteration.
// It returns false where the path cannot be taken.
func (x *X) seqIter(e *Event, loop string) bool {
	hdr := fmt.Sprintf("%s.%d", fnName(e.Ins.Parent()), e.Ins.Block().Index)
	first := x.Get(loop) != hdr
	if first {
		for _, k := range listKinds {
			x.Untag(k + ":got")
			x.Untag(k + ":prog")
			x.Untag(k + ":mid")
		}
		st := map[bool]string{true: "nonempty", false: "empty"}[e.Taken]
		if b := x.Get("blame"); b != "" && b != st {
			return false
		}
		x.Set("blame", st)
		x.Retag("over", e.Coll)
	}
	for _, k := range listKinds {
		x.Untag(k + ":prog") // not appended to in the last iteration
		for _, t := range x.Tagged(k + ":got") {
			if e.Taken {
				x.Tag(k+":prog", t)
			} else {
				x.Tag(k+":full", t)
			}
		}
		x.Untag(k + ":got")
		x.Untag(k + ":mid")
	}
	if e.Taken {
		x.Set(loop, hdr)
		x.Set("first", map[bool]string{true: "1", false: ""}[first])
		x.Retag("cur:"+loop, x.ts.mk("el", "", "", e.Coll, e.Elem))
	} else {
		x.Set(loop, "")
		x.Untag("cur:" + loop)
	}
	return true
}

// seqFull: t holds one entry for every line of the file, in order.
func (x *X) seqFull(kind string, t *Term) bool {
	if t == nil {
		return false
	}
	return x.HasTag(kind+":full", t) || x.Get("blame") == "empty" && (x.freshList(t) || zeroTerm(t) || t.Op == "mslice" && t.A[0].Op == "len" && x.HasTag("over", t.A[0].A[0]))
}

func (x *X) seqGrow(kind string, old *Term) bool {
	return x.HasTag(kind+":prog", old) || x.Get("first") != "" && x.freshList(old)
}

func (x *X) curOf(loop string) *Term {
	if l := x.Tagged("cur:" + loop); len(l) == 1 {
		return l[0]
	}
	return nil
}

// fileRecords judges every record of a file made by the root package; which parts depends on the property.
func (c *Ctx) fileRecords() {
	roots := c.recordRoots()
	for _, r := range roots {
		c.fileRecordsOf(r)
	}
	if len(roots) == 0 {
		c.Violate("no records", 0, "no function of package %s receives processed commits", rootPkg)
	}
	c.Min("records made", 3)
}

func isMeta(t types.Type) bool {
	m, ok := types.Unalias(t).Underlying().(*types.Map)
	return ok && itemType(m.Elem()) == mp(commitMetaPkg)+".Commit"
}

func (c *Ctx) fileRecordsOf(root *ssa.Function) {
	is := func(ids ...string) bool {
		for _, id := range ids {
			if c.id == id {
				return true
			}
		}
		return false
	}
	bad := func(x *X, e *Event, prop, key, msg string) {
		if is(prop) {
			x.Violate(key, e.Pos(), msg)
		}
	}
	metaCall := func(t *Term) bool {
		return t.Op == "x" && t.S == "0" && t.A[0].Op == "call" && strings.HasPrefix(t.A[0].S, "(*"+mp(commitMetaPkg)+".")
	}
	// metadata of the commit with this hash
	metaOf := func(x *X, t *Term) (sha *Term, m *Term) {
		t = unwrapConv(t)
		if t.Op != "lk" {
			return nil, nil
		}
		m = t.A[0]
		if metaCall(m) || m.Op == "f" && x.Get("meta:"+m.S) != "bad" {
			return t.A[1], m
		}
		return nil, nil
	}
	result := func(t *Term) bool { return t.Op == "f" && t.A[0].Op == "recv" }
	// the files of the commit in hand
	filesOf := func(t *Term) bool { return result(t) && t.S == "Files" }
	key := func(x *X) *Term {
		if l := x.Tagged("file"); len(l) == 1 {
			return l[0]
		}
		return nil
	}
	isBlame := func(x *X, t *Term) bool {
		k := key(x)
		if k == nil || (t.Op != "mval" && t.Op != "lk") || !filesOf(t.A[0]) {
			return false
		}
		return t.Op == "mval" && t.A[0] == k.A[0] || t.Op == "lk" && t.A[1] == k
	}
	// what the metadata of this commit says of the file
	isStat := func(x *X, t *Term) bool {
		if t.Op != "lk" || t.A[0].Op != "f" || t.A[0].S != "Files" || t.A[1] != key(x) {
			return false
		}
		sha, _ := metaOf(x, t.A[0].A[0])
		return sha != nil && sha.Op == "f" && sha.S == "Commit" && result(sha)
	}
	infoRes := func(t *Term, i string) bool {
		return t.Op == "x" && t.S == i && t.A[0].Op == "call" && strings.Contains(t.A[0].S, infoPkg+".")
	}
	blameLine := func(t types.Type) bool {
		_, ptr := types.Unalias(t).Underlying().(*types.Pointer)
		return !ptr && isNamed(t, mp(rootPkg)+".BlameLine")
	}

	// one field of a reported line
	lineField := func(x *X, e *Event, base *Term, name string, val *Term) {
		val = unwrapConv(val)
		want := map[string]string{"Name": "AuthorName", "Email": "AuthorEmail", "Date": "Date"}[name]
		cur := x.curOf("it")
		if name != "SHA" && want == "" {
			if !zeroTerm(val) {
				bad(x, e, "C26", "class set outside", "the class of a line is set outside the counter's callback")
			}
			return
		}
		if cur == nil {
			bad(x, e, "C26", "line field "+name, "the field "+name+" of a reported line is set outside the loop over the lines of the file")
			return
		}
		own := func(t *Term) bool { return t != nil && t.Op == "f" && t.S == "Commit" && t.A[0] == cur }
		if zeroTerm(val) {
			return
		}
		c.Count("line fields", 1)
		if name == "SHA" {
			if !own(val) {
				bad(x, e, "C26", "line commit", "a reported line names another commit than the one its blame line has: "+val.Canon())
			}
		} else if val.Op == "f" && val.S == want {
			sha, m := metaOf(x, val.A[0])
			if !own(sha) {
				bad(x, e, "C26", "line field "+name, "the field "+name+" of a reported line is not that of the commit the line has")
			} else if v, ok := x.KnownCond(x.ts.mk("has", "", "", m, sha)); (!ok || !v) && x.Get("part") != "" {
				bad(x, e, "C26", "line of an earlier commit", "the author data of a line is looked up without a check in a map that only holds the commits from the start of an incremental run on")
			}
		} else {
			bad(x, e, "C26", "line field "+name, "the field "+name+" of a reported line is not the "+want+" of the commit the line has: "+val.Canon())
		}
		for base.Op == "fa" {
			base = base.A[0]
		}
		x.Set("w:"+base.key+":"+name, "1")
	}
	// the lines made in this iteration must be complete when it ends
	endLine := func(x *X, e *Event) {
		for k, v := range x.St.auto {
			if strings.HasPrefix(k, "made:") && v != "" {
				bl := v
				if a := x.Get("bl:" + v); a != "" {
					bl = a
				}
				for _, n := range []string{"SHA", "Name", "Email", "Date"} {
					if x.Get("w:"+bl+":"+n) == "" {
						bad(x, e, "C26", "missing "+n, "a reported line is made without its "+n)
					}
				}
			}
		}
		for k := range x.St.auto {
			if strings.HasPrefix(k, "made:") || strings.HasPrefix(k, "w:") || strings.HasPrefix(k, "bl:") || strings.HasPrefix(k, "al:") {
				x.Set(k, "")
			}
		}
	}

	judge := func(x *X, e *Event, v *Term) {
		c.Count("records made", 1)
		f := func(n string) *Term { return unwrapConv(x.ts.Field(v, n)) }
		if x.Get("em") != "" {
			bad(x, e, "C22", "two records", "more than one record is made for a file of a commit")
		}
		x.Set("em", "1")
		if k := key(x); k == nil || f("Filename") != k {
			bad(x, e, "C26", "file name", "the file name of a record is not the path its blame belongs to")
		}
		if sha, _ := metaOf(x, f("Commit")); sha == nil || sha.Op != "f" || sha.S != "Commit" || !result(sha) {
			bad(x, e, "C26", "commit", "the commit of a record is not the metadata of the commit that was processed")
		}
		if s := f("Status"); s.Op != "f" || s.S != "Status" || !isStat(x, s.A[0]) {
			bad(x, e, "C25", "status of a record", "the status of a record is not the one the metadata of its commit has for the file")
		}
		sk := f("Skipped")
		stats := map[string]string{"Loc": "Lines", "Sloc": "Code", "Comments": "Comment", "Blanks": "Blank", "Complexity": "Complexity", "WeightedComplexity": "WeightedComplexity"}
		if x.Get("cs") == "" {
			any := ""
			for _, n := range []string{"Loc", "Sloc", "Comments", "Blanks", "Complexity", "WeightedComplexity", "Lines", "Size"} {
				if !zeroTerm(f(n)) {
					any = n
				}
			}
			if any != "" {
				bad(x, e, "C22", "statistics of a skipped file", "a record of a file that was not analysed has a value for "+any)
			}
			if x.Get("info") == "" {
				if v, ok := x.eqKnown(f("Status"), x.ts.StrConst("removed")); !ok || !v {
					bad(x, e, "C22", "not looked at", "a record is made for a file that is neither removed nor was looked at")
				}
				if s, ok := sk.Str(); !ok || s == "" {
					bad(x, e, "C22", "no reason", "the record of a removed file names no reason")
				}
				if !zeroTerm(f("Language")) || !zeroTerm(f("License")) {
					bad(x, e, "C22", "removed file looked at", "the record of a removed file has a language or license")
				}
				return
			}
			for _, n := range []string{"Language", "License"} {
				if t := f(n); t.Op != "f" || t.S != n || !infoRes(t.A[0], "0") {
					bad(x, e, "C33", "field "+n, "the field "+n+" of a record is not the one found for the file")
				}
			}
			if !infoRes(sk, "1") {
				bad(x, e, "C22", "no reason", "the record of a file that was not analysed does not carry the reason")
			}
			return
		}
		if !x.seqFull("B", f("Lines")) {
			bad(x, e, "C26", "lines", "the lines of a record are not one for every line of the file, in order")
		}
		job := x.Tagged("job")
		for n, jf := range stats {
			t := f(n)
			if len(job) != 1 || t.Op != "f" || t.S != jf || t.A[0] != job[0] {
				bad(x, e, "C33", "field "+n, "the field "+n+" of a record is not the "+jf+" of the counter's job")
			}
			c.Count("statistics compared", 1)
		}
		if t := f("Size"); t.Op != "len" || !x.seqFull("C", t.A[0]) {
			if n, ok := t.Int(); !ok || n != 0 || x.Get("blame") != "empty" {
				bad(x, e, "C33", "field Size", "the size of a record is not the length of the content of the file")
			}
		}
		if t := f("License"); !zeroTerm(t) && (t.Op != "f" || t.S != "License" || !infoRes(t.A[0], "0")) {
			bad(x, e, "C33", "field License", "the license of a record is not the one found for the file")
		}
		lang := f("Language")
		ok := lang.Op == "f" && lang.S == "Language" && infoRes(lang.A[0], "0")
		gen := !zeroTerm(sk)
		if v, ok := x.IsEmpty(sk); ok && v {
			gen = false // the reason that was found empty
		}
		if gen {
			if s, isC := sk.Str(); !isC || s == "" || !zeroTerm(lang) && !ok {
				bad(x, e, "C33", "generated", "the record of a generated file does not name that reason, or has another language")
			}
			if x.Get("gen") != "1" {
				bad(x, e, "C22", "skipped after counting", "an analysed file is marked as skipped though the counter's callback did not say so")
			}
		} else if x.Get("gen") != "0" {
			bad(x, e, "C22", "generated", "a file the counter's callback may have recognised as generated is not marked as skipped")
		} else if !ok {
			bad(x, e, "C33", "field Language", "the language of a record is not the one that was detected for the file")
		}
	}

	isRec := func(t types.Type) bool { return itemType(t) == mp(rootPkg)+".BlameResult" }

	fileEnd := func(x *X, e *Event) {
		if x.Get("infile") != "" && x.Get("em") == "" && x.Get("none") == "" {
			bad(x, e, "C22", "no record", "no record is made for a file that the commit changed")
		}
	}

	r := &Rule{Name: "records", WantPre: true, NoLoads: true, WantAlloc: true}
	r.Inline = func(x *X, f *ssa.Function, call ssa.CallInstruction) bool {
		return fnPkgPath(f) == mp(rootPkg)
	}
	r.OnEvent = func(x *X, e *Event) {
		switch e.Kind {
		case EvGo:
			x.Fork(e, x.St.auto.clone())
		case EvBranch:
			k := key(x)
			dbg("BR", e.Cond.Canon(), e.Taken, x.Tagged("cb"))
			if t := e.Cond; t.Op == "f" && t.A[0].Op == "new" && x.HasTag("cb", t.A[0]) {
				x.Set("gen", map[bool]string{true: "1", false: "0"}[e.Taken])
			}
			switch ct := e.Cond; {
			case k == nil:
			case ct.Op == "has" && !e.Taken && k.Op == "el" && filesOf(ct.A[0]) && ct.A[1] == k:
				x.Stop() // the list holds the paths of these files
			case ct.Op == "has" && !e.Taken && isStat(x, x.ts.mk("lk", "", "", ct.A[0], ct.A[1])):
				x.Set("none", "1") // the log does not have the file
			case ct.Op == "empty" && e.Taken && ct.A[0] == k:
				x.Set("none", "1")
			case ct.Op == "eq" && e.Taken && (ct.A[0] == k && zeroTerm(ct.A[1]) || ct.A[1] == k && zeroTerm(ct.A[0])):
				x.Set("none", "1")
			}
		case EvCall, EvPre:
			switch {
			case e.Kind == EvCall && callTo(&Term{Op: "call", S: e.Name}, commitMetaPkg+".New"):
				for _, a := range e.Args {
					for _, n := range []string{"CommitFromIncl"} {
						if v := x.ts.Field(a, n); a.Op == "st" && !zeroTerm(v) {
							x.Set("part", "1")
						}
					}
				}
			case e.Kind == EvPre && strings.Contains(e.Name, infoPkg+".") && len(e.Args) > 1 && key(x) != nil:
				x.Set("info", "1")
				a := e.Args[len(e.Args)-1]
				c.Count("files looked at", 1)
				okRemoved := false
				for _, fc := range x.St.facts {
					if fc.t.Op == "eq" && !fc.v && (isRemoved(fc.t.A[0]) && isStatus(fc.t.A[1], isStat, x) || isRemoved(fc.t.A[1]) && isStatus(fc.t.A[0], isStat, x)) {
						okRemoved = true
					}
				}
				if !okRemoved {
					bad(x, e, "C22", "removed file", "a file is looked at though the commit may have removed it")
				}
				if k := key(x); x.ts.Field(a, "FilePath") != k {
					bad(x, e, "C22", "path looked at", "the path that is looked at is not the path of the file")
				}
				if !x.seqFull("C", x.ts.Field(a, "Content")) || !x.seqFull("L", x.ts.Field(a, "Lines")) {
					bad(x, e, "C22", "content looked at", "the content and the lines that are looked at are not all lines of the file")
				}
			case e.Kind == EvPre && e.Name == sccPkg+".CountStats":
				x.Set("cs", "1")
				c.Count("counter calls", 1)
				reason := false
				for _, fc := range x.St.facts {
					if fc.t.Op == "eq" && fc.v && (infoRes(fc.t.A[0], "1") && zeroTerm(fc.t.A[1]) || infoRes(fc.t.A[1], "1") && zeroTerm(fc.t.A[0])) || fc.t.Op == "empty" && fc.v && infoRes(fc.t.A[0], "1") {
						reason = true
					}
				}
				if !reason {
					bad(x, e, "C22", "analysed in spite of a reason", "a file is analysed though there may be a reason to skip it")
				}
				job := e.Args[0]
				jt := fieldT(c.p, sccPkg, "FileJob")
				ld := func(n string) *Term {
					a := x.ts.mk("fa", n, "", job)
					a.T = jt
					return x.Load(a, fieldType(jt, n))
				}
				x.Retag("job", job)
				if k := key(x); ld("Filename") != k {
					bad(x, e, "C33", "counted name", "the counter is called with another file name")
				}
				if l := ld("Language"); l.Op != "f" || l.S != "Language" || !infoRes(l.A[0], "0") {
					bad(x, e, "C33", "counted language", "the counter is called with another language than the one detected for the file")
				}
				if !x.seqFull("C", ld("Content")) {
					bad(x, e, "C33", "counted content", "the counter is called with something else than the full content of the file")
					bad(x, e, "C26", "counted content", "the counter is called with something else than the full content of the file")
				}
				cb := ld("Callback")
				good := false
				if cb.Op == "new" {
					x.Retag("cb", cb)
					if al, ok := cb.V.(*ssa.Alloc); ok {
						ct := al.Type().Underlying().(*types.Pointer).Elem()
						if st, ok := types.Unalias(ct).Underlying().(*types.Struct); ok {
							for i := 0; i < st.NumFields(); i++ {
								k := lineList(st.Field(i).Type())
								if k != "S" && k != "B" {
									continue
								}
								a := x.ts.mk("fa", st.Field(i).Name(), "", cb)
								a.T = ct
								if x.seqFull(k, x.Load(a, st.Field(i).Type())) {
									good = true
								}
							}
						}
					}
				}
				if !good {
					bad(x, e, "C26", "classified lines", "the counter's callback does not get the lines of the record, one for every line of the file in order")
				}
			}
		case EvAlloc:
			if x.curOf("it") != nil && (isNamed(e.Res.T, mp(rootPkg)+".BlameLine") || hasLine(e.Res.T)) {
				x.Set("al:"+e.Res.key, "1")
			}
		case EvMapSet:
			if isMeta(e.Ins.(*ssa.MapUpdate).Map.Type()) {
				bad(x, e, "C26", "metadata changed", "the map of commit metadata gets entries outside the reader of git log")
			}
		case EvStore:
			st := storeType(e)
			switch {
			case e.Addr.Op == "fa" && st != nil && isMeta(st):
				if !metaCall(e.Val) {
					x.Set("meta:"+e.Addr.S, "bad")
				}
			case e.Addr.Op == "fa" && e.Addr.T != nil && isNamed(e.Addr.T, mp(rootPkg)+".BlameLine"):
				lineField(x, e, e.Addr.A[0], e.Addr.S, e.Val)
			case st != nil && blameLine(st):
				for _, n := range []string{"SHA", "Name", "Email", "Date", "Code", "Comment", "Blank"} {
					if v := x.ts.Field(e.Val, n); !zeroTerm(v) {
						lineField(x, e, e.Addr, n, v)
					}
				}
			case e.Addr.Op == "fa" && e.Addr.T != nil && hasLine(e.Addr.T) && st != nil:
				if pt, ok := types.Unalias(st).Underlying().(*types.Pointer); ok && blameLine(pt.Elem()) {
					x.Set("bl:"+e.Addr.A[0].key, e.Val.key)
				} else if lineList(st) == "C" && !zeroTerm(e.Val) {
					if cur := x.curOf("it"); cur == nil || e.Val.Op != "f" || e.Val.S != "Line" || e.Val.A[0] != cur {
						bad(x, e, "C26", "text of a line", "the text kept with a reported line is not that of its line")
					}
				}
			case e.Addr.Op == "ia":
				// lists filled in place
				b := e.Addr.A[0]
				v := e.Ins.(*ssa.Store).Addr
				ia, ok := v.(*ssa.IndexAddr)
				if !ok {
					return
				}
				k := lineList(ia.X.Type())
				if k == "" || k == "C" || b.Op != "mslice" || b.A[0].Op != "len" {
					return
				}
				for _, loop := range []string{"it", "its"} {
					if cur := x.curOf(loop); cur != nil && b.A[0].A[0] == cur.A[0] && e.Addr.A[1] == cur.A[1] {
						if x.HasTag(k+":prog", b) || x.Get("first") != "" {
							c.listEntry(x, e, k, b, b, e.Val)
						}
					}
				}
			}
		case EvIter:
			switch {
			case e.IKind == "slice" && e.Taken && x.freshList(e.Coll) && x.Get("kfiles") == "empty":
				x.Stop()
			case e.IKind == "map" && filesOf(e.Coll), e.IKind == "slice" && x.HasTag("K:full", e.Coll):
				fileEnd(x, e)
				if e.IKind == "map" {
					// the paths collected in this loop
					hdr := fmt.Sprintf("%s.%d", fnName(e.Ins.Parent()), e.Ins.Block().Index)
					if x.Get("kloop") != hdr {
						x.Untag("K:got")
						x.Untag("K:prog")
						x.Set("kfirst", "1")
					} else if x.Get("none") == "" {
						x.Set("kfirst", "")
					}
					x.Set("kfiles", map[bool]string{true: "some", false: "empty"}[e.Taken || x.Get("kfirst") == ""])
					if x.Get("none") == "" {
						x.Untag("K:prog")
					}
					for _, t := range append(x.Tagged("K:got"), x.Tagged("K:prog")...) {
						if e.Taken {
							x.Tag("K:prog", t)
						} else {
							x.Tag("K:full", t)
						}
					}
					x.Untag("K:got")
					x.Set("kloop", map[bool]string{true: hdr, false: ""}[e.Taken])
				}
				for _, k := range listKinds {
					for _, s := range []string{":got", ":prog", ":full", ":mid"} {
						x.Untag(k + s)
					}
				}
				for k := range x.St.auto {
					if k != "part" && k != "kloop" && k != "kfirst" && k != "kfiles" && !strings.HasPrefix(k, "meta:") {
						x.Set(k, "")
					}
				}
				x.Untag("job")
				x.Untag("cb")
				x.Untag("file")
				x.Untag("cur:it")
				x.Untag("cur:its")
				if e.Taken {
					f := e.Elem
					if e.IKind == "slice" {
						f = x.ts.mk("el", "", "", e.Coll, e.Elem)
					}
					x.Tag("file", f)
					if c.recordLoop(e.Ins) {
						x.Set("infile", "1")
					}
				}
			case e.IKind == "slice" && e.Coll.Op == "f" && e.Coll.S == "Lines" && isBlame(x, e.Coll.A[0]):
				endLine(x, e)
				if !x.seqIter(e, "it") {
					x.Stop()
				}
			case e.IKind == "slice" && (x.seqFull("S", e.Coll) || x.seqFull("B", e.Coll)):
				if !x.seqIter(e, "its") {
					x.Stop()
				}
			}
		case EvAppend:
			t := e.Ins.(ssa.Value).Type()
			if el := elemOfSlice(t); el != nil && isRec(el) {
				l, ok := x.Elems(e.Args[1])
				if !ok || len(l) != 1 {
					c.Violate("record list", e.Pos(), "records are collected in a way that was not recognised")
					return
				}
				if l[0].Op != "recv" {
					judge(x, e, l[0])
				}
				return
			}
			if el, ok := x.Elems(e.Args[1]); ok && len(el) == 1 && el[0] == key(x) && el[0].Op == "mkey" && (x.HasTag("K:prog", e.Args[0]) || x.Get("kfirst") != "" && x.freshList(e.Args[0])) {
				x.Untag("K:prog")
				x.Tag("K:got", e.Res)
				return
			}
			k := lineList(t)
			switch k {
			case "C":
				cur := x.curOf("it")
				if cur == nil {
					return
				}
				v := unwrapConv(e.Args[1])
				if v.Op == "f" && v.S == "Line" && v.A[0] == cur && x.seqGrow("C", e.Args[0]) {
					x.Tag("C:mid", e.Res)
					return
				}
				s, ok := v.Str()
				if !ok {
					if el, isL := x.Elems(e.Args[1]); isL && len(el) == 1 {
						if n, isN := el[0].Int(); isN && n == 10 {
							s, ok = "\n", true
						}
					}
				}
				if ok && s == "\n" && x.HasTag("C:mid", e.Args[0]) {
					x.Untag("C:mid")
					x.Tag("C:got", e.Res)
				}
			case "L", "B", "S":
				el, ok := x.Elems(e.Args[1])
				if !ok || len(el) != 1 || !x.seqGrow(k, e.Args[0]) {
					return
				}
				c.listEntry(x, e, k, e.Args[0], e.Res, el[0])
			}
		case EvSend:
			if isRec(storeType(e)) && e.Val.Op != "recv" && e.Val.Op != "el" {
				judge(x, e, e.Val)
			}
		}
	}
	c.Sim("records of "+fnName(root), root, r, nil)
}

// recordLoop: a loop in which records of files are made.
func (c *Ctx) recordLoop(ins ssa.Instruction) bool {
	makes := func(f *ssa.Function, i ssa.Instruction) bool {
		switch i := i.(type) {
		case *ssa.Send:
			return itemType(i.X.Type()) == mp(rootPkg)+".BlameResult"
		case *ssa.Call:
			if b, ok := i.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
				el := elemOfSlice(i.Type())
				return el != nil && itemType(el) == mp(rootPkg)+".BlameResult"
			}
		}
		return false
	}
	for b := range c.p.Loops(ins.Parent()).header[ins.Block()] {
		for _, i := range b.Instrs {
			if makes(ins.Parent(), i) {
				return true
			}
			if ci, ok := i.(ssa.CallInstruction); ok && c.p.transitively(ci.Common().StaticCallee(), makes) {
				return true
			}
		}
	}
	return false
}

// listEntry: a value that is appended to, or stored in, a list of lines belongs to the line in hand.
func (c *Ctx) listEntry(x *X, e *Event, kind string, old, res, v *Term) {
	v = unwrapConv(v)
	it, its := x.curOf("it"), x.curOf("its")
	ok := false
	switch {
	case kind == "L" && it != nil:
		ok = v.Op == "f" && v.S == "Line" && v.A[0] == it
	case its != nil && kind == "B":
		ok = v.Op == "f" && v.A[0] == its
	case it != nil && (kind == "B" || kind == "S"):
		// made in this iteration, and the line it holds too
		bl := x.Get("bl:" + v.key)
		if x.Get("al:"+v.key) != "" && (bl == "" || x.Get("al:"+bl) != "") {
			ok = true
			x.Set("made:"+kind, v.key)
		}
		// the line of an object of this iteration
		if kind == "B" && x.Get("made:S") != "" && x.Get("bl:"+x.Get("made:S")) == v.key {
			ok = true
		}
	}
	if ok {
		c.Count("lines put in lists", 1)
		x.Untag(kind + ":prog")
		x.Tag(kind+":got", res)
	}
}

// eqKnown: whether two values are known to be equal or different.
func (x *X) eqKnown(a, b *Term) (bool, bool) {
	if a == b {
		return true, true
	}
	ct, pol := x.ts.Cond(x.ts.mk("b", "==", "", a, b))
	v, ok := x.KnownCond(ct)
	return v == pol, ok
}

func isRemoved(t *Term) bool {
	s, ok := t.Str()
	return ok && s == "removed"
}

func isStatus(t *Term, isStat func(*X, *Term) bool, x *X) bool {
	return t.Op == "f" && t.S == "Status" && isStat(x, t.A[0])
}

func fieldT(p *Prog, pkg, name string) types.Type {
	for _, sp := range p.SSA.AllPackages() {
		if sp.Pkg.Path() == pkg {
			if t := sp.Type(name); t != nil {
				return t.Type()
			}
		}
	}
	return types.Typ[types.Invalid]
}

// lineCallback: the counter's callback stores the class it is told in the line it is told.
func (c *Ctx) lineCallback() {
	var cbs []*ssa.Function
	for _, fn := range c.p.Fns {
		if fnPkgPath(fn) == mp(rootPkg) && fn.Name() == "ProcessLine" && fn.Signature.Recv() != nil && fn.Parent() == nil && fn.Synthetic == "" {
			cbs = append(cbs, fn)
		}
	}
	if len(cbs) == 0 {
		c.Violate("no callback", 0, "no callback of the line counter was found")
		return
	}
	class := map[string]string{} // value of the type -> field
	for _, sp := range c.p.SSA.AllPackages() {
		if sp.Pkg.Path() != sccPkg {
			continue
		}
		for n, f := range map[string]string{"LINE_BLANK": "Blank", "LINE_CODE": "Code", "LINE_COMMENT": "Comment"} {
			if k, ok := sp.Pkg.Scope().Lookup(n).(*types.Const); ok && k.Val().Kind() == constant.Int {
				class[k.Val().ExactString()] = f
			}
		}
	}
	if len(class) != 3 {
		c.Violate("line classes", 0, "the classes of the line counter were not found")
		return
	}
	for _, fn := range cbs {
		if len(fn.Params) != 4 {
			c.Violate("callback", fn.Pos(), "the callback of the line counter has other parameters")
			continue
		}
		r := &Rule{Name: "callback", NoLoads: true}
		r.Inline = func(x *X, f *ssa.Function, call ssa.CallInstruction) bool { return fnPkgPath(f) == mp(rootPkg) }
		classOf := func(x *X, v string) (bool, bool) {
			return x.eqKnown(x.ParamTerm(3), x.ts.mk("const", v, ""))
		}
		// the line with the number told
		isLine := func(x *X, t *Term) bool {
			for t.Op == "f" && t.A[0].Op != "el" && t.A[0].Op == "f" {
				t = t.A[0]
			}
			if t.Op == "f" && t.A[0].Op == "el" {
				t = t.A[0]
			}
			if t.Op != "el" {
				return false
			}
			if l := t.A[0]; l.Op != "f" || l.A[0] != x.ParamTerm(0) {
				return false
			}
			ix := unwrapConv(t.A[1])
			if ix.Op != "b" {
				return false
			}
			n, ok := ix.A[1].Int()
			return ok && unwrapConv(ix.A[0]) == x.ParamTerm(2) && (ix.S == "-" && n == 1 || ix.S == "+" && n == -1)
		}
		r.OnEvent = func(x *X, e *Event) {
			switch e.Kind {
			case EvStore:
				if e.Addr.Op == "fa" && e.Addr.T != nil && isNamed(e.Addr.T, mp(rootPkg)+".BlameLine") {
					c.Count("classes stored", 1)
					if !isLine(x, e.Addr.A[0]) {
						x.Violate("other line", e.Pos(), "the class of a line is stored in another line than the one with the number told: "+e.Addr.Canon())
						return
					}
					want := ""
					for v, f := range class {
						if b, ok := classOf(x, v); ok && b {
							want = f
						}
					}
					if e.Addr.S != want || e.Val.key != "const:true" {
						x.Violate("other class", e.Pos(), "the class stored in a line is not the one told")
						return
					}
					x.Set("stored", "1")
				} else if e.Addr.Op == "fa" && rootOf(e.Addr) == x.ParamTerm(0) {
					if e.Val.key == "const:true" {
						x.Set("generated", "1")
					}
				}
			case EvReturn:
				c.Count("callback paths", 1)
				none := true // no class told
				for v := range class {
					if b, ok := classOf(x, v); !ok || b {
						none = false
					}
				}
				if x.Get("stored") == "" && !none && x.Get("out") == "" {
					x.Violate("not classified", e.Pos(), "a line in range may be left without its class")
				}
				if k := e.Args[0].key; x.Get("stored") != "" && k != "const:true" && x.Get("generated") == "" {
					x.Violate("counting stopped", e.Pos(), "the counter is told to stop though the file was not recognised as generated")
				}
			case EvBranch:
				// the number is out of range
				ct := e.Cond
				if ct.Op != "lt" {
					return
				}
				ix := func(t *Term) bool {
					t = unwrapConv(t)
					if t.Op == "b" {
						if n, ok := t.A[1].Int(); ok && unwrapConv(t.A[0]) == x.ParamTerm(2) && (t.S == "-" && n == 1 || t.S == "+" && n == -1) {
							return true
						}
					}
					return false
				}
				n0, isN := ct.A[1].Int()
				switch {
				case e.Taken && ix(ct.A[0]) && isN && n0 <= 0:
					x.Set("out", "1")
				case e.Taken && unwrapConv(ct.A[0]) == x.ParamTerm(2) && isN && n0 <= 1:
					x.Set("out", "1")
				case !e.Taken && ix(ct.A[0]) && ct.A[1].Op == "len" && ct.A[1].A[0].Op == "f" && ct.A[1].A[0].A[0] == x.ParamTerm(0):
					x.Set("out", "1")
				case e.Taken && ct.A[0].Op == "len" && unwrapConv(ct.A[1]) == x.ParamTerm(2):
					x.Set("out", "1")
				}
			}
		}
		c.Sim("callback "+fnName(fn), fn, r, nil)
	}
	c.Min("classes stored", 3)
	_ = token.NoPos
}
