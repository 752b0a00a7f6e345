package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const diskPkg = "ripsrc/history3/process/repo/disk"

func init() {
	register("C12", "The writer and the reader of checkpoints are followed on every path with symbolic values, and the tables they imply are compared. Writer: in every round of the loops over commits, files and lines exactly the right records are written: a row for every file under its own commit and path, one for a commit without files, every blame and line once under a fresh number (numbers come from a counter that only grows, or from the memo of that very object), its contents under the hash of those contents, line numbers in line order. Reader: every decoded record becomes, under its own number, an object with all fields, its lines looked up by number in order, and every row an entry of its commit and path. Both sides use the same disk field for each field of the state, and the same file for each record type. Codec: every field of every record is encoded and decoded under the same key with the same kind, with correct counts, and list elements one by one.", runC12)
}

type c12Table map[string]string // field of the state -> field on disk

func (t c12Table) set(c *Ctx, x *X, e *Event, side, f, d string) {
	if old, ok := t[f]; ok && old != d {
		x.Violate(side+" "+f, e.Pos(), "the "+side+" stores "+f+" in both "+old+" and "+d)
	}
	t[f] = d
}

// diskRec: the record type a pointer term points to.
func diskRec(t *Term) (string, *types.Struct) {
	if t == nil || t.T == nil {
		return "", nil
	}
	n := namedOf(t.T)
	if n == nil || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != mp(diskPkg) {
		return "", nil
	}
	st, _ := n.Underlying().(*types.Struct)
	return n.Obj().Name(), st
}

func kindOf(t types.Type) string {
	switch {
	case isNamed(t, mp(blamePkg)+".Blame"):
		return "blame"
	case isNamed(t, mp(blamePkg)+".Line"):
		return "line"
	}
	return ""
}

// stateFields: the fields of a state object except the list of lines.
func (c *Ctx) stateFields(name string) (fields []string, list string) {
	st, ok := c.p.SPkgs[mp(blamePkg)].Type(name).Type().Underlying().(*types.Struct)
	if !ok {
		return
	}
	for i := 0; i < st.NumFields(); i++ {
		if s, ok := types.Unalias(st.Field(i).Type()).Underlying().(*types.Slice); ok && kindOf(s.Elem()) == "line" {
			list = st.Field(i).Name()
			continue
		}
		fields = append(fields, st.Field(i).Name())
	}
	return
}

// streamOf follows what a reader or writer is layered on, down to the file.
func streamEvents(x *X, e *Event, fn *ssa.Function) {
	res := e.Res
	ci, _ := e.Ins.(ssa.CallInstruction)
	if ci == nil || res == nil {
		return
	}
	if sg := callSig(ci); sg != nil && sg.Results().Len() > 1 {
		res = x.ts.mk("x", "0", "", e.Res)
	}
	switch e.Name {
	case "os.Create", "os.OpenFile", "os.Open":
		s, _ := x.dirPath(e.Args[0], fn)
		s = strings.TrimSuffix(s, ".tmp")
		x.Set("p:"+res.key, s[strings.LastIndexByte(s, '/')+1:])
	case "compress/gzip.NewReader", "github.com/tinylib/msgp/msgp.NewReader", "github.com/tinylib/msgp/msgp.NewReaderSize", "bufio.NewReader", "bufio.NewReaderSize":
		if s := x.Get("p:" + e.Args[0].key); s != "" {
			x.Set("p:"+res.key, s)
		}
	default:
		if bufWriters[e.Name] {
			if s := x.Get("p:" + e.Args[0].key); s != "" {
				x.Set("p:"+res.key, s)
			}
		}
	}
}

func runC12(c *Ctx) {
	rd := c.Must(repoPkg, "CheckpointReader.Read")
	wr := c.Must(repoPkg, "CheckpointWriter.Write")
	if rd == nil || wr == nil {
		return
	}
	wt, ws := c12Table{}, map[string]map[string]bool{}
	rt, rs := c12Table{}, map[string]map[string]bool{}
	c.c12Write(wr, wt, ws)
	c.c12Read(rd, rt, rs)
	var names []string
	for f := range wt {
		names = append(names, f)
	}
	for f := range rt {
		if _, ok := wt[f]; !ok {
			names = append(names, f)
		}
	}
	sort.Strings(names)
	for _, f := range names {
		c.Count("fields of the state compared", 1)
		if wt[f] != rt[f] {
			c.Violate("field "+f, wr.Pos(), "%s is saved in the disk field %q and restored from %q", f, wt[f], rt[f])
		}
	}
	c.Min("fields of the state compared", 8)
	var want []string
	for _, n := range []string{"Blame", "Line"} {
		fs, list := c.stateFields(n)
		for _, f := range fs {
			want = append(want, n+"."+f)
		}
		if list != "" {
			want = append(want, n+"."+list)
		}
	}
	for _, f := range append(want, "row commit", "row path", "row blame", "Blame number", "Line number", "data number") {
		if wt[f] == "" {
			c.Violate("saved "+f, wr.Pos(), "%s is not saved", f)
		}
		if rt[f] == "" {
			c.Violate("restored "+f, rd.Pos(), "%s is not restored", f)
		}
	}
	for _, s := range []struct {
		m    map[string]map[string]bool
		side string
	}{{ws, "written"}, {rs, "read"}} {
		for f, recs := range s.m {
			if len(recs) > 1 {
				c.Violate("file "+f, wr.Pos(), "several kinds of records are %s in the file %s", s.side, f)
			}
		}
	}
	for f, recs := range ws {
		for r := range recs {
			c.Count("record files compared", 1)
			if !rs[f][r] {
				c.Violate("file of "+r, wr.Pos(), "records of type %s are written to the file %s but not read from it", r, f)
			}
		}
	}
	c.Min("record files compared", 2)
	recs := map[string]bool{}
	for _, m := range ws {
		for r := range m {
			recs[r] = true
		}
	}
	c.codecs(recs)
}

func (c *Ctx) c12Write(fn *ssa.Function, table c12Table, streams map[string]map[string]bool) {
	p := c.p
	repoT := p.SPkgs[mp(repoPkg)].Type("Repo").Type()
	repoParam := -1
	for i, prm := range fn.Params {
		if types.Identical(prm.Type(), repoT) {
			repoParam = i
		}
	}
	if repoParam < 0 {
		c.Violate("state parameter", fn.Pos(), "the checkpoint writer has no state parameter")
		return
	}
	blameF, list := c.stateFields("Blame")
	lineF, _ := c.stateFields("Line")
	str := types.Typ[types.String]
	r := &Rule{Name: "writer", NoLoads: true, WantPre: true, MaxState: 200000}
	r.Inline = func(x *X, f *ssa.Function, call ssa.CallInstruction) bool { return fnPkgPath(f) == mp(repoPkg) }
	// id reports whether t is the number of object k.
	id := func(x *X, kind string, t, k *Term) bool {
		if x.HasTag("idV:"+kind, t) && x.HasTag("idK:"+kind, k) {
			return true
		}
		return t.Op == "lk" && t.A[1] == k && x.HasTag("memo:"+kind, t.A[0]) && x.HasTag("hit:"+kind, t)
	}
	pending := func(x *X, e *Event, kinds ...string) {
		for _, k := range kinds {
			if x.Get("pend:"+k) != "" {
				x.Violate("record of "+k, e.Pos(), "an object ("+k+") is given a number but not written")
				x.Set("pend:"+k, "")
			}
		}
	}
	isFiles := func(x *X, t *Term) bool { // the files of the current commit
		return t.Op == "mval" && t.A[0] == x.ParamTerm(repoParam)
	}
	r.OnEvent = func(x *X, e *Event) {
		repo := x.ParamTerm(repoParam)
		switch e.Kind {
		case EvIter:
			switch {
			case e.IKind == "map" && e.Coll == repo:
				c.Count("rounds over commits", 1)
				pending(x, e, "blame", "line", "data")
				if x.Get("commit") != "" {
					if x.Get("frow") == "need" {
						x.Violate("file row", e.Pos(), "a file of a commit is not written")
					}
					if x.Get("files") != "done" && x.Get("cempty") != "1" {
						x.Violate("all files", e.Pos(), "the files of a commit are not written to the last")
					}
					if x.Get("anyrow") == "" && x.Get("cempty") != "0" {
						x.Violate("empty commit", e.Pos(), "a commit without files is not written")
					}
				}
				for _, k := range []string{"frow", "files", "cempty", "anyrow"} {
					x.Set(k, "")
				}
				x.Set("commit", "1")
				if !e.Taken {
					x.Set("commit", "")
					x.Set("all", "1")
				}
			case e.IKind == "map" && isFiles(x, e.Coll):
				pending(x, e, "blame", "line", "data")
				if x.Get("frow") == "need" {
					x.Violate("file row", e.Pos(), "a file of a commit is not written")
				}
				x.Set("appended", "")
				x.Untag("plist")
				x.Set("lines", "")
				if e.Taken {
					x.Set("frow", "need")
				} else {
					x.Set("frow", "")
					x.Set("files", "done")
				}
			case e.Coll.Op == "f" && e.Coll.S == list && e.IKind != "map":
				if e.IKind != "slice" {
					x.Violate("lines of a file", e.Pos(), "the lines of a file are not written from the first to the last")
					return
				}
				pending(x, e, "line", "data")
				if x.Get("lp") == "need" {
					x.Violate("line of a file", e.Pos(), "a line of a file gets no entry in its list of lines")
				}
				x.Set("lp", "")
				if e.Taken {
					x.Set("lp", "need")
					x.Retag("curline", x.ts.mk("el", "", "", e.Coll, e.Elem))
					x.Set("lines", "")
				} else {
					x.Set("lines", "done")
					x.Retag("lineowner", e.Coll.A[0])
				}
			}
		case EvBranch:
			switch {
			case e.Cond.Op == "empty" && isFiles(x, e.Cond.A[0]):
				if e.Taken {
					x.Set("cempty", "1")
				} else {
					x.Set("cempty", "0")
				}
			case e.Cond.Op == "has" && e.Taken:
				lk := x.ts.mk("lk", "", e.Cond.ID, e.Cond.A...)
				for _, k := range []string{"blame", "line"} {
					if x.HasTag("memo:"+k, e.Cond.A[0]) || x.memoOf(e.Cond.A[0]) == k {
						x.Retag("hit:"+k, lk)
						x.Tag("memo:"+k, e.Cond.A[0])
					}
				}
				if isHashOf(e.Cond.A[1]) != nil {
					x.Retag("written", e.Cond.A[1])
				}
			case e.Cond.Op == "lk" && e.Taken:
				if isHashOf(e.Cond.A[1]) != nil {
					x.Retag("written", e.Cond.A[1])
				}
			case e.Cond.Op == "eq" && !e.Taken && e.Cond.A[0].Op == "lk" && e.Cond.A[1].IsConst() && e.Cond.A[1].S == "0":
				lk := e.Cond.A[0]
				for _, k := range []string{"blame", "line"} {
					if x.HasTag("memo:"+k, lk.A[0]) || x.memoOf(lk.A[0]) == k {
						x.Retag("hit:"+k, lk)
						x.Tag("memo:"+k, lk.A[0])
					}
				}
			}
		case EvMapSet:
			mt, ok := types.Unalias(e.Ins.(*ssa.MapUpdate).Map.Type()).Underlying().(*types.Map)
			if !ok {
				return
			}
			if k := kindOf(mt.Key()); k != "" {
				c.Count("numbers given", 1)
				pending(x, e, k)
				x.Tag("memo:"+k, e.Map)
				v := e.Val
				ok := false
				if v.Op == "b" && v.S == "+" {
					if n, isInt := v.A[1].Int(); isInt && n > 0 {
						b := v.A[0]
						if x.Get("given:"+k) == "" {
							m, isConst := b.Int()
							ok = isConst && m >= 0 || x.HasTag("start:"+k, b) || x.zeroStart(b)
						} else {
							ok = x.HasTag("lastid:"+k, b)
						}
						if b.Op == "len" && b.A[0] == e.Map {
							ok = true
						}
					}
				}
				if n, isInt := v.Int(); isInt && n > 0 && x.Get("given:"+k) == "" {
					ok = true
				}
				if !ok {
					x.Violate("number of "+k, e.Pos(), "the number given to an object ("+k+") may be 0 or one that was already given: "+v.Canon())
				}
				x.Set("given:"+k, "1")
				x.Retag("lastid:"+k, v)
				x.Retag("idV:"+k, v)
				x.Retag("idK:"+k, e.Key)
				x.Set("pend:"+k, "1")
				return
			}
			if isHashOf(e.Key) != nil {
				pending(x, e, "data")
				if !x.HasTag("datarec", e.Key) {
					x.Set("pend:data", "1")
				}
				x.Retag("written", e.Key)
				return
			}
		case EvMapDel:
			x.Violate("memo shrinks", e.Pos(), "an entry is deleted while a checkpoint is written")
		case EvAppend:
			if !x.HasTag("plist", e.Args[0]) {
				if x.Get("appended") != "" || !x.freshList(e.Args[0]) {
					// another list
					s, ok := types.Unalias(e.Ins.(ssa.Value).Type()).Underlying().(*types.Slice)
					if ok && types.TypeString(s.Elem(), nil) == "uint64" {
						x.Violate("list of lines", e.Pos(), "line numbers are appended to another list than the one of this file")
					}
					return
				}
			}
			el, ok := x.Elems(e.Args[1])
			if !ok || len(el) != 1 {
				return
			}
			if s, ok := types.Unalias(e.Ins.(ssa.Value).Type()).Underlying().(*types.Slice); !ok || types.TypeString(s.Elem(), nil) != "uint64" {
				return
			}
			c.Count("line numbers appended", 1)
			for _, l := range x.Tagged("curline") {
				if !id(x, "line", el[0], l) {
					x.Violate("line number", e.Pos(), "the number appended for a line is not the number of that line: "+el[0].Canon())
				}
			}
			if x.Get("lp") != "need" {
				x.Violate("line number twice", e.Pos(), "more than one number is appended for a line")
			}
			x.Set("lp", "ok")
			x.Set("appended", "1")
			x.Retag("plist", e.Res)
		case EvStore:
			// entry by index
			if e.Addr.Op == "ia" && types.TypeString(storeType(e), nil) == "uint64" {
				for _, l := range x.Tagged("curline") {
					if l.Op == "el" && l.A[1] == e.Addr.A[1] && e.Addr.A[0].Op == "mslice" && e.Addr.A[0].A[0].Op == "len" && e.Addr.A[0].A[0].A[0] == l.A[0] {
						if !id(x, "line", e.Val, l) {
							x.Violate("line number", e.Pos(), "the number stored for a line is not the number of that line: "+e.Val.Canon())
						}
						x.Set("lp", "ok")
						x.Retag("plist", e.Addr.A[0])
					}
				}
			}
		case EvCall:
			streamEvents(x, e, fn)
		case EvPre:
			if !strings.HasSuffix(e.Name, ").EncodeMsg") || len(e.Args) < 2 {
				return
			}
			obj := e.Args[0]
			rec, st := diskRec(obj)
			if rec == "" {
				x.Violate("record", e.Pos(), "a record of unknown type is written")
				return
			}
			c.Count("records written", 1)
			file := x.Get("p:" + e.Args[1].key)
			if streams[file] == nil {
				streams[file] = map[string]bool{}
			}
			streams[file][rec] = true
			val := map[string]*Term{}
			var fields []string
			for i := 0; i < st.NumFields(); i++ {
				f := st.Field(i)
				val[f.Name()] = x.Load(x.ts.mk("fa", f.Name(), "", obj), f.Type())
				fields = append(fields, f.Name())
			}
			find := func(want func(t *Term) bool) (string, *Term) {
				for _, f := range fields {
					if want(val[f]) {
						return f, val[f]
					}
				}
				return "", nil
			}
			switch rec {
			case "DataRow":
				d1, kc := find(func(t *Term) bool { return t.Op == "mkey" && t.A[0] == repo })
				if kc == nil {
					x.Violate("row commit", e.Pos(), "a row is written without the commit of the current round")
					return
				}
				files := x.ts.mk("mval", "", kc.ID, repo)
				table.set(c, x, e, "writer", "row commit", d1)
				d2, kp := find(func(t *Term) bool { return t.Op == "mkey" && t.A[0] == files })
				d3 := ""
				for i := 0; i < st.NumFields(); i++ {
					if b, ok := st.Field(i).Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
						d3 = st.Field(i).Name()
					}
				}
				if d3 == "" {
					x.Violate("row pointer", e.Pos(), "a row has no number")
					return
				}
				if n, ok := val[d3].Int(); ok && n == 0 {
					c.Count("rows of commits without files", 1)
					if v, ok := x.IsEmpty(files); !(ok && v) && x.Get("cempty") != "1" {
						x.Violate("empty row", e.Pos(), "a row without file is written for a commit that may have files")
					}
					x.Set("anyrow", "1")
					return
				}
				if kp == nil {
					x.Violate("row path", e.Pos(), "a row is written without the path of the current file of the current commit")
					return
				}
				table.set(c, x, e, "writer", "row path", d2)
				file := x.ts.mk("mval", "", kp.ID, files)
				if !id(x, "blame", val[d3], file) {
					x.Violate("row blame", e.Pos(), "a row names another number than the one of its file: "+val[d3].Canon())
				}
				table.set(c, x, e, "writer", "row blame", d3)
				x.Set("frow", "ok")
				x.Set("anyrow", "1")
			case "Blame", "Line":
				kind := strings.ToLower(rec)
				var k *Term
				for _, t := range x.Tagged("idK:" + kind) {
					k = t
				}
				d, _ := find(func(t *Term) bool { return x.HasTag("idV:"+kind, t) })
				if k == nil || d == "" {
					// the number may be noted afterwards
					x.Violate("number of record "+kind, e.Pos(), "a record is written ("+kind+") without the number its object was given")
					return
				}
				table.set(c, x, e, "writer", rec+" number", d)
				fs := blameF
				if rec == "Line" {
					fs = lineF
				}
				for _, f := range fs {
					want := x.ts.Field(k, f)
					d, _ := find(func(t *Term) bool { return t == want })
					if d == "" && rec == "Line" {
						var h *Term
						d, h = find(func(t *Term) bool { return isHashOf(t) == want })
						if d != "" && !x.HasTag("written", h) {
							x.Violate("data of a line", e.Pos(), "a line refers to contents that may not have been written")
						}
					}
					if d == "" {
						x.Violate("field "+rec+"."+f, e.Pos(), "a record is written ("+rec+") without the "+f+" of its object")
						continue
					}
					table.set(c, x, e, "writer", rec+"."+f, d)
				}
				if rec == "Blame" {
					d, _ := find(func(t *Term) bool { return x.HasTag("plist", t) })
					if d == "" && x.Get("appended") == "" {
						// no lines in this file
						for i := 0; i < st.NumFields(); i++ {
							if s, ok := st.Field(i).Type().Underlying().(*types.Slice); ok && types.TypeString(s.Elem(), nil) == "uint64" && (x.freshList(val[st.Field(i).Name()]) || x.unfilled("plist", val[st.Field(i).Name()], x.ts.Field(k, list))) {
								d = "-"
							}
						}
					}
					switch {
					case d == "":
						x.Violate("lines of a blame", e.Pos(), "a blame is written without the list of the numbers of its lines")
					case x.Get("lines") != "done" || !x.HasTag("lineowner", k):
						x.Violate("lines of a blame", e.Pos(), "a blame is written before all its lines were")
					case d != "-":
						table.set(c, x, e, "writer", "Blame."+list, d)
					}
				}
				x.Set("pend:"+kind, "")
			case "LineData":
				d, h := find(func(t *Term) bool { return isHashOf(t) != nil })
				if h == nil {
					x.Violate("number of data", e.Pos(), "contents are written without their hash")
					return
				}
				d2, _ := find(func(t *Term) bool { return t == isHashOf(h) })
				if d2 == "" {
					x.Violate("data", e.Pos(), "contents are written under the hash of other contents")
					return
				}
				table.set(c, x, e, "writer", "data number", d)
				table.set(c, x, e, "writer", "data contents", d2)
				x.Retag("datarec", h)
				x.Retag("written", h)
				x.Set("pend:data", "")
			default:
				x.Violate("record "+rec, e.Pos(), "a record of unknown type is written: "+rec)
			}
		case EvReturn:
			if v, ok := x.IsNil(e.Args[len(e.Args)-1]); ok && !v {
				return
			}
			pending(x, e, "blame", "line", "data")
			if x.Get("all") == "" {
				x.Violate("all commits", e.Pos(), "the writer ends with success without having gone through all commits")
			}
		}
		_ = str
	}
	r.Init = func(x *X) {}
	c.Sim("writer", fn, r, nil)
	c.Min("records written", 4)
	c.Min("numbers given", 2)
	c.Min("rows of commits without files", 1)
	c.Min("rounds over commits", 1)
}

// memoOf: the kind of objects a map made by the code numbers.
func (x *X) memoOf(m *Term) string {
	v, ok := m.V.(ssa.Value)
	if !ok || v == nil {
		return ""
	}
	mt, ok := types.Unalias(v.Type()).Underlying().(*types.Map)
	if !ok {
		return ""
	}
	return kindOf(mt.Key())
}

// isHashOf: what a content hash was computed of.
func isHashOf(t *Term) *Term {
	if t != nil && t.Op == "call" && len(t.A) == 1 && (strings.Contains(t.S, "xxhash.Sum64") || strings.HasPrefix(t.S, "crypto/") || strings.HasPrefix(t.S, "hash/")) {
		return t.A[0]
	}
	return nil
}

// freshList: a list made here without elements.
func (x *X) freshList(t *Term) bool {
	if v, ok := x.IsEmpty(t); ok && v {
		return true
	}
	if t.IsConst() && t.S == "nil" {
		return true
	}
	if t.Op == "mslice" {
		n, ok := t.A[0].Int()
		return ok && n == 0
	}
	if t.Op == "sl" && t.A[0].Op == "new" && t.A[2] != nil {
		n, ok := t.A[2].Int() // make with a constant capacity
		return ok && n == 0
	}
	return false
}

// zeroStart: a loop variable that was 0 or more before the loop and was not counted yet.
func (x *X) zeroStart(t *Term) bool {
	if v, ok := x.KnownCond(x.ts.mk("eq", "", "", t, x.ts.IntConst(0))); ok && v {
		return true
	}
	if v, ok := x.KnownCond(x.ts.mk("lt", "", "", t, x.ts.IntConst(0))); ok && !v {
		return true
	}
	return false
}

func (c *Ctx) c12Read(fn *ssa.Function, table c12Table, streams map[string]map[string]bool) {
	p := c.p
	blameF, list := c.stateFields("Blame")
	lineF, _ := c.stateFields("Line")
	repoT := p.SPkgs[mp(repoPkg)].Type("Repo").Type()
	r := &Rule{Name: "reader", NoLoads: true, MaxState: 200000}
	r.Inline = func(x *X, f *ssa.Function, call ssa.CallInstruction) bool { return fnPkgPath(f) == mp(repoPkg) }
	dropped := func(x *X, e *Event) {
		if x.Get("rec") != "" && x.Get("done") == "need" {
			x.Violate("dropped "+x.Get("rec"), e.Pos(), "a record of type "+x.Get("rec")+" is read and not restored")
		}
		x.Set("done", "")
	}
	seen := map[string]bool{}
	r.OnEvent = func(x *X, e *Event) {
		rec := x.Get("rec")
		var obj *Term
		for _, t := range x.Tagged("obj") {
			obj = t
		}
		var st *types.Struct
		if obj != nil {
			_, st = diskRec(obj)
		}
		// fieldOf: the disk field of the current record that t is
		fieldOf := func(t *Term) string {
			if st == nil {
				return ""
			}
			for i := 0; i < st.NumFields(); i++ {
				if x.Load(x.ts.mk("fa", st.Field(i).Name(), "", obj), st.Field(i).Type()) == t {
					return st.Field(i).Name()
				}
			}
			return ""
		}
		switch e.Kind {
		case EvCall:
			streamEvents(x, e, fn)
			if !strings.HasSuffix(e.Name, ").DecodeMsg") || len(e.Args) < 2 {
				return
			}
			dropped(x, e)
			o := e.Args[0]
			name, ost := diskRec(o)
			if name == "" {
				x.Violate("record", e.Pos(), "a record of unknown type is read")
				return
			}
			c.Count("records read", 1)
			seen[name] = true
			file := x.Get("p:" + e.Args[1].key)
			if streams[file] == nil {
				streams[file] = map[string]bool{}
			}
			streams[file][name] = true
			x.Set("rec", name)
			x.Retag("obj", o)
			x.Retag("err", e.Res)
			for _, k := range []string{"zero", "ensured", "absent", "appended", "lines", "lp", "coll"} {
				x.Set(k, "")
			}
			x.Untag("plist")
			for i := 0; i < ost.NumFields(); i++ {
				if isByteSlice(ost.Field(i).Type()) && !p.freshInLoop(x, o, e.Ins) {
					x.Violate("reused record", e.Pos(), "records of type "+name+" are all read into the same object, whose buffer earlier records still use")
				}
			}
		case EvBranch:
			cd := e.Cond
			switch {
			case cd.Op == "isnil" && x.HasTag("err", cd.A[0]):
				if e.Taken {
					x.Set("done", "need")
				} else {
					x.Set("done", "")
					x.Set("end:"+rec, "1")
				}
			case (cd.Op == "eq" && cd.A[1].IsConst() && cd.A[1].S == "0" || cd.Op == "lt" && cd.A[1].IsConst() && cd.A[1].S == "1") && rec == "DataRow" && e.Taken:
				if f := fieldOf(cd.A[0]); f != "" {
					x.Set("zero", "1")
					table.set(c, x, e, "reader", "row blame", f)
				}
			case cd.Op == "has" && rec == "DataRow" && x.isRepo(cd.A[0], repoT) && fieldOf(cd.A[1]) != "":
				if e.Taken {
					x.Set("ensured", "1")
				} else {
					x.Set("absent", "1")
				}
			case cd.Op == "isnil" && cd.A[0].Op == "lk" && rec == "DataRow" && x.isRepo(cd.A[0].A[0], repoT) && fieldOf(cd.A[0].A[1]) != "":
				if e.Taken {
					x.Set("absent", "1")
				} else {
					x.Set("ensured", "1")
				}
			}
			if x.Get("zero") != "" && x.Get("ensured") != "" && x.Get("done") == "need" {
				x.Set("done", "ok")
			}
		case EvMapSet:
			mt, ok := types.Unalias(e.Ins.(*ssa.MapUpdate).Map.Type()).Underlying().(*types.Map)
			if !ok || obj == nil {
				return
			}
			switch {
			case isByteSlice(mt.Elem()):
				k, v := fieldOf(e.Key), fieldOf(e.Val)
				if rec != "LineData" || k == "" || v == "" {
					x.Violate("restored data", e.Pos(), "contents are restored from something else than the record just read")
					return
				}
				table.set(c, x, e, "reader", "data number", k)
				table.set(c, x, e, "reader", "data contents", v)
				x.Tag("MD", e.Map)
				x.Set("done", "ok")
			case kindOf(mt.Elem()) != "" && types.TypeString(mt.Key(), nil) == "uint64":
				kind := kindOf(mt.Elem())
				name := strings.ToUpper(kind[:1]) + kind[1:]
				k := fieldOf(e.Key)
				if rec != name || k == "" || e.Val.Op != "new" {
					x.Violate("restored "+kind, e.Pos(), "an object ("+kind+") is restored from something else than the record just read")
					return
				}
				table.set(c, x, e, "reader", name+" number", k)
				fs := blameF
				if kind == "line" {
					fs = lineF
				}
				ost := structOf(mt.Elem())
				for i := 0; i < ost.NumFields(); i++ {
					f := ost.Field(i).Name()
					v := x.Load(x.ts.mk("fa", f, "", e.Val), ost.Field(i).Type())
					if f == list && kind == "blame" {
						if !x.HasTag("plist", v) && !(x.Get("appended") == "" && (x.freshList(v) || x.Get("coll") != "" && v.Op == "mslice" && len(x.Tagged("plist")) == 0 && v.A[0].Op == "len" && v.A[0].A[0].key == x.Get("coll"))) || x.Get("lines") != "done" {
							x.Violate("restored list", e.Pos(), "a blame is restored before or without all its lines")
						}
						continue
					}
					for _, g := range fs {
						if g != f {
							continue
						}
						d := fieldOf(v)
						if d == "" && v.Op == "lk" && x.isMade("MD", v.A[0]) {
							d = fieldOf(v.A[1])
						}
						if d == "" {
							x.Violate("restored "+name+"."+f, e.Pos(), name+"."+f+" is not restored from the record: "+v.Canon())
							continue
						}
						table.set(c, x, e, "reader", name+"."+f, d)
					}
				}
				x.Tag("M:"+kind, e.Map)
				x.Set("done", "ok")
			case types.Identical(types.Unalias(e.Ins.(*ssa.MapUpdate).Map.Type()), repoT) || x.HasTag("repo", e.Map):
				x.Tag("repo", e.Map)
				k := fieldOf(e.Key)
				if rec != "DataRow" || k == "" {
					x.Violate("restored commit", e.Pos(), "a commit is restored from something else than the record just read")
					return
				}
				table.set(c, x, e, "reader", "row commit", k)
				if v, ok := x.IsEmpty(e.Val); !(ok && v) {
					x.Violate("restored commit", e.Pos(), "a commit is restored with something else than a new map of files")
				}
				if x.Get("absent") == "" {
					x.Violate("commit replaced", e.Pos(), "the files of a commit restored so far are replaced")
				}
				x.Set("ensured", "1")
				x.Retag("files", e.Val)
				if x.Get("zero") != "" && x.Get("done") == "need" {
					x.Set("done", "ok")
				}
			case kindOf(mt.Elem()) == "blame":
				// a file of a commit
				m := e.Map
				ok := x.HasTag("files", m) || m.Op == "lk" && x.isRepo(m.A[0], repoT) && fieldOf(m.A[1]) != ""
				if m.Op == "lk" && ok {
					table.set(c, x, e, "reader", "row commit", fieldOf(m.A[1]))
				}
				k := fieldOf(e.Key)
				if rec != "DataRow" || !ok || k == "" {
					x.Violate("restored file", e.Pos(), "a file is restored under another commit or path than its record names")
					return
				}
				table.set(c, x, e, "reader", "row path", k)
				v := e.Val
				d := ""
				if v.Op == "lk" && x.isMade("M:blame", v.A[0]) {
					d = fieldOf(v.A[1])
				}
				if d == "" {
					x.Violate("restored file", e.Pos(), "a file is not restored with the blame its record names: "+v.Canon())
					return
				}
				table.set(c, x, e, "reader", "row blame", d)
				x.Set("done", "ok")
			}
		case EvLookup:
			if obj != nil && rec == "DataRow" && x.isRepo(e.Map, repoT) {
				x.Tag("repo", e.Map)
			}
		case EvIter:
			if rec == "Blame" && st != nil && e.IKind != "map" && e.IKind != "chan" {
				if f := fieldOf(e.Coll); f != "" {
					if e.IKind != "slice" {
						x.Violate("restored lines", e.Pos(), "the lines of a blame are not restored from the first to the last")
						return
					}
					if x.Get("lp") == "need" {
						x.Violate("restored line", e.Pos(), "a line of a blame is not restored")
					}
					x.Set("lp", "")
					if e.Taken {
						x.Set("lp", "need")
						x.Retag("curlp", x.ts.mk("el", "", "", e.Coll, e.Elem))
					} else {
						x.Set("lines", "done")
						x.Set("coll", e.Coll.key)
					}
					table.set(c, x, e, "reader", "Blame."+list, f)
				}
			}
		case EvAppend:
			s, ok := types.Unalias(e.Ins.(ssa.Value).Type()).Underlying().(*types.Slice)
			if !ok || kindOf(s.Elem()) != "line" || rec != "Blame" {
				return
			}
			if !x.HasTag("plist", e.Args[0]) && (x.Get("appended") != "" || !x.freshList(e.Args[0])) {
				x.Violate("restored list", e.Pos(), "lines are appended to another list than the one of this blame")
				return
			}
			c.Count("lines restored", 1)
			el, ok := x.Elems(e.Args[1])
			good := ok && len(el) == 1 && el[0].Op == "lk" && x.isMade("M:line", el[0].A[0]) && x.HasTag("curlp", el[0].A[1]) && x.Get("lp") == "need"
			if !good {
				x.Violate("restored line", e.Pos(), "what is appended to a blame is not the line its record names at this place")
			}
			x.Set("lp", "ok")
			x.Set("appended", "1")
			x.Retag("plist", e.Res)
		case EvStore:
			if e.Addr.Op == "ia" && rec == "Blame" && kindOf(storeType(e)) == "line" {
				b := e.Addr.A[0]
				for _, l := range x.Tagged("curlp") {
					if b.Op == "mslice" && b.A[0].Op == "len" && b.A[0].A[0] == l.A[0] && e.Addr.A[1] == l.A[1] {
						if !(e.Val.Op == "lk" && x.isMade("M:line", e.Val.A[0]) && e.Val.A[1] == l) {
							x.Violate("restored line", e.Pos(), "what is stored in a blame is not the line its record names at this place")
						}
						c.Count("lines restored", 1)
						x.Set("lp", "ok")
						x.Retag("plist", b)
					}
				}
			}
		case EvReturn:
			if v, ok := x.IsNil(e.Args[len(e.Args)-1]); ok && !v {
				return
			}
			if v, ok := x.IsNil(e.Args[0]); ok && v {
				return
			}
			dropped(x, e)
			for _, n := range []string{"DataRow", "Blame", "Line", "LineData"} {
				if x.Get("end:"+n) == "" {
					x.Violate("not read "+n, e.Pos(), "the state is returned without having read the records of type "+n+" to the end")
				}
			}
			c.Count("states returned", 1)
		}
	}
	c.Sim("reader", fn, r, nil)
	c.Min("records read", 4)
	c.Min("states returned", 1)
	c.Min("lines restored", 1)
}

// unfilled: a list made as long as another, of which no entry was set.
func (x *X) unfilled(tag string, t, of *Term) bool {
	return t.Op == "mslice" && t.A[0].Op == "len" && t.A[0].A[0] == of && len(x.Tagged(tag)) == 0
}

// isMade: the map the code fills for this purpose, or one made while that is still empty.
func (x *X) isMade(tag string, m *Term) bool {
	return x.HasTag(tag, m) || m.Op == "mmap" && len(x.Tagged(tag)) == 0
}

func (x *X) isRepo(t *Term, repoT types.Type) bool {
	if x.HasTag("repo", t) {
		return true
	}
	if v, ok := t.V.(ssa.Value); ok && v != nil {
		return types.Identical(types.Unalias(v.Type()), repoT)
	}
	return false
}

// freshInLoop: the object is made anew for every time the call is made.
func (p *Prog) freshInLoop(x *X, o *Term, call ssa.Instruction) bool {
	if o.Op != "new" {
		return false
	}
	al, ok := o.V.(*ssa.Alloc)
	if !ok {
		return false
	}
	// the frames of the call, up to the function that makes the object
	ins := call
	for fr := x.St.frame; fr != nil; fr = fr.parent {
		if ins.Parent() == al.Parent() {
			for _, body := range p.Loops(al.Parent()).header {
				if body[ins.Block()] && !body[al.Block()] {
					return false
				}
			}
			return true
		}
		for _, body := range p.Loops(ins.Parent()).header {
			if body[ins.Block()] {
				return false
			}
		}
		if fr.site == nil {
			break
		}
		ins = fr.site
	}
	return true // made in a helper of its own
}

// codecs: the generated encoders and decoders agree on keys, kinds and counts.
func (c *Ctx) codecs(recs map[string]bool) {
	p := c.p
	var names []string
	for r := range recs {
		names = append(names, r)
	}
	sort.Strings(names)
	for _, rec := range names {
		enc := c.Must(diskPkg, rec+".EncodeMsg")
		dec := c.Must(diskPkg, rec+".DecodeMsg")
		if enc == nil || dec == nil {
			continue
		}
		st, _ := p.SPkgs[mp(diskPkg)].Type(rec).Type().Underlying().(*types.Struct)
		et, dt := map[string]string{}, map[string]string{} // key -> field:kind
		c.encoder(rec, enc, et)
		c.decoder(rec, dec, dt)
		have := map[string]bool{}
		var keys []string
		for k := range et {
			keys = append(keys, k)
		}
		for k := range dt {
			if et[k] == "" {
				keys = append(keys, k)
			}
		}
		sort.Strings(keys)
		for _, k := range keys {
			c.Count("codec entries compared", 1)
			if et[k] != dt[k] {
				c.Violate(rec+" key "+k, enc.Pos(), "the key %q of %s is encoded from %q and decoded into %q", k, rec, et[k], dt[k])
			}
			f := et[k]
			if i := strings.IndexByte(f, ':'); i >= 0 {
				f = f[:i]
			}
			if have[f] {
				c.Violate(rec+" field "+f, enc.Pos(), "the field %s of %s is encoded twice", f, rec)
			}
			have[f] = true
		}
		for i := 0; i < st.NumFields(); i++ {
			if !have[st.Field(i).Name()] {
				c.Violate(rec+" field "+st.Field(i).Name(), enc.Pos(), "the field %s of %s is not encoded", st.Field(i).Name(), rec)
			}
		}
	}
	c.Min("codec entries compared", 4)
}

// msgpKey reads a literal map header and string keys.
func msgpKeys(b string) (hdr int, key string, ok bool) {
	hdr = -1
	if len(b) > 0 && b[0]&0xf0 == 0x80 {
		hdr = int(b[0] & 0xf)
		b = b[1:]
	}
	if len(b) > 0 && b[0]&0xe0 == 0xa0 && int(b[0]&0x1f) == len(b)-1 {
		return hdr, b[1:], true
	}
	return hdr, "", len(b) == 0
}

func (c *Ctx) encoder(rec string, fn *ssa.Function, table map[string]string) {
	r := &Rule{Name: "encoder", NoLoads: true}
	r.OnEvent = func(x *X, e *Event) {
		z := x.ParamTerm(0)
		field := func(t *Term) string {
			if t.Op == "f" && t.A[0] == z {
				return t.S
			}
			return ""
		}
		note := func(f, kind string) {
			k := x.Get("key")
			if k == "" || f == "" {
				x.Violate("value", e.Pos(), "a value of "+rec+" is encoded without a key or from something else than its field")
				return
			}
			table[k] = f + ":" + kind
			x.Set("done:"+k, "1")
			x.Set("key", "")
		}
		switch e.Kind {
		case EvCall:
			m := e.Name
			if !strings.HasPrefix(m, "(*github.com/tinylib/msgp/msgp.Writer).") {
				return
			}
			m = m[strings.LastIndexByte(m, '.')+1:]
			switch m {
			case "Append":
				el, ok := x.Elems(e.Args[1])
				b := ""
				for _, t := range el {
					n, isInt := t.Int()
					ok = ok && isInt
					b += string([]byte{byte(n)})
				}
				hdr, key, good := msgpKeys(b)
				if !ok || !good {
					x.Violate("key", e.Pos(), "a key of "+rec+" cannot be read")
					return
				}
				c.keyEvent(x, e, rec, hdr, key)
			case "WriteMapHeader":
				n, _ := e.Args[1].Int()
				c.keyEvent(x, e, rec, int(n), "")
			case "WriteString":
				if s, ok := e.Args[1].Str(); ok && x.Get("key") == "" {
					c.keyEvent(x, e, rec, -1, s)
					return
				}
				note(field(e.Args[1]), "String")
			case "WriteArrayHeader":
				l := e.Args[1]
				if l.Op != "len" || field(l.A[0]) == "" {
					x.Violate("list", e.Pos(), "the count of a list of "+rec+" is not its length")
					return
				}
				x.Set("list", field(l.A[0]))
			case "Flush":
			default:
				if l := x.Get("list"); l != "" && e.Args[1].Op == "el" && field(e.Args[1].A[0]) == l {
					if x.Get("el") != "need" || !x.HasTag("cur", e.Args[1]) {
						x.Violate("list element", e.Pos(), "the elements of a list of "+rec+" are not encoded one by one")
					}
					x.Set("el", "ok")
					x.Set("elkind", strings.TrimPrefix(m, "Write"))
					return
				}
				note(field(e.Args[1]), strings.TrimPrefix(m, "Write"))
			}
		case EvIter:
			l := x.Get("list")
			if l == "" || field(e.Coll) != l {
				return
			}
			if x.Get("el") == "need" || e.IKind != "slice" {
				x.Violate("list element", e.Pos(), "an element of a list of "+rec+" is not encoded")
			}
			if e.Taken {
				x.Set("el", "need")
				x.Retag("cur", x.ts.mk("el", "", "", e.Coll, e.Elem))
			} else {
				k := x.Get("elkind")
				x.Set("el", "")
				x.Set("list", "")
				if k == "" {
					k = strings.TrimPrefix(table[x.Get("key")], l+":[]")
					if k != "" {
						note(l, "[]"+k)
					} else {
						x.Set("done:"+x.Get("key"), "1")
						x.Set("key", "")
					}
					return
				}
				note(l, "[]"+k)
			}
		case EvReturn:
			if v, ok := x.IsNil(e.Args[0]); ok && !v {
				return
			}
			n := 0
			for k := range x.St.auto {
				if strings.HasPrefix(k, "done:") {
					n++
				}
			}
			if x.Get("key") != "" || x.Get("hdr") != itoa(n) {
				x.Violate("count", e.Pos(), "the header of "+rec+" announces "+x.Get("hdr")+" entries, "+itoa(n)+" are encoded")
			}
			c.Count("encoders", 1)
		}
	}
	c.Sim("encoder of "+rec, fn, r, nil)
}

func (c *Ctx) keyEvent(x *X, e *Event, rec string, hdr int, key string) {
	if hdr >= 0 {
		if x.Get("hdr") != "" {
			x.Violate("header", e.Pos(), "a second header is written for "+rec)
		}
		x.Set("hdr", itoa(hdr))
	}
	if key != "" {
		if x.Get("key") != "" {
			x.Violate("key without value", e.Pos(), "a key of "+rec+" is written without its value: "+x.Get("key"))
		}
		if x.Get("done:"+key) != "" {
			x.Violate("key twice", e.Pos(), "the key "+key+" of "+rec+" is written twice")
		}
		x.Set("key", key)
	}
}

func (c *Ctx) decoder(rec string, fn *ssa.Function, table map[string]string) {
	r := &Rule{Name: "decoder", NoLoads: true}
	r.OnEvent = func(x *X, e *Event) {
		z := x.ParamTerm(0)
		flush := func() {
			if k := x.Get("key"); k != "" && x.Get("val") != "done" {
				x.Violate("value of "+k, e.Pos(), "the value of the key "+k+" of "+rec+" is not stored")
			}
			x.Set("key", "")
			x.Set("val", "")
		}
		switch e.Kind {
		case EvCall:
			if strings.HasPrefix(e.Name, "(*github.com/tinylib/msgp/msgp.Reader).Read") {
				m := e.Name[strings.LastIndexByte(e.Name, '.')+1:]
				switch m {
				case "ReadMapHeader":
					x.Retag("count", x.ts.mk("x", "0", "", e.Res))
					x.Set("hdr", "1")
				case "ReadMapKeyPtr", "ReadMapKey", "ReadString":
					if m != "ReadString" || x.Get("key") == "" {
						flush()
						x.Retag("field", x.ts.mk("x", "0", "", e.Res))
						return
					}
					x.Retag("read:String", x.ts.mk("x", "0", "", e.Res))
				case "ReadArrayHeader":
					x.Retag("len", x.ts.mk("x", "0", "", e.Res))
				default:
					k := strings.TrimPrefix(m, "Read")
					for _, o := range []string{"Uint64", "String", "Bool", "Bytes", "Int64"} {
						x.Untag("read:" + o)
					}
					x.Retag("read:"+k, x.ts.mk("x", "0", "", e.Res))
				}
			}
		case EvBranch:
			if e.Cond.Op == "eq" && e.Taken {
				a := e.Cond.A[0]
				if a.Op == "call" && len(a.A) == 1 {
					a = a.A[0]
				}
				if s, ok := e.Cond.A[1].Str(); ok && x.HasTag("field", a) {
					x.Set("key", s)
				}
			}
			if e.Cond.Op == "eq" && len(e.Cond.A) == 2 && e.Cond.A[0].Op == "call" && e.Taken {
				if s, ok := e.Cond.A[1].Str(); ok && strings.Contains(e.Cond.A[0].S, "UnsafeString") {
					x.Set("key", s)
				}
			}
		case EvStore:
			f := ""
			if e.Addr.Op == "fa" && e.Addr.A[0] == z {
				f = e.Addr.S
			}
			k := x.Get("key")
			if f != "" {
				for _, o := range []string{"Uint64", "String", "Bool", "Bytes", "Int64"} {
					if x.HasTag("read:"+o, e.Val) {
						if k == "" {
							x.Violate("value", e.Pos(), "a value of "+rec+" is stored without a key")
							return
						}
						table[k] = f + ":" + o
						x.Set("val", "done")
						return
					}
				}
				// a list of the announced length
				v := e.Val
				good := v.Op == "mslice" && x.HasTag("len", v.A[0]) || v.Op == "sl" && v.A[1] == nil && v.A[2] != nil && x.HasTag("len", v.A[2])
				if !good {
					x.Violate("stored "+f, e.Pos(), "the field "+f+" of "+rec+" is set to something else than what was read: "+v.Canon())
					return
				}
				x.Set("list", f)
				x.Retag("listval", v)
				x.Set("el", "")
				return
			}
			if e.Addr.Op == "ia" && x.Get("list") != "" && x.HasTag("listval", e.Addr.A[0]) {
				for _, o := range []string{"Uint64", "String", "Bool"} {
					if x.HasTag("read:"+o, e.Val) {
						if x.Get("el") != "need" || !x.HasTag("curidx", e.Addr.A[1]) {
							x.Violate("list element", e.Pos(), "the elements of a list of "+rec+" are not decoded one by one")
						}
						x.Set("el", "ok")
						table[k] = x.Get("list") + ":[]" + o
					}
				}
			}
		case EvIter:
			if x.Get("list") != "" && x.HasTag("listval", e.Coll) {
				if e.IKind != "slice" || x.Get("el") == "need" {
					x.Violate("list element", e.Pos(), "an element of a list of "+rec+" is not decoded")
				}
				if e.Taken {
					x.Set("el", "need")
					x.Retag("curidx", e.Elem)
				} else {
					x.Set("el", "")
					x.Set("list", "")
					x.Set("val", "done")
				}
			}
		case EvReturn:
			if v, ok := x.IsNil(e.Args[0]); ok && !v {
				return
			}
			flush()
			c.Count("decoders", 1)
			if x.Get("hdr") == "" {
				x.Violate("header", e.Pos(), "the number of entries of "+rec+" is not read")
			}
		}
	}
	c.Sim("decoder of "+rec, fn, r, nil)
}
