package main

import (
	"go/token"
	"go/types"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const commitMetaPkg = "ripsrc/commitmeta"

func init() {
	register("C24", "The reader of git's commit log is followed over every kind of header line that its own --pretty format produces, in every state it can be in when such a line comes (fixpoint over position in the log and state of the reader). Texts are abstract: constants and holes that stand for any content. After each line the fields of the current commit are compared with what the format says the line carries; each commit is sent once, when the next one starts or the log ends; its ordinal is one more than the one before.", func(c *Ctx) { c.commitLog(true) })
	register("C25", "The reader of git's commit log is followed over every kind of file line of git log -c --raw --numstat, in every state it can be in when such a line comes. Texts are abstract: constants and holes that stand for any content. After each line the records put into the file table of the commit, and their fields, are compared with what git means by the line. The status of every file record is that of the file in the metadata of the record's own commit.", func(c *Ctx) { c.commitLog(false); c.fileRecords() })
}

// lineKind is a kind of line of the log.
type lineKind struct {
	name   string
	text   string
	to     string // position after it
	header bool
	// header lines
	field string
	want  string // encoded value; "" if the field must stay unset
	// file lines
	num     bool
	binary  bool
	files   map[string]map[string]string // name -> field -> encoded value
	twoWays bool
	path    [2]string // numstat: the name if a file of that name is in the commit, else the other
}

type headerAtom struct{ prefix, atom string }

var atomFields = map[string]string{"H": "SHA", "P": "Parents", "ce": "CommitterEmail", "cn": "CommitterName", "ae": "AuthorEmail", "an": "AuthorName", "aI": "Date", "ai": "Date", "s": "Message"}

// prettyFormat finds the format that the log is read with.
func (c *Ctx) prettyFormat() (out []headerAtom) {
	found := map[string]token.Pos{}
	for _, fn := range c.p.Fns {
		if fnPkgPath(fn) != mp(commitMetaPkg) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				for _, o := range ins.Operands(nil) {
					k, ok := (*o).(*ssa.Const)
					if !ok || k.Value == nil {
						continue
					}
					s := constAval(k)
					for _, p := range []string{"--pretty=format:", "--pretty=tformat:", "--format="} {
						if s.K == 's' && strings.HasPrefix(s.S, p) {
							found[s.S[len(p):]] = instrPos(ins)
						}
					}
				}
			}
		}
	}
	if len(found) != 1 {
		c.Violate("format", 0, "found %d formats of the commit log, want one", len(found))
		return nil
	}
	re := regexp.MustCompile(`^([^%]+)%([A-Za-z]{1,2})$`)
	have := map[string]bool{}
	for f, pos := range found {
		f = strings.TrimPrefix(f, "format:")
		for i, l := range strings.Split(f, "%n") {
			if l == "" {
				continue
			}
			m := re.FindStringSubmatch(l)
			if m == nil || atomFields[m[2]] == "" {
				c.Violate("format", pos, "a header line of the commit log is not one known field after a constant: %s", l)
				return nil
			}
			if i == 0 && m[2] != "H" {
				c.Violate("format", pos, "the header of a commit does not start with its hash")
				return nil
			}
			have[atomFields[m[2]]] = true
			out = append(out, headerAtom{m[1], m[2]})
		}
		var miss []string
		for _, fld := range atomFields {
			if !have[fld] {
				miss = append(miss, fld)
			}
		}
		sort.Strings(miss)
		if len(miss) > 0 {
			c.Violate("format", pos, "the commit log does not ask git for %s", strings.Join(miss, ", "))
		}
	}
	return out
}

func hole(n int) string  { return string(rune(holeName + n)) }
func digit(n int) string { return string(rune(holeDigit + n)) }
func hex(n int) string   { return string(rune(holeHex + n)) }

func record(kv ...string) map[string]string {
	m := map[string]string{}
	for i := 0; i < len(kv); i += 2 {
		v := kv[i+1]
		switch v {
		case "true":
			m[kv[i]] = avB(true).enc()
		default:
			m[kv[i]] = avS(v).enc()
		}
	}
	return m
}

// logGrammar: which lines can come at which position.
func logGrammar(hdr []headerAtom) map[string][]*lineKind {
	g := map[string][]*lineKind{}
	afterHeader := func(i int) string {
		if i == len(hdr) {
			return "body"
		}
		return "after " + hdr[i-1].prefix
	}
	var sha *lineKind
	for i, h := range hdr {
		var kinds []*lineKind
		add := func(suffix, content string, want aval) {
			w := ""
			if want.K != 0 {
				w = want.enc()
			}
			kinds = append(kinds, &lineKind{name: "line " + strings.TrimSpace(h.prefix) + suffix, text: h.prefix + content, to: afterHeader(i + 1), header: true, field: atomFields[h.atom], want: w})
		}
		text := hole(1) + ": " + hole(2) + " <" + hole(3) + ">, [" + hole(4) + "] !" + hole(5) + " %" + hole(6)
		switch h.atom {
		case "H":
			add("", hex(1), avS(hex(1)))
			sha = kinds[0]
		case "P":
			add("", hex(2)+" "+hex(3)+" "+hex(4), avL([]string{hex(2), hex(3), hex(4)}))
			var many []string
			for i := 2; i < 15; i++ {
				many = append(many, hex(i))
			}
			add(" (thirteen)", strings.Join(many, " "), avL(many))
			add(" (one)", hex(2), avL([]string{hex(2)}))
			add(" (none)", "", aval{})
		case "aI", "ai":
			add("", hole(7), aval{K: 'o', S: "time " + goLayouts[h.atom] + "|" + hole(7)})
		default:
			add("", text, avS(text))
			add(" (in brackets)", "["+hole(1)+"]", avS("["+hole(1)+"]"))
			add(" (in angle brackets)", "<"+hole(1)+">", avS("<"+hole(1)+">"))
			add(" (quoted)", "\""+hole(1)+"\"", avS("\""+hole(1)+"\""))
			add(" (empty)", "", aval{})
		}
		if i > 0 {
			g[afterHeader(i)] = kinds
		}
	}
	g["start"] = []*lineKind{sha}
	var raw, num []*lineKind
	modes := ":100644 100644 " + hex(5) + " " + hex(6) + " "
	name := func(n int) string { return " " + hole(n) + " x  " + hole(n+1) }
	var a, b string
	addRaw := func(nm, head, letter string, paths []string, files map[string]map[string]string) {
		raw = append(raw, &lineKind{name: "raw line with status " + nm, text: head + letter + "\t" + strings.Join(paths, "\t"), to: "raw", files: files})
	}
	for _, v := range []func(int) string{name, hole} {
		a, b = v(1), v(3)
		for _, s := range []struct{ l, head, status string }{
			{"A", ":000000 100644 " + hex(5) + " " + hex(6) + " ", "added"},
			{"A", ":000000 100755 " + hex(5) + " " + hex(6) + " ", "added"},
			{"D", ":100644 000000 " + hex(5) + " " + hex(6) + " ", "removed"},
			{"D", ":120000 000000 " + hex(5) + " " + hex(6) + " ", "removed"},
			{"M", modes, "modified"},
			{"M", ":100644 100755 " + hex(5) + " " + hex(6) + " ", "modified"},
			{"T", ":120000 100644 " + hex(5) + " " + hex(6) + " ", "modified"},
		} {
			addRaw(s.l, s.head, s.l, []string{a}, map[string]map[string]string{a: record("Filename", a, "Status", s.status)})
		}
		for _, score := range []string{"100", "0" + digit(5)} {
			addRaw("R", modes, "R"+score, []string{a, b}, map[string]map[string]string{
				a: record("Filename", a, "Status", "removed", "Renamed", "true", "RenamedFrom", a, "RenamedTo", b),
				b: record("Filename", b, "Status", "added", "Renamed", "true", "RenamedFrom", a, "RenamedTo", b),
			})
			addRaw("C", modes, "C"+score, []string{a, b}, map[string]map[string]string{
				b: record("Filename", b, "Status", "added", "Copied", "true", "CopiedFrom", a),
			})
		}
		// symbolic links and submodules: no record
		for _, m := range []string{":000000 120000 ", ":000000 160000 "} {
			addRaw("A of something that is no file", m+hex(5)+" "+hex(6)+" ", "A", []string{a}, map[string]map[string]string{})
		}
	}
	addNum := func(nm, content, literal, other string) {
		for _, bin := range []bool{false, true} {
			counts, n := digit(1)+"\t"+digit(2)+"\t", nm
			if bin {
				counts, n = "-\t-\t", nm+" of a binary file"
			}
			num = append(num, &lineKind{name: n, text: counts + content, to: "num", num: true, binary: bin, path: [2]string{literal, other}})
		}
	}
	a = name(1)
	addNum("numstat line", a, a, a)
	addNum("numstat line", hole(1), hole(1), hole(1))
	addNum("numstat line of a rename", hole(1)+" => "+hole(2), hole(1)+" => "+hole(2), hole(2))
	addNum("numstat line of a rename within a directory", hole(1)+"/{"+hole(2)+" => "+hole(3)+"}/"+hole(4), hole(1)+"/{"+hole(2)+" => "+hole(3)+"}/"+hole(4), hole(1)+"/"+hole(3)+"/"+hole(4))
	addNum("numstat line of a move into a directory", hole(1)+"/{ => "+hole(3)+"}/"+hole(4), hole(1)+"/{ => "+hole(3)+"}/"+hole(4), hole(1)+"/"+hole(3)+"/"+hole(4))
	addNum("numstat line of a move out of a directory", hole(1)+"/{"+hole(2)+" => }/"+hole(4), hole(1)+"/{"+hole(2)+" => }/"+hole(4), hole(1)+"/"+hole(4))
	for _, t := range [][2]string{{hole(1) + "/{" + hole(2) + " => " + hole(3) + "}/" + hole(4) + "}" + hole(5), hole(1) + "/" + hole(3) + "/" + hole(4) + "}" + hole(5)}, {hole(1) + " => " + hole(2) + " => " + hole(3), hole(2) + " => " + hole(3)}} {
		addNum("numstat line of a rename that reads two ways", t[0], t[0], t[1])
		num[len(num)-1].twoWays, num[len(num)-2].twoWays = true, true
	}
	cmb := &lineKind{name: "combined raw line", text: "::100644 100644 100644 " + hex(5) + " " + hex(6) + " " + hex(7) + " MM\t" + a, to: "combined", files: map[string]map[string]string{}}
	blank := func(to string) *lineKind {
		return &lineKind{name: "empty line", to: to, files: map[string]map[string]string{}}
	}
	g["body"] = append(append([]*lineKind{blank("body"), sha}, raw...), num...)
	g["raw"] = append(append([]*lineKind{blank("raw"), sha}, raw...), num...)
	g["num"] = append([]*lineKind{blank("num"), sha, cmb}, num...)
	g["combined"] = []*lineKind{blank("combined"), sha, cmb}
	return g
}

type logCfg struct {
	pos string
	mem map[string]string
}

func (k logCfg) key() string {
	s := k.pos
	for _, m := range keysOf(k.mem) {
		s += "\n" + m + "=" + k.mem[m]
	}
	return s
}

func (c *Ctx) commitLog(headers bool) {
	hdr := c.prettyFormat()
	if hdr == nil {
		return
	}
	g := logGrammar(hdr)
	// the reader: an exported function that sends commits
	var roots []*ssa.Function
	ct := mp(commitMetaPkg) + ".Commit"
	for _, fn := range c.p.Fns {
		if fnPkgPath(fn) != mp(commitMetaPkg) || !exportedFn(fn) {
			continue
		}
		sends := false
		for f := range c.p.reachFns([]*ssa.Function{fn}) {
			for _, b := range f.Blocks {
				for _, ins := range b.Instrs {
					if s, ok := ins.(*ssa.Send); ok && itemType(s.X.Type()) == ct {
						sends = true
					}
				}
			}
		}
		if sends && !itemRecv(c.p, fn, ct) {
			roots = append(roots, fn)
		}
	}
	if len(roots) == 0 {
		c.Violate("reader", 0, "no exported function of %s sends commits", commitMetaPkg)
	}
	for _, r := range roots {
		c.readLog(r, g, headers)
	}
	c.Min("kinds of lines", 8)
	c.Min("line and state pairs", 10)
	if headers {
		c.Min("header fields stored", 8)
		c.Min("commits sent", 1)
	} else {
		c.Min("file records put", 3)
	}
}

func (c *Ctx) readLog(root *ssa.Function, g map[string][]*lineKind, headers bool) {
	pk := mp(commitMetaPkg)
	kinds := map[string]bool{}
	seen := map[string]bool{}
	var work []logCfg
	add := func(k logCfg) {
		if !seen[k.key()] {
			seen[k.key()] = true
			work = append(work, k)
		}
	}
	structName := func(t types.Type) string {
		n := namedOf(t)
		if n == nil || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != pk {
			return ""
		}
		return n.Obj().Name()
	}
	run := func(cfg *logCfg, kind *lineKind) {
		line := "\x00"
		if kind != nil {
			line = kind.text
		}
		r := &Rule{Name: "log", MaxState: 20000}
		r.Inline = func(x *X, f *ssa.Function, call ssa.CallInstruction) bool {
			return fnPkgPath(f) == pk && !isRegexpSplit(f)
		}
		bad := func(x *X, hd bool, e *Event, k, msg string) {
			if hd == headers {
				x.Violate(k, e.Pos(), msg)
			}
		}
		put := func(x *X, sh *shapes, k string, t *Term) {
			if v, ok := sh.eval(t); ok {
				if v.K == 'i' && v.S == "" && !t.IsConst() {
					v = aval{K: 'o', S: "number"}
				}
				x.Set(k, v.enc())
			} else {
				x.Set(k, "?")
			}
		}
		fileLabel := func(x *X, sh *shapes, t *Term) string {
			if t.Op == "x" && t.S == "0" {
				t = t.A[0]
			}
			if t.Op == "lk" {
				if v, ok := sh.str(t.A[1]); ok {
					return "old " + v
				}
				return "old ?"
			}
			return "new " + t.key
		}
		storeField := func(x *X, sh *shapes, e *Event, st, name string, base, val *Term) {
			switch st {
			case "Commit":
				if x.Get("line") == "" {
					return
				}
				who := "cur"
				if base.Op == "new" {
					who = "new"
				} else if v, ok := sh.eval(base); ok && v.K == 'p' {
					who = v.S
				}
				put(x, sh, "set:"+who+":"+name, val)
				if v, ok := sh.eval(val); ok && v.K == 'i' {
					x.Set("set:"+who+":"+name, v.enc())
				}
				x.Set("m:Commit."+name, x.Get("set:"+who+":"+name))
			case "CommitFile":
				if x.Get("line") == "" {
					return
				}
				put(x, sh, "file:"+fileLabel(x, sh, base)+"\x00"+name, val)
			default:
				k := "m:" + st + "." + name
				if p, ok := types.Unalias(storeType(e)).Underlying().(*types.Pointer); ok && structName(p.Elem()) == "Commit" {
					switch {
					case val.Op == "new":
						x.Set(k, aval{K: 'p', S: "new"}.enc())
						x.Set("begun", "1")
						return
					}
				}
				put(x, sh, k, val)
				// a counter
				if v, ok := sh.eval(val); ok && v.K == 'i' && !val.IsConst() {
					x.Set(k, v.enc())
					x.Set("counted:"+st+"."+name, "1")
				}
			}
		}
		finish := func(x *X, e *Event) {
			c.endLine(x, e, cfg, kind, headers, bad)
			n := logCfg{pos: kind.to, mem: map[string]string{}}
			for k, v := range x.St.auto {
				if !strings.HasPrefix(k, "m:") {
					continue
				}
				f := k[2:]
				if strings.HasPrefix(f, "Commit.") && f != "Commit.SHA" {
					continue
				}
				if f == "base" || f == "ordf" {
					n.mem[f] = v
					continue
				}
				if v == "" || v == "?" {
					n.mem[f] = "?"
					continue
				}
				a, _ := decAval(v)
				switch {
				case a.K == 'p' && a.S == "new":
					a.S = "cur"
				case a.K == 's' && hasHole(a.S):
					a = avS(holeOld)
				case x.Get("counted:"+f) != "" || a.K == 'i' && a.S != "":
					a = aval{K: 'i', S: "n " + f}
				case a.K == 'l' || a.K == 'o':
					n.mem[f] = "?"
					continue
				}
				n.mem[f] = a.enc()
			}
			add(n)
			x.Stop()
		}
		r.OnEvent = func(x *X, e *Event) {
			sh := &shapes{x, line}
			if x.Get("line") == "" {
				sh.line = "\x00"
			}
			switch e.Kind {
			case EvIter:
				if e.IKind != "scan" {
					return
				}
				if x.Get("line") != "" {
					if e.Taken {
						finish(x, e)
					} else {
						x.Stop()
					}
					return
				}
				if cfg == nil {
					if e.Taken {
						n := logCfg{pos: "start", mem: map[string]string{}}
						for k, v := range x.St.auto {
							if strings.HasPrefix(k, "m:") {
								if a, ok := decAval(v); ok && (a.K == 'l' || a.K == 'o') || v == "" {
									v = "?"
								}
								n.mem[k[2:]] = v
							}
						}
						add(n)
					}
					x.Stop()
					return
				}
				if e.Taken != (kind != nil) {
					x.Stop()
					return
				}
				for k := range x.St.auto {
					if strings.HasPrefix(k, "m:") || strings.HasPrefix(k, "v:") {
						x.Set(k, "")
					}
				}
				for k, v := range cfg.mem {
					x.Set("m:"+k, v)
				}
				// what the reader holds is that of the state looked at, not what it held at first
				for k, cell := range x.St.mem {
					if r := rootOf(cell.addr); r.Op == "new" && r.T != nil && structName(r.T) != "" {
						delete(x.St.mem, k)
					}
				}
				if kind != nil {
					x.Set("line", "1")
				} else {
					x.Set("eof", "1")
				}
			case EvLoad:
				if st, f, ok := fieldOfAddr(e.Ins.(*ssa.UnOp).X); ok {
					sn := structName(st)
					if sn == "" || sn == "CommitFile" || e.Val.IsConst() || e.Val.Op == "new" {
						return
					}
					m, has := x.St.auto["m:"+sn+"."+f]
					if !has && e.Addr.A[0].Op == "new" && sn != "Commit" {
						z := x.ts.Zero(e.Ins.(*ssa.UnOp).Type())
						if v, ok := sh.eval(z); ok {
							m = v.enc()
						}
					}
					if m == "?" {
						m = ""
					}
					x.Set("v:"+e.Val.key, m)
					return
				}
				if structName(e.Ins.(*ssa.UnOp).Type()) == "Commit" {
					if v, ok := sh.eval(e.Addr); ok && v.K == 'p' {
						x.Set("snd:"+e.Val.key, v.S)
					}
				}
			case EvStore:
				s := e.Ins.(*ssa.Store)
				if st, f, ok := fieldOfAddr(s.Addr); ok {
					if sn := structName(st); sn != "" {
						storeField(x, sh, e, sn, f, e.Addr.A[0], e.Val)
					}
					return
				}
				if e.Addr.Op == "fa" && e.Addr.T != nil {
					if sn := structName(e.Addr.T); sn != "" {
						storeField(x, sh, e, sn, e.Addr.S, e.Addr.A[0], e.Val)
						return
					}
				}
				if sn := structName(s.Val.Type()); sn == "Commit" || sn == "CommitFile" {
					if _, isP := types.Unalias(s.Val.Type()).Underlying().(*types.Pointer); isP {
						return
					}
					st := structOf(s.Val.Type())
					for i := 0; i < st.NumFields(); i++ {
						v := x.ts.Field(e.Val, st.Field(i).Name())
						if !zeroTerm(v) {
							storeField(x, sh, e, sn, st.Field(i).Name(), e.Addr, v)
						}
					}
				}
			case EvMapSet:
				mt, ok := types.Unalias(e.Ins.(*ssa.MapUpdate).Map.Type()).Underlying().(*types.Map)
				if !ok || structName(mt.Elem()) != "CommitFile" {
					return
				}
				k, ok := sh.str(e.Key)
				if !ok {
					k = "?"
				}
				c.Count("file records put", 1)
				l := fileLabel(x, sh, e.Val)
				if l == "old "+k {
					return
				}
				if o := x.Get("put:" + k); o != "" && o != l {
					bad(x, false, e, "record replaced", "a file record of the line is replaced by another one")
				}
				x.Set("put:"+k, l)
			case EvMapDel:
				if x.Get("line") != "" {
					bad(x, false, e, "record deleted", "a file record is deleted")
				}
			case EvBranch:
				if v, known := sh.cond(e.Cond); known {
					if v != e.Taken {
						x.Stop()
					}
					return
				}
				// is there a file of that name?
				t := e.Cond
				tf := map[bool]string{true: "t", false: "f"}[e.Taken]
				if t.Op == "isnil" && t.A[0].Op == "x" && t.A[0].S == "0" {
					t = x.ts.mk("isnil", "", "", t.A[0].A[0])
				}
				if t.Op == "x" && t.S == "1" {
					t = t.A[0]
				}
				switch {
				case t.Op == "isnil" && t.A[0].Op == "lk":
					t = t.A[0]
					tf = map[bool]string{true: "f", false: "t"}[e.Taken]
				case t.Op == "has" || t.Op == "lk" && e.Cond.Op == "x":
				default:
					return
				}
				if k, ok := sh.str(t.A[1]); ok {
					if x.Get("put:"+k) != "" {
						return
					}
					if o := x.Get("ex:" + k); o != "" && o != tf {
						x.Stop()
						return
					}
					x.Set("ex:"+k, tf)
				}
			case EvSend:
				if itemType(e.Ins.(*ssa.Send).X.Type()) != mp(commitMetaPkg)+".Commit" {
					return
				}
				c.Count("commits sent", 1)
				l := x.Get("snd:" + e.Val.key)
				switch {
				case l != "cur":
					bad(x, true, e, "commit sent", "what is sent is not the commit that was read last")
				case x.Get("sent") != "":
					bad(x, true, e, "commit sent twice", "a commit is sent twice")
				}
				x.Set("sent", "1")
			case EvPanic:
				if x.Get("line") != "" && len(kind.files) > 0 {
					bad(x, false, e, "stops at "+kind.name, "the program stops at a "+kind.name)
				}
			case EvReturn:
				if nn, known := errKnown(x, e); known && nn {
					return
				}
				if x.Get("line") != "" {
					bad(x, true, e, "reading stops", "reading stops before the end of the log without an error, at a "+kind.name)
					return
				}
				if x.Get("eof") != "" && cfg.pos != "start" && x.Get("sent") == "" {
					bad(x, true, e, "last commit", "the last commit of the log is not sent")
				}
			}
		}
		s := NewSim(c.p, r)
		s.Run(root, nil)
		c.Merge("log", s)
	}
	run(nil, nil)
	for i := 0; i < len(work); i++ {
		if i > 400 {
			c.Violate("undecided", root.Pos(), "undecided: more than 400 states of the reader of the log")
			return
		}
		cfg := work[i]
		dbg("cfg", i, strings.ReplaceAll(cfg.key(), "\n", " "))
		for _, k := range g[cfg.pos] {
			kinds[k.name] = true
			c.Count("line and state pairs", 1)
			run(&cfg, k)
		}
		if cfg.pos != "start" && !strings.HasPrefix(cfg.pos, "after ") {
			run(&cfg, nil)
		}
	}
	for range kinds {
		c.Count("kinds of lines", 1)
	}
	c.Count("reader states", len(work))
}

// endLine compares what a line has changed with what it means.
func (c *Ctx) endLine(x *X, e *Event, cfg *logCfg, kind *lineKind, headers bool, bad func(x *X, hd bool, e *Event, k, msg string)) {
	isSHA := kind.field == "SHA"
	show := func(s string) string {
		a, ok := decAval(s)
		if !ok {
			return "something not recognised"
		}
		if a.K == 's' {
			return strconv.Quote(a.S)
		}
		return a.enc()
	}
	// the commit
	sets := map[string]string{}
	for k, v := range x.St.auto {
		if strings.HasPrefix(k, "set:") {
			sets[k[4:]] = v
		}
	}
	who := "cur"
	if isSHA {
		who = "new"
		if x.Get("begun") == "" {
			bad(x, true, e, "commit not begun", "a hash line does not begin a new commit")
			return
		}
		if (cfg.pos != "start") != (x.Get("sent") != "") {
			bad(x, true, e, "commit lost", "the commit before is not sent when a new one begins")
		}
	} else {
		if x.Get("begun") != "" {
			bad(x, true, e, "commit begun at "+kind.name, "a new commit begins at a "+kind.name)
		}
		if x.Get("sent") != "" {
			bad(x, true, e, "commit sent at "+kind.name, "a commit is sent before all its lines are read, at a "+kind.name)
		}
	}
	for _, k := range keysOf(sets) {
		w, f, _ := strings.Cut(k, ":")
		v := sets[k]
		if f == "Files" {
			if !isSHA {
				bad(x, false, e, "files restarted", "the file table of a commit is replaced")
			}
			continue
		}
		if f == "Ordinal" {
			if !isSHA {
				bad(x, true, e, "ordinal at "+kind.name, "the ordinal of a commit is changed at a "+kind.name)
			}
			continue
		}
		if atomFieldSet()[f] == false {
			continue
		}
		if !kind.header || f != kind.field || w != who {
			if a, ok := decAval(v); ok && (a.K == 's' && a.S == "" || a.K == 'p' && a.S == "nil") && w == who {
				continue
			}
			bad(x, true, e, "field "+f+" at "+kind.name, "the field "+f+" of a commit is set at a "+kind.name)
			continue
		}
		if kind.want == "" {
			if a, ok := decAval(v); !ok || !(a.K == 's' && a.S == "" || a.K == 'p' && a.S == "nil" || a.K == 'l' && len(a.L) == 0) {
				bad(x, true, e, "value of "+f, "the field "+f+" is set to "+show(v)+" although git printed nothing for it")
			}
			continue
		}
		if v != kind.want {
			bad(x, true, e, "value of "+f, "the field "+f+" is set to "+show(v)+" at a "+kind.name+", not to what git printed: "+show(kind.want))
		}
		c.Count("header fields stored", 1)
	}
	if kind.header && kind.want != "" && sets[who+":"+kind.field] == "" {
		bad(x, true, e, "no "+kind.field, "the field "+kind.field+" is not set at a "+kind.name)
	}
	if isSHA {
		// the ordinal follows a counter
		o, ok := decAval(sets["new:Ordinal"])
		good := false
		for k, v := range x.St.auto {
			if !strings.HasPrefix(k, "counted:") {
				continue
			}
			f := k[len("counted:"):]
			n, ok2 := decAval(x.Get("m:" + f))
			b, ok3 := decAval(cfg.mem[f])
			if !ok3 {
				b, ok3 = avI(0), cfg.mem[f] == ""
			}
			if v != "" && ok && ok2 && ok3 && n.S == b.S && n.N == b.N+1 && o.K == 'i' && o.S == n.S && (o.N == n.N || o.N == b.N) {
				good = true
				x.Set("m:ordf", f)
				if o.N == b.N {
					x.Set("m:base", "0")
				} else {
					x.Set("m:base", "1")
				}
			}
		}
		if !good {
			bad(x, true, e, "ordinal", "the ordinal of a commit is not one more than that of the commit before")
		} else if p := cfg.mem["base"]; p != "" && p != x.Get("m:base") {
			bad(x, true, e, "ordinal", "the ordinal of a commit is not one more than that of the commit before")
		}
	} else if cfg.mem["base"] != "" {
		x.Set("m:base", cfg.mem["base"])
		x.Set("m:ordf", cfg.mem["ordf"])
		if x.Get("m:"+cfg.mem["ordf"]) != cfg.mem[cfg.mem["ordf"]] {
			bad(x, true, e, "ordinal at "+kind.name, "the counter of commits changes at a "+kind.name)
		}
	}
	// the files
	puts, fields := map[string]string{}, map[string]map[string]string{}
	for k, v := range x.St.auto {
		switch {
		case strings.HasPrefix(k, "put:"):
			puts[k[4:]] = v
		case strings.HasPrefix(k, "file:"):
			l, f, _ := strings.Cut(k[5:], "\x00")
			if fields[l] == nil {
				fields[l] = map[string]string{}
			}
			fields[l][f] = v
		}
	}
	zero := func(v string) bool {
		a, ok := decAval(v)
		return ok && (a.K == 's' && a.S == "" || a.K == 'b' && a.N == 0 || a.K == 'i' && a.N == 0 && a.S == "")
	}
	same := func(nm string, got, want map[string]string) {
		for _, f := range keysOf(want) {
			if got[f] != want[f] {
				g := "left unset"
				if got[f] != "" {
					g = "set to " + show(got[f])
				}
				bad(x, false, e, "field "+f+" for "+kind.name, "the field "+f+" of a file record is "+g+" at a "+kind.name+", want "+show(want[f]))
			}
		}
		for _, f := range keysOf(got) {
			if want[f] == "" && !zero(got[f]) {
				bad(x, false, e, "field "+f+" for "+kind.name, "the field "+f+" of a file record is set to "+show(got[f])+" at a "+kind.name)
			}
		}
	}
	if !kind.num {
		for _, p := range keysOf(puts) {
			w, ok := kind.files[p]
			if !ok {
				bad(x, false, e, "record at "+kind.name, "a file record is made under "+strconv.Quote(p)+" at a "+kind.name)
				continue
			}
			same(p, fields[puts[p]], w)
			delete(fields, puts[p])
		}
		for _, p := range keysOf(kind.files) {
			if puts[p] == "" {
				bad(x, false, e, "no record for "+kind.name, "no file record is made under "+strconv.Quote(p)+" at a "+kind.name)
			}
		}
		if len(kind.files) == 0 || kind.header {
			for l, m := range fields {
				for f := range m {
					if strings.HasPrefix(l, "old ") {
						bad(x, false, e, "field "+f+" for "+kind.name, "the field "+f+" of a file record is changed at a "+kind.name)
					}
				}
			}
		}
		return
	}
	if kind.twoWays {
		b := bad
		bad = func(x *X, hd bool, e *Event, k, msg string) {
			if k != "status without a raw line" {
				k, msg = "rename that reads two ways", "the line counts of a renamed file whose name contains \" => \" or a brace may be stored for another file"
			}
			b(x, hd, e, k, msg)
		}
	}
	name := kind.path[1]
	if x.Get("ex:"+kind.path[0]) == "t" {
		name = kind.path[0]
	}
	if kind.path[0] != kind.path[1] && x.Get("ex:"+kind.path[0]) == "" {
		bad(x, false, e, "name that looks like a rename", "the line counts of a file whose name contains \" => \" may be stored for another file")
	}
	want := map[string]string{"Binary": avB(true).enc()}
	if !kind.binary {
		want = map[string]string{"Additions": aval{K: 'o', S: "int " + digit(1)}.enc(), "Deletions": aval{K: 'o', S: "int " + digit(2)}.enc()}
	}
	if x.Get("ex:"+name) == "f" {
		// no raw line for it: a merge, or something that is no file
		for _, p := range keysOf(puts) {
			got := fields[puts[p]]
			if p != name {
				bad(x, false, e, "record at "+kind.name, "a file record is made under "+strconv.Quote(p)+" at a "+kind.name)
				continue
			}
			if !zero(got["Status"]) {
				bad(x, false, e, "status without a raw line", "a file record with a made-up status is put for a numstat line that no raw line came before (files of merge commits, symbolic links, submodules)")
			}
			want["Filename"] = avS(name).enc()
			m := map[string]string{}
			for f, v := range got {
				if f != "Status" {
					m[f] = v
				}
			}
			same(p, m, want)
			delete(fields, puts[p])
		}
	} else {
		if len(puts) > 0 {
			bad(x, false, e, "record at "+kind.name, "a file record is replaced at a "+kind.name)
		}
		same(name, fields["old "+name], want)
		delete(fields, "old "+name)
	}
	for l, m := range fields {
		if len(m) > 0 && strings.HasPrefix(l, "old ") {
			bad(x, false, e, "counts of "+kind.name, "what a "+kind.name+" says is stored for another file")
		}
	}
}

func atomFieldSet() map[string]bool {
	m := map[string]bool{}
	for _, f := range atomFields {
		m[f] = true
	}
	return m
}

func keysOf[V any](m map[string]V) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
