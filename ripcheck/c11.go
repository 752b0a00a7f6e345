package main

import (
	"fmt"
	"go/types"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var dirParamRe = regexp.MustCompile(`\{\?param:\d+\}`)

// dirPath writes a path term with the directory parameter as {dir}.
func (x *X) dirPath(t *Term, fn *ssa.Function) (string, bool) {
	s := x.renderStr(t)
	s = dirParamRe.ReplaceAllStringFunc(s, func(m string) string {
		for i, prm := range fn.Params {
			if m == "{?param:"+itoa(i)+"}" && types.TypeString(prm.Type(), nil) == "string" {
				for j := 0; j < i; j++ {
					if types.TypeString(fn.Params[j].Type(), nil) == "string" {
						return m
					}
				}
				return "{dir}"
			}
		}
		return m
	})
	return s, !strings.Contains(s, "{?")
}

func dirOf(s string) string {
	if i := strings.LastIndexByte(s, '/'); i >= 0 {
		return s[:i]
	}
	return ""
}

func within(s, dir string) bool { return s == dir || strings.HasPrefix(s, dir+"/") }

// openedFiles: the files the checkpoint reader has opened on every way to a result.
func (c *Ctx) openedFiles(fn *ssa.Function) (always map[string]bool, any map[string]bool) {
	any = map[string]bool{}
	first := true
	always = map[string]bool{}
	r := &Rule{Name: "reader files", NoLoads: true, MaxState: 60000}
	r.Inline = func(x *X, f *ssa.Function, call ssa.CallInstruction) bool { return fnPkgPath(f) == mp(repoPkg) }
	r.OnEvent = func(x *X, e *Event) {
		switch e.Kind {
		case EvCall:
			switch e.Name {
			case "os.Open", "os.OpenFile", "os.ReadFile", "io/ioutil.ReadFile":
				p, ok := x.dirPath(e.Args[0], fn)
				if !ok {
					x.Violate("file read", e.Pos(), "the checkpoint reader opens a file whose path cannot be determined: "+p)
					return
				}
				any[p] = true
				x.Set("o:"+e.Res.key, p)
			}
		case EvBranch:
			if e.Cond.Op == "isnil" && e.Taken && e.Cond.A[0].Op == "x" {
				if p := x.Get("o:" + e.Cond.A[0].A[0].key); p != "" {
					x.Set("opened:"+p, "1")
				}
			}
		case EvReturn:
			if len(e.Args) == 0 {
				return
			}
			if v, ok := x.IsNil(e.Args[len(e.Args)-1]); ok && !v {
				return
			}
			got := map[string]bool{}
			for k := range x.St.auto {
				if strings.HasPrefix(k, "opened:") {
					got[k[7:]] = true
				}
			}
			if first {
				always, first = got, false
				return
			}
			for k := range always {
				if !got[k] {
					delete(always, k)
				}
			}
		}
	}
	c.Sim("files of "+fnName(fn), fn, r, nil)
	return
}

var bufWriters = map[string]bool{"compress/gzip.NewWriter": true, "compress/gzip.NewWriterLevel": true, "github.com/tinylib/msgp/msgp.NewWriter": true, "github.com/tinylib/msgp/msgp.NewWriterSize": true, "bufio.NewWriter": true, "bufio.NewWriterSize": true, "compress/zlib.NewWriter": true, "compress/flate.NewWriter": true, "github.com/tinylib/msgp/msgp.NewWriterBuf": true}

func init() {
	register("C11", "Typestate of the file operations of saving a checkpoint, over every path of CheckpointWriter.Write with its helpers inlined and paths as symbolic strings. The files the reader needs are computed from CheckpointReader.Read. Until all of them have been created outside the reader's directory, written, flushed layer by layer, closed and given their final names, each step with an error seen to be nil, nothing at the reader's directory is touched; then it may only be removed or moved away as a whole and replaced by one rename of the directory holding all the new files. The reader opens every file on every way to a result, so a directory in the course of removal is refused.", runC11)
}

func runC11(c *Ctx) {
	p := c.p
	rd := c.Must(repoPkg, "CheckpointReader.Read")
	wr := c.Must(repoPkg, "CheckpointWriter.Write")
	if rd == nil || wr == nil {
		return
	}
	always, any := c.openedFiles(rd)
	final := ""
	var req []string
	for f := range any {
		c.Count("files of a checkpoint", 1)
		if final == "" {
			final = dirOf(f)
		}
		if final != dirOf(f) {
			c.Violate("reader directories", rd.Pos(), "a checkpoint is read from two directories, %s and %s: they cannot be replaced as a whole", final, dirOf(f))
		}
		req = append(req, f[len(dirOf(f))+1:])
	}
	sort.Strings(req)
	c.Min("files of a checkpoint", 2)
	c.notes = append(c.notes, fmt.Sprintf("files of a checkpoint, from the reader: %s in %s", strings.Join(req, ", "), final))
	data := 0
	for f := range any {
		if always[f] {
			data++
		}
	}
	// a file only opened under strict resume is the marker
	for f := range any {
		if !always[f] {
			c.Count("files read only in some runs", 1)
		}
	}
	if len(any)-data > 1 {
		c.Violate("reader opens all files", rd.Pos(), "the checkpoint reader reaches a result without having opened all files; a directory that was being removed when the process died could be taken for a checkpoint (always opened: %d of %d)", data, len(any))
	}

	moved := map[string]bool{}
	r := &Rule{Name: "saving a checkpoint", NoLoads: true, MaxState: 150000}
	r.Inline = func(x *X, f *ssa.Function, call ssa.CallInstruction) bool {
		return fnPkgPath(f) == mp(repoPkg) || isLibrary(f) && p.transitively(f, func(g *ssa.Function, ins ssa.Instruction) bool {
			ci, ok := ins.(ssa.CallInstruction)
			return ok && fileMut[calleeName(ci.Common())] != nil
		})
	}
	// every file needed is complete
	ready := func(x *X, e *Event, what string, from string) {
		c.Count("commit points", 1)
		for k, v := range x.St.auto {
			if strings.HasPrefix(k, "u:") && v != "" && k != "u:"+e.Res.key {
				name := v[1:]
				if v[0] == '!' {
					x.Violate("failed "+name, e.Pos(), what+" although "+name+" failed")
				} else {
					x.Violate("unchecked "+name, e.Pos(), what+" before the error of "+name+" was seen to be nil")
				}
			}
			if strings.HasPrefix(k, "f:") && v == "open" {
				x.Violate("open file", e.Pos(), what+" while the new file "+k[2:]+" is not closed")
			}
		}
		dirs := map[string]bool{}
		for k, v := range x.St.auto {
			if strings.HasPrefix(k, "f:") && v == "closed" && !within(k[2:], final) {
				dirs[dirOf(k[2:])] = true
			}
		}
		var list []string
		for d := range dirs {
			list = append(list, d)
		}
		sort.Strings(list)
		best, missing := "", append([]string(nil), req...)
		for _, d := range list {
			var m []string
			for _, f := range req {
				if x.Get("f:"+d+"/"+f) != "closed" {
					m = append(m, f)
				}
			}
			if len(m) < len(missing) {
				best, missing = d, m
			}
		}
		if len(missing) > 0 {
			x.Violate("incomplete", e.Pos(), what+" before the new "+strings.Join(missing, ", ")+" is complete")
		} else if from != "" && from != best {
			x.Violate("moved directory", e.Pos(), "the directory "+from+" is moved into place, the complete new checkpoint is in "+best)
		}
	}
	r.OnEvent = func(x *X, e *Event) {
		switch e.Kind {
		case EvGo:
			c.Count("goroutines", 1)
		case EvBranch:
			// what became known about errors
			if e.Cond.Op != "isnil" {
				return
			}
			t := e.Cond.A[0]
			for k, v := range x.St.auto {
				if !strings.HasPrefix(k, "u:") || v == "" {
					continue
				}
				ck := k[2:]
				if t.key == ck || t.Op == "x" && t.A[0].key == ck {
					if e.Taken {
						x.Set(k, "")
					} else {
						x.Set(k, "!"+v[1:])
					}
				}
			}
		case EvCall:
			for _, a := range e.Args {
				if a != nil && x.Get("w:"+a.key) != "" && !strings.HasSuffix(e.Name, ").Flush") && !strings.HasSuffix(e.Name, ").Close") && !bufWriters[e.Name] {
					x.Set("d:"+a.key, "1")
				}
			}
			ci, _ := e.Ins.(ssa.CallInstruction)
			if ci != nil && errResult(ci) >= 0 && !noErrCall(e.Name) && e.Res != nil {
				c.Count("fallible steps", 1)
				if v := x.Get("u:" + e.Res.key); v != "" {
					x.Set("u:"+e.Res.key+"'", v) // the error of an earlier time is lost
				}
				x.Set("u:"+e.Res.key, "?"+e.Name)
			}
			if e.Deferred {
				// the error of a deferred call is not looked at here
				if e.Res == nil && strings.HasSuffix(e.Name, "(*os.File).Close") {
					for k, v := range x.St.auto {
						if strings.HasPrefix(k, "h:") && v == e.Args[0].key && x.Get("f:"+k[2:]) == "open" {
							x.Set("f:"+k[2:], "closed unseen")
						}
					}
				}
			}
			if bufWriters[e.Name] && len(e.Args) > 0 {
				res := e.Res
				if sg := callSig(ci); sg != nil && sg.Results().Len() > 1 {
					res = x.ts.mk("x", "0", "", e.Res)
				}
				x.Set("w:"+res.key, e.Args[0].key)
				x.Set("d:"+res.key, "1")
				return
			}
			if (strings.HasSuffix(e.Name, ").Flush") || strings.HasSuffix(e.Name, ").Close")) && len(e.Args) > 0 {
				a := e.Args[0]
				if par := x.Get("w:" + a.key); par != "" {
					if x.Get("d:"+a.key) != "" && x.Get("w:"+par) != "" {
						x.Set("d:"+par, "1")
					}
					for k, v := range x.St.auto {
						if strings.HasPrefix(k, "w:") && v == a.key && x.Get("d:"+k[2:]) != "" {
							x.Violate("flush order", e.Pos(), e.Name+" is called while the writer above it still holds data")
						}
					}
					x.Set("d:"+a.key, "")
					return
				}
				if strings.HasSuffix(e.Name, "(*os.File).Close") {
					for k, v := range x.St.auto {
						if !strings.HasPrefix(k, "h:") || v != a.key {
							continue
						}
						c.Count("closed files", 1)
						for w, par := range x.St.auto {
							if strings.HasPrefix(w, "w:") && par == a.key && x.Get("d:"+w[2:]) != "" {
								x.Violate("close before flush", e.Pos(), "the file "+k[2:]+" is closed while a writer above it may still hold data")
							}
						}
						// under whatever name it has now
						x.Set("f:"+k[2:], "closed")
					}
				}
				return
			}
			args, ok := fileMut[e.Name]
			if !ok {
				return
			}
			c.Count("file operations", 1)
			var ps []string
			for _, i := range args {
				s, known := x.dirPath(e.Args[i], wr)
				if !known && !tempMakers[e.Name] {
					x.Violate("unknown path", e.Pos(), "the path of "+e.Name+" cannot be determined: "+s)
					return
				}
				ps = append(ps, s)
			}
			at := ps[0]
			switch e.Name {
			case "os.Rename":
				from, to := ps[0], ps[1]
				switch {
				case to == final:
					ready(x, e, "the checkpoint is replaced", from)
					x.Set("placed", e.Res.key)
					moved[from] = true
					c.Count("replacements", 1)
					return
				case from == final:
					x.Set("u:"+e.Res.key, "") // may fail, then the next step fails or nothing was there
					ready(x, e, "the old checkpoint is moved away", "")
					x.Set("gone", "1")
					if within(to, final) {
						x.Violate("in place", e.Pos(), "the checkpoint directory is moved into itself")
					}
					return
				case within(from, final) || within(to, final) || within(final, from) || within(final, to):
					x.Violate("in place", e.Pos(), "a rename from "+from+" to "+to+" changes a part of the checkpoint location")
					return
				}
				if st := x.Get("f:" + from); st != "" {
					x.Set("f:"+to, st)
					x.Set("f:"+from, "")
					if h := x.Get("h:" + from); h != "" {
						x.Set("h:"+to, h)
						x.Set("h:"+from, "")
					}
					return
				}
				for k, v := range x.St.auto {
					if strings.HasPrefix(k, "f:"+from+"/") {
						x.Set("f:"+to+k[2+len(from):], v)
						x.Set(k, "")
					}
				}
				return
			case "os.RemoveAll", "os.Remove":
				if at == final {
					x.Set("u:"+e.Res.key, "")
					ready(x, e, "the old checkpoint is removed", "")
					x.Set("gone", "1")
					return
				}
				for k := range x.St.auto {
					if strings.HasPrefix(k, "f:") && within(k[2:], at) {
						x.Set(k, "")
					}
				}
			}
			if within(at, final) {
				x.Violate("in place", e.Pos(), e.Name+" changes "+at+" inside the checkpoint location")
				return
			}
			if within(final, at) && e.Name != "os.MkdirAll" && e.Name != "os.Mkdir" {
				x.Violate("in place", e.Pos(), e.Name+" changes "+at+", which contains the checkpoint location")
				return
			}
			switch e.Name {
			case "os.Create", "os.OpenFile":
				x.Set("f:"+at, "open")
				x.Set("h:"+at, x.ts.mk("x", "0", "", e.Res).key)
				if e.Name == "os.OpenFile" {
					if n, ok := e.Args[1].Int(); !ok || n&0x200 == 0 && n&0x80 == 0 {
						x.Violate("old contents", e.Pos(), "the file "+at+" is opened without emptying it")
					}
				}
			case "os.WriteFile", "io/ioutil.WriteFile":
				x.Set("f:"+at, "closed")
			}
		case EvReturn:
			if len(e.Args) == 0 {
				return
			}
			err := e.Args[len(e.Args)-1]
			if v, ok := x.IsNil(err); ok && !v {
				return
			}
			c.Count("successful ends", 1)
			if x.Get("placed") == "" {
				x.Violate("not placed", e.Pos(), "saving ends with success without having moved the new checkpoint into place")
			}
			for k, v := range x.St.auto {
				if strings.HasPrefix(k, "u:") && v != "" && err.key != k[2:] && x.Get("placed") == k[2:] {
					x.Violate("unchecked rename", e.Pos(), "saving ends with success although moving the checkpoint into place may have failed")
				}
			}
		}
	}
	c.Sim("saving a checkpoint", wr, r, nil)
	c.Min("replacements", 1)
	c.Min("commit points", 1)
	c.Min("file operations", 4)
	c.Min("fallible steps", 4)
}
