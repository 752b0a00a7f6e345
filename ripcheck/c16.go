package main

import (
	"go/token"
	"go/types"
	"regexp"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// fileMut: functions that change the file system, and which of their arguments name what is changed.
var fileMut = map[string][]int{
	"os.Create": {0}, "os.OpenFile": {0}, "os.Mkdir": {0}, "os.MkdirAll": {0}, "os.Remove": {0}, "os.RemoveAll": {0}, "os.Rename": {0, 1},
	"os.WriteFile": {0}, "io/ioutil.WriteFile": {0}, "os.Truncate": {0}, "os.Chmod": {0}, "os.Chown": {0}, "os.Lchown": {0}, "os.Chtimes": {0},
	"os.Link": {1}, "os.Symlink": {1}, "os.Chdir": {0}, "os.CopyFS": {0}, "io/ioutil.TempFile": {0}, "os.CreateTemp": {0}, "io/ioutil.TempDir": {0}, "os.MkdirTemp": {0},
	"syscall.Unlink": {0}, "syscall.Rmdir": {0}, "syscall.Rename": {0, 1}, "syscall.Mkdir": {0}, "syscall.Open": {0}, "syscall.Chmod": {0}, "syscall.Symlink": {1}, "syscall.Link": {1}, "syscall.Truncate": {0},
}

var procStart = map[string]int{"os/exec.Command": 0, "os/exec.CommandContext": 1, "os.StartProcess": 0, "syscall.Exec": 0, "syscall.ForkExec": 0, "syscall.StartProcess": 0, "plugin.Open": 0}

var ownDirRe = regexp.MustCompile(`^(\{RepoDir\}|\{CheckpointsDir\}|\{ext:[A-Za-z0-9_]+\})/pp-git-cache((/|\.)[A-Za-z0-9_.\-/]*)?$`)

func ownPath(s string, temp bool) bool {
	t := strings.ReplaceAll(s, "{safe}", "safe")
	for _, part := range strings.Split(t, "/") {
		if part == ".." {
			return false
		}
	}
	if ownDirRe.MatchString(t) {
		return true
	}
	if strings.HasPrefix(t, "{temp}") && !strings.Contains(t[6:], "{") {
		return true
	}
	return temp && (s == "" || s == "{tmpdir}")
}

var cfgRuns = regexp.MustCompile(`^(alias\..*|.*\.(external|textconv|command|cmd|driver|helper|clean|smudge|process|program)|core\.(editor|pager|fsmonitor|hookspath|sshcommand|askpass|gitproxy|worktree|attributesfile)|pager\..*|credential\..*|filter\..*|gpg\..*|include.*|sequence\.editor|log\.file|trace2?\..*)$`)

// readOnly explains why a command line is not read-only.
func (g *gitArgs) notReadOnly() string {
	for k, v := range g.cfg {
		if k == "core.attributesfile" && v == "empty file" {
			continue
		}
		if cfgRuns.MatchString(k) {
			return "the setting " + k + "=" + v + " can run commands or read other files"
		}
	}
	for f := range g.flags {
		if strings.HasPrefix(f, "--output") || f == "--ext-diff" || f == "--textconv" || f == "-o" {
			return "the flag " + f
		}
	}
	switch g.sub {
	case "log", "rev-parse", "rev-list", "for-each-ref", "blame", "annotate", "ls-tree", "cat-file", "show", "show-ref", "diff-tree", "name-rev", "merge-base", "describe", "ls-files", "shortlog", "cherry", "version", "count-objects", "check-attr", "check-ignore":
		return ""
	case "symbolic-ref":
		n := len(g.rest)
		for f := range g.flags {
			if f != "--short" && f != "-q" && f != "--quiet" && f != "--recurse" && f != "--no-recurse" {
				return "the flag " + f + " of symbolic-ref"
			}
		}
		if n != 1 {
			return "symbolic-ref with " + strconv.Itoa(n) + " names sets a reference"
		}
		return ""
	case "branch", "tag":
		if len(g.rest) > 0 {
			return "git " + g.sub + " with names"
		}
		for f := range g.flags {
			switch f {
			case "-a", "-r", "-v", "-vv", "--list", "-l", "--no-color", "--all", "--remotes", "--show-current", "--verbose":
			default:
				if !strings.HasPrefix(f, "--sort=") && !strings.HasPrefix(f, "--format=") {
					return "the flag " + f
				}
			}
		}
		return ""
	case "config":
		for f := range g.flags {
			if f == "--get" || f == "--list" || f == "-l" || f == "--get-all" {
				return ""
			}
		}
		return "git config without --get"
	}
	return "git " + g.sub + " is not a read-only command"
}

var paramRe = regexp.MustCompile(`^\{\?param:(\d+)\}$`)
var fieldRe = regexp.MustCompile(`^\{\?f:([A-Za-z_0-9]+)\((param:0|f:[A-Za-z_0-9]+\(param:0\))\)\}$`)

// outer resolves a term about the parameters of a root: what callers can supply.
func (p *Prog) outer(root *ssa.Function, s string) ([]string, bool) {
	if m := paramRe.FindStringSubmatch(s); m != nil {
		i, _ := strconv.Atoi(m[1])
		if i < len(root.Params) {
			return p.Shapes(root.Params[i]), true
		}
	}
	if m := fieldRe.FindStringSubmatch(s); m != nil && len(root.Params) > 0 {
		st := root.Params[0].Type()
		if strings.HasPrefix(m[2], "f:") {
			in := m[2][2 : len(m[2])-len("(param:0)")]
			for i, n := 0, structOf(st).NumFields(); i < n; i++ {
				if structOf(st).Field(i).Name() == in {
					st = structOf(st).Field(i).Type()
					break
				}
			}
		}
		for i := 0; structOf(st) != nil && i < structOf(st).NumFields(); i++ {
			if structOf(st).Field(i).Name() == m[1] {
				return p.FieldShapes(st, i), true
			}
		}
	}
	return nil, false
}

func isExt(s string) bool {
	return strings.HasPrefix(s, "{ext:") && strings.Count(s, "{") == 1 && strings.HasSuffix(s, "}")
}

func init() {
	register("C16", "Every place of the library that starts a process or changes the file system is enumerated. The program is the constant git; every command line, computed symbolically from the exported functions, is one of the read-only subcommands with no flag or setting that writes or runs something, its directory is the configured repository, and arguments that are not constants are revisions the caller configured, or stand behind --. Every path that is created, written, renamed or removed is enumerated backward through all assignments and callers and must be the configured directory followed by pp-git-cache and constant or hashed parts, or a temporary file.", func(c *Ctx) {
		p := c.p
		for _, fn := range p.Fns {
			if !isLibrary(fn) {
				continue
			}
			for _, b := range fn.Blocks {
				for _, ins := range b.Instrs {
					ci, ok := ins.(ssa.CallInstruction)
					if !ok {
						c.refMut(fn, ins)
						continue
					}
					name := calleeName(ci.Common())
					a := ci.Common().Args
					if i, ok := procStart[name]; ok {
						c.Saw(fn)
						c.Count("places that start a process", 1)
						for _, s := range p.Shapes(a[i]) {
							if s != "git" && !isExt(s) {
								c.Violate("program of "+fnName(fn), ci.Pos(), "%s starts the program %q, not git", fnName(fn), s)
							}
						}
					}
					if idx, ok := fileMut[name]; ok {
						c.Saw(fn)
						for _, i := range idx {
							c.Count("paths that are created, written or removed", 1)
							sh := p.Shapes(a[i])
							if len(sh) == 0 {
								c.Violate("path of "+name+" in "+fnName(fn), ci.Pos(), "nothing is known about the path given to %s", name)
							}
							for _, s := range sh {
								temp := strings.Contains(name, "Temp")
								if !ownPath(s, temp) {
									c.Violate("path of "+name+" in "+fnName(fn), ci.Pos(), "%s is called with %q, which is not below the checkpoint directory and not a temporary file", name, s)
								}
							}
						}
					} else if strings.HasPrefix(name, "syscall.") && fn.Synthetic == "" {
						if _, ok := procStart[name]; !ok {
							c.Violate("system call in "+fnName(fn), ci.Pos(), "%s is called directly", name)
						}
					}
					// functions handed around
					for _, v := range a {
						if f, ok := v.(*ssa.Function); ok {
							c.asValue(fn, f, ci.Pos())
						}
					}
				}
			}
		}
		c.Min("places that start a process", 1)
		c.Min("paths that are created, written or removed", 1)
		g := p.gitCommands()
		c.states += g.states
		c.steps += g.steps
		c.sims++
		for f := range g.inlined {
			c.Saw(f)
		}
		for _, o := range g.over {
			c.ViolateAt("git commands: undecided "+o, "?", nil, "undecided: too many abstract states from %s", o)
		}
		seenIns := map[ssa.Instruction]bool{}
		for _, k := range g.cmds {
			if k.kind != "git" {
				continue
			}
			seenIns[k.ins] = true
			c.Count("command lines", 1)
			key := "command of " + k.role + " from " + fnName(k.root)
			if !strings.HasPrefix(fnPkgPath(k.root), mp("ripsrc/gitexec")) {
				// the directory
				ok := k.dir == "{RepoDir}"
				if !ok && !k.apiRoot() {
					if sh, is := p.outer(k.root, k.dir); is && len(sh) > 0 {
						ok = true
						for _, s := range sh {
							if s != "{RepoDir}" && !isExt(s) {
								ok = false
							}
						}
					}
				}
				if !ok {
					c.ViolateAt(key+": directory", k.pos, k.trace, "git runs in the directory %q, not in the configured repository: %v", k.dir, k.argv)
				}
			} else if k.dir == "" || !strings.Contains(k.dir, "param:") {
				c.ViolateAt(key+": directory", k.pos, k.trace, "git runs in the directory %q, not in the given one", k.dir)
				continue
			} else {
				continue // the arguments are the caller's
			}
			if len(k.argv) < 2 {
				c.ViolateAt(key, k.pos, k.trace, "a command line that is not followed: %v", k.argv)
				continue
			}
			a := parseGit(k.argv)
			if a.bad != "" {
				c.ViolateAt(key, k.pos, k.trace, "a command line that is not understood (%s): %v", a.bad, k.argv)
				continue
			}
			if why := a.notReadOnly(); why != "" {
				c.ViolateAt(key, k.pos, k.trace, "the command is not read-only: %s (%v)", why, k.argv)
			}
			n := 0
			for _, r := range append(append([]string{}, a.rest...), a.pick(func(string) bool { return true })...) {
				if strings.Contains(r, "{?") {
					n++
				}
			}
			if n > 0 && k.apiRoot() || n > 1 {
				c.ViolateAt(key+": arguments", k.pos, k.trace, "values that are not constants or options stand before --: %v", k.argv)
			}
		}
		c.Min("command lines", 1)
	})
}

// asValue: a function that changes files or starts processes must be called, not handed around.
func (c *Ctx) asValue(fn, f *ssa.Function, pos token.Pos) {
	if f.Pkg == nil {
		return
	}
	n := f.Pkg.Pkg.Path() + "." + f.Name()
	_, a := fileMut[n]
	_, b := procStart[n]
	if a || b {
		c.Violate("function value in "+fnName(fn), pos, "%s is used as a value; what it is called with is not followed", n)
	}
}

func (c *Ctx) refMut(fn *ssa.Function, ins ssa.Instruction) {
	for _, o := range ins.Operands(nil) {
		if o == nil || *o == nil {
			continue
		}
		if f, ok := (*o).(*ssa.Function); ok {
			c.asValue(fn, f, instrPos(ins))
		}
	}
	// a command object built by hand
	if al, ok := ins.(*ssa.Alloc); ok {
		if isNamed(al.Type(), "os/exec.Cmd") {
			if _, isPtr := types.Unalias(al.Type()).(*types.Pointer); isPtr {
				c.Violate("command in "+fnName(fn), al.Pos(), "an exec.Cmd is built by hand")
			}
		}
	}
}
