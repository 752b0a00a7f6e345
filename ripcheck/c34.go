package main

import (
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// pin is a setting of the user that changes what a git command prints, and the ways a command line can fix it.
type pin struct {
	name string
	kind string // "patches metadata graph blame": the commands it changes
	what string
	// fixed: the command line decides; wrong: it decides for something the readers do not expect
	fixed func(g *gitArgs) (fixed bool, wrong string)
}

func gitFalse(v string) bool {
	switch strings.ToLower(v) {
	case "false", "no", "off", "0", "":
		return true
	}
	return false
}

func gitTrue(v string) bool {
	switch strings.ToLower(v) {
	case "true", "yes", "on", "1":
		return true
	}
	return false
}

// flagVal is the value of the flag --name=value.
func (g *gitArgs) flagVal(names ...string) (string, bool) {
	for f := range g.flags {
		for _, n := range names {
			if strings.HasPrefix(f, n) {
				return f[len(n):], true
			}
		}
	}
	return "", false
}

var gitPins = []*pin{
	{"color.diff", "patches", "the patches are coloured", func(g *gitArgs) (bool, string) {
		if v, ok := g.flagVal("--color="); ok {
			if v == "always" {
				return true, "--color=always"
			}
			return true, ""
		}
		if g.flags["--color"] {
			return true, "--color"
		}
		if g.flags["--no-color"] {
			return true, ""
		}
		v, ok := g.cfg["color.diff"]
		if ok && v == "always" {
			return true, "color.diff=always"
		}
		return ok, ""
	}},
	{"diff.noprefix", "patches", "the paths of the patches have no prefixes", func(g *gitArgs) (bool, string) {
		if g.flags["--no-prefix"] {
			return true, "--no-prefix"
		}
		a, ok := g.flagVal("--src-prefix=")
		b, ok2 := g.flagVal("--dst-prefix=")
		if ok && a != "a/" || ok2 && b != "b/" {
			return true, "other prefixes than a/ and b/"
		}
		if ok && ok2 || g.flags["--default-prefix"] {
			return true, ""
		}
		v, ok := g.cfg["diff.noprefix"]
		if ok && !gitFalse(v) {
			return true, "diff.noprefix=" + v
		}
		return ok, ""
	}},
	{"diff.srcPrefix and diff.dstPrefix", "patches", "the paths of the patches have other prefixes", func(g *gitArgs) (bool, string) {
		_, ok := g.flagVal("--src-prefix=")
		_, ok2 := g.flagVal("--dst-prefix=")
		if ok && ok2 || g.flags["--default-prefix"] || g.flags["--no-prefix"] {
			return true, "" // judged above
		}
		a, ok := g.cfg["diff.srcprefix"]
		b, ok2 := g.cfg["diff.dstprefix"]
		if ok && a != "a/" || ok2 && b != "b/" {
			return true, "other prefixes than a/ and b/"
		}
		return ok && ok2, ""
	}},
	{"diff.context", "patches", "hunks have no context lines, and hunk headers count differently", func(g *gitArgs) (bool, string) {
		v, ok := g.flagVal("--unified=", "-U")
		if !ok {
			v, ok = g.cfg["diff.context"]
		}
		if n, err := strconv.Atoi(v); ok && (err != nil || n < 1) {
			return true, "a context of " + v + " lines"
		}
		return ok, ""
	}},
	{"diff.suppressBlankEmpty", "patches", "empty context lines have no leading space", func(g *gitArgs) (bool, string) {
		v, ok := g.cfg["diff.suppressblankempty"]
		if ok && !gitFalse(v) {
			return true, "diff.suppressBlankEmpty=" + v
		}
		return ok, ""
	}},
	{"diff.submodule", "patches", "the patch of a submodule is a list of commits", func(g *gitArgs) (bool, string) {
		v, ok := g.flagVal("--submodule=")
		if !ok {
			v, ok = g.cfg["diff.submodule"]
		}
		if g.flags["--submodule"] || ok && v != "short" {
			return true, "submodules are not shown as short patches"
		}
		return ok, ""
	}},
	{"diff.renames", "patches metadata", "renamed files are shown as removed and added, or copies as renames", func(g *gitArgs) (bool, string) {
		for f := range g.flags {
			if strings.HasPrefix(f, "-C") || strings.HasPrefix(f, "--find-copies") {
				return true, f + ": copies are read like renames"
			}
		}
		if g.flags["--no-renames"] {
			return true, ""
		}
		for f := range g.flags {
			if strings.HasPrefix(f, "-M") || strings.HasPrefix(f, "--find-renames") {
				return true, ""
			}
		}
		v, ok := g.cfg["diff.renames"]
		if ok && !gitTrue(v) && !gitFalse(v) {
			return true, "diff.renames=" + v + ": copies are read like renames"
		}
		return ok, ""
	}},
	{"log.showRoot", "patches metadata", "first commits have no files", func(g *gitArgs) (bool, string) {
		v, ok := g.cfg["log.showroot"]
		if g.flags["--root"] {
			return true, ""
		}
		if ok && !gitTrue(v) {
			return true, "log.showRoot=" + v
		}
		return ok, ""
	}},
	{"log.diffMerges", "patches", "-m shows something else than one diff for each parent", func(g *gitArgs) (bool, string) {
		if v, ok := g.flagVal("--diff-merges="); ok && v != "on" && v != "m" {
			if v != "separate" {
				return true, "--diff-merges=" + v
			}
			return true, ""
		}
		if !g.flags["-m"] {
			if _, ok := g.flagVal("--diff-merges="); !ok {
				return true, ""
			}
		}
		v, ok := g.cfg["log.diffmerges"]
		if ok && v != "separate" {
			return true, "log.diffMerges=" + v
		}
		return ok, ""
	}},
	{"log.decorate", "patches", "the hashes of commits are followed by names of references", func(g *gitArgs) (bool, string) {
		if v, ok := g.flagVal("--decorate="); ok && v != "no" && v != "auto" || g.flags["--decorate"] {
			return true, "--decorate=" + v
		}
		if _, ok := g.flagVal("--no-decorate", "--decorate="); ok || strings.HasPrefix(g.format, "format:") {
			return true, ""
		}
		v, ok := g.cfg["log.decorate"]
		if ok && !gitFalse(v) && v != "auto" {
			return true, "log.decorate=" + v
		}
		return ok, ""
	}},
	{"log.showSignature", "patches metadata graph", "the output of gpg comes between the lines", func(g *gitArgs) (bool, string) {
		if g.flags["--show-signature"] {
			return true, "--show-signature"
		}
		v, ok := g.cfg["log.showsignature"]
		if g.flags["--no-show-signature"] {
			return true, ""
		}
		if ok && !gitFalse(v) {
			return true, "log.showSignature=" + v
		}
		return ok, ""
	}},
	{"i18n.logOutputEncoding", "metadata", "names and messages come in another encoding", func(g *gitArgs) (bool, string) {
		v, ok := g.flagVal("--encoding=")
		if !ok {
			v, ok = g.cfg["i18n.logoutputencoding"]
		}
		if u := strings.ToLower(v); ok && u != "utf-8" && u != "utf8" {
			return true, "the encoding " + v
		}
		return ok, ""
	}},
	{"diff.*.textconv", "patches blame", "files are shown after a conversion", func(g *gitArgs) (bool, string) {
		if g.flags["--textconv"] {
			return true, "--textconv"
		}
		return g.flags["--no-textconv"], ""
	}},
	{"blame.ignoreRevsFile", "blame", "lines are attributed to other commits than those that changed them", func(g *gitArgs) (bool, string) {
		for f := range g.flags {
			if strings.HasPrefix(f, "--ignore-rev=") || strings.HasPrefix(f, "--ignore-revs-file=") && f != "--ignore-revs-file=" {
				return true, f
			}
		}
		return g.flags["--ignore-revs-file="], ""
	}},
	{"core.quotePath", "ls-tree ls-files", "names are quoted", func(g *gitArgs) (bool, string) {
		return g.flags["-z"] || g.cfg["core.quotepath"] == "false", ""
	}},
}

func init() {
	register("C34", "Every git command line that the library can run, found as for C15. For each of the settings in the rule's table that changes what this command prints (log of patches: color.diff, diff.noprefix, diff.srcPrefix, diff.dstPrefix, diff.context, diff.suppressBlankEmpty, diff.submodule, diff.renames, log.showRoot, log.diffMerges, log.decorate, log.showSignature, text conversion; log of metadata: diff.renames, log.showRoot, log.showSignature, i18n.logOutputEncoding; log of parents: log.showSignature; blame: ignored revisions, text conversion; listings of files: core.quotePath) the command line has a setting or a flag that decides it, with the value that the readers expect.", func(c *Ctx) {
		logs := c.gitLogs()
		_ = logs
		var roots []*ssa.Function
		for _, fn := range c.p.Fns {
			if fn.Parent() == nil && fn.Signature.Recv() != nil && isNamed(fn.Signature.Recv().Type(), mp("ripsrc.Ripsrc")) {
				roots = append(roots, fn)
			}
		}
		lib := c.p.reachFns(roots)
		for _, k := range c.p.gitCommands().cmds {
			if k.kind != "git" || k.ins == nil || !lib[k.root] && !k.runRoot() {
				continue
			}
			a := parseGit(k.argv)
			kind := a.sub
			if a.sub == "log" {
				kind = a.logKind()
			}
			if !k.argvKnown() && kind != "blame" {
				if !k.runRoot() {
					continue // C16 names these
				}
				continue
			}
			if kind == "" {
				continue
			}
			c.Count(kind, 1)
			for _, p := range gitPins {
				if !hasWord(p.kind, kind) {
					continue
				}
				c.Count("settings decided", 1)
				fixed, wrong := p.fixed(a)
				switch {
				case wrong != "":
					c.ViolateAt("setting "+p.name+" of "+kind, k.pos, k.trace, "the command that reads %s runs with %s: %s", kind, wrong, p.what)
				case !fixed:
					c.ViolateAt("setting "+p.name+" of "+kind, k.pos, k.trace, "the command that reads %s leaves %s to the user: %s", kind, p.name, p.what)
				}
			}
		}
		for _, n := range []string{"patches", "metadata", "graph", "blame"} {
			c.Min(n, 1)
		}
	})
}

func hasWord(s, w string) bool {
	for _, f := range strings.Fields(s) {
		if f == w {
			return true
		}
	}
	return false
}
