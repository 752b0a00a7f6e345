package main

import (
	"os"
	"sort"
	"strings"
)

// gitArgs is a parsed git command line.
type gitArgs struct {
	prog   string
	cfg    map[string]string
	sub    string
	flags  map[string]bool // normalised
	format string
	revs   []string // sorted; ranges are split
	rest   []string // revisions and other plain arguments as given
	paths  []string
	hasSep bool
	bad    string
}

var flagAlias = map[string]string{"--patch": "-p", "-u": "-p", "--cc": "-c", "-z": "-z"}

// gitPrint are the flags of git log that choose neither commits nor files nor the spelling of paths.
var gitPrint = map[string]bool{"-p": true, "-m": true, "-c": true, "--raw": true, "--numstat": true, "--reverse": true, "--no-abbrev-commit": true, "--no-abbrev": true, "--full-index": true,
	"--date-order": true, "--topo-order": true, "--author-date-order": true, "--no-color": true, "--no-ext-diff": true, "--no-textconv": true, "--no-notes": true,
	"--no-show-signature": true, "--no-decorate": true, "--no-mailmap": true, "--no-use-mailmap": true, "--diff-merges=separate": true, "--diff-merges=m": true, "--diff-merges=combined": true, "--color=never": true, "--encoding=UTF-8": true}

func isRevFlag(a string) bool {
	switch a {
	case "--all", "--branches", "--remotes", "--tags", "--not", "--stdin":
		return true
	}
	for _, p := range []string{"--branches=", "--remotes=", "--tags=", "--glob=", "--exclude=", "--max-parents=", "--min-parents="} {
		if strings.HasPrefix(a, p) {
			return p != "--max-parents=" && p != "--min-parents="
		}
	}
	return false
}

func splitRev(r string) []string {
	if i := strings.Index(r, "..."); i >= 0 {
		return []string{r}
	}
	if i := strings.Index(r, ".."); i >= 0 {
		to := r[i+2:]
		if to == "" {
			to = "HEAD"
		}
		return []string{"^" + r[:i], to}
	}
	return []string{r}
}

func parseGit(argv []string) *gitArgs {
	g := &gitArgs{cfg: map[string]string{}, flags: map[string]bool{}}
	if len(argv) == 0 {
		g.bad = "empty command line"
		return g
	}
	g.prog = argv[0]
	i := 1
	for ; i < len(argv); i++ {
		a := argv[i]
		if a == "-c" && i+1 < len(argv) {
			i++
			kv := argv[i]
			k, v := kv, "true"
			if j := strings.Index(kv, "="); j >= 0 {
				k, v = kv[:j], kv[j+1:]
			}
			k = strings.ToLower(k)
			if k == "core.quotepath" && (v == "false" || v == "0" || v == "no" || v == "off") {
				v = "false"
			}
			if k == "core.attributesfile" && (v == "{temp}" || v == os.DevNull) {
				v = "empty file"
			}
			g.cfg[k] = v
			continue
		}
		if a == "--no-pager" || a == "-P" {
			continue
		}
		if strings.HasPrefix(a, "-") {
			g.bad = "git option " + a
			return g
		}
		break
	}
	if i >= len(argv) {
		g.bad = "no subcommand"
		return g
	}
	g.sub = argv[i]
	i++
	for ; i < len(argv); i++ {
		a := argv[i]
		if g.hasSep {
			g.paths = append(g.paths, a)
			continue
		}
		if v, ok := flagAlias[a]; ok {
			a = v
		}
		switch {
		case a == "--":
			g.hasSep = true
		case strings.HasPrefix(a, "--pretty=") || strings.HasPrefix(a, "--format="):
			g.format = a[strings.Index(a, "=")+1:]
		case (a == "--pretty" || a == "--format") && i+1 < len(argv):
			i++
			g.format = argv[i]
		case isRevFlag(a):
			g.revs = append(g.revs, a)
			g.rest = append(g.rest, a)
		case strings.HasPrefix(a, "-") && a != "-":
			g.flags[a] = true
		default:
			g.rest = append(g.rest, a)
			g.revs = append(g.revs, splitRev(a)...)
		}
	}
	// a tformat/format prefix only decides about the separator of the lines
	for _, f := range []string{"format:", "tformat:"} {
		if strings.HasPrefix(g.format, f) {
			g.format = "format:" + g.format[len(f):]
			break
		}
	}
	if strings.Contains(g.format, "%") && !strings.HasPrefix(g.format, "format:") {
		g.format = "format:" + g.format
	}
	if len(g.revs) == 0 && g.sub == "log" {
		g.revs = []string{"HEAD"}
	}
	sort.Strings(g.revs)
	return g
}

func (g *gitArgs) pick(f func(string) bool) (out []string) {
	for k := range g.flags {
		if f(k) {
			out = append(out, k)
		}
	}
	sort.Strings(out)
	return
}

// selecting are the flags that choose commits, files or how they are paired and spelled.
func (g *gitArgs) selecting() []string {
	return g.pick(func(s string) bool {
		return !gitPrint[s] && !strings.HasPrefix(s, "--date=") && !strings.HasPrefix(s, "-U") && !strings.HasPrefix(s, "--unified=") && !strings.HasPrefix(s, "--encoding=")
	})
}

// logKind classifies a git log command by what it prints.
func (g *gitArgs) logKind() string {
	if g.sub != "log" {
		return ""
	}
	switch {
	case g.flags["-p"]:
		return "patches"
	case g.flags["--raw"] || g.flags["--numstat"]:
		return "metadata"
	case strings.Contains(g.format, "%P"):
		return "graph"
	}
	return ""
}

// optCombo is one assignment of the options that decide about the revisions.
type optCombo struct{ noFrom, noAll, incl, noOrigin bool }

func (o optCombo) String() string {
	var s []string
	if o.noFrom {
		s = append(s, "no starting commit")
	} else if o.incl {
		s = append(s, "starting commit, inclusive")
	} else {
		s = append(s, "starting commit, exclusive")
	}
	if !o.noAll {
		s = append(s, "all branches")
	}
	return strings.Join(s, ", ")
}

func (k *gitCmd) consistent(o optCombo) bool {
	for n, want := range map[string]bool{"CommitFromIncl": o.noFrom, "AllBranches": o.noAll, "CommitFromMakeNonIncl": o.incl, "BranchesUseOrigin": o.noOrigin} {
		if v, ok := k.opts[n]; ok && v != want {
			return false
		}
	}
	return true
}

func revCombos() (out []optCombo) {
	for i := 0; i < 8; i++ {
		out = append(out, optCombo{noFrom: i&1 != 0, noAll: i&2 != 0, incl: i&4 != 0})
	}
	return
}

// revs are the revisions of the command; an empty list of references is still the list.
func (k *gitCmd) revs() string {
	r := parseGit(k.argv).revs
	const w = "*{WantedBranchRefs}"
	for _, s := range r {
		if s == w {
			return strings.Join(r, " ")
		}
	}
	if k.none {
		r = append([]string{w}, r...)
	}
	return strings.Join(r, " ")
}

// wantRevs are the revisions the documentation of the options prescribes.
func wantRevs(o optCombo) []string {
	if o.noFrom {
		if o.noAll {
			return []string{"HEAD"}
		}
		return []string{"--all"}
	}
	if o.incl {
		return []string{"HEAD", "^{CommitFromIncl}^"}
	}
	return []string{"HEAD", "^{CommitFromIncl}"}
}

// apiRoot: the command was found from a public method (and not from an exported method of an inner package).
func (k *gitCmd) apiRoot() bool {
	return k.root.Signature.Recv() != nil && isNamed(k.root.Signature.Recv().Type(), mp("ripsrc.Ripsrc"))
}

// runRoot: the command was found from the public API or the exported Run of the log processors.
func (k *gitCmd) runRoot() bool {
	return k.apiRoot() || k.root.Name() == "Run" && k.root.Signature.Recv() != nil
}

// argvKnown: the command line is known, apart from the program when an inner package is entered directly.
func (k *gitCmd) argvKnown() bool {
	if len(k.argv) == 0 || k.skip || k.open {
		return false
	}
	for i, a := range k.argv {
		if strings.Contains(a, "{?") && (i > 0 || k.apiRoot()) {
			return false
		}
	}
	return k.known || !k.apiRoot()
}

// gitLogs checks that the command lines are known and sorts the git log commands by kind.
func (c *Ctx) gitLogs() map[string][]*gitCmd {
	g := c.p.gitCommands()
	c.states += g.states
	c.steps += g.steps
	c.sims++
	for f := range g.inlined {
		c.Saw(f)
	}
	for _, o := range g.over {
		c.ViolateAt("git commands: undecided "+o, "?", nil, "undecided: too many abstract states from %s", o)
	}
	logs := map[string][]*gitCmd{}
	for _, k := range g.cmds {
		if k.kind != "git" || !k.runRoot() {
			continue
		}
		c.Count("git command lines", 1)
		if !k.argvKnown() {
			c.ViolateAt("command line of "+k.role, k.pos, k.trace, "a git command of %s is built in a way that is not followed: %v", k.role, k.argv)
			continue
		}
		a := parseGit(k.argv)
		if a.bad != "" {
			c.ViolateAt("command line of "+k.role, k.pos, k.trace, "a git command of %s has the unknown part %s", k.role, a.bad)
			continue
		}
		if n := a.logKind(); n != "" {
			logs[n] = append(logs[n], k)
			c.Count("git log of "+n, 1)
		}
	}
	for _, n := range []string{"patches", "metadata", "graph"} {
		c.Min("git log of "+n, 1)
	}
	return logs
}

func (k *gitCmd) rootName() string {
	if !k.apiRoot() {
		return "inner packages"
	}
	return fnName(k.root)
}

func init() {
	register("C15", "Every command line of git log is computed symbolically from every public method (and from the inner Run methods), for all values of the options that are tested on the way. For every combination of options the patch log and the metadata log must name the same set of revisions (ranges normalised), the same flags that choose commits, files, renames or path spelling, and both must set core.attributesFile to an empty file, diff.renameLimit to the same constant and core.quotePath=false; the commit graph is asked without range or limiting flags, for all refs whenever one of the logs is, in the same repository directory.", func(c *Ctx) {
		logs := c.gitLogs()
		// settings
		var cfg [2]map[string]bool
		var sel [2]map[string]bool
		settings := []string{"core.attributesfile", "diff.renamelimit", "core.quotepath"}
		first := map[string]*gitCmd{}
		for i, n := range []string{"patches", "metadata"} {
			cfg[i], sel[i] = map[string]bool{}, map[string]bool{}
			for _, k := range logs[n] {
				a := parseGit(k.argv)
				first[n] = k
				for _, s := range settings {
					v, ok := a.cfg[s]
					if !ok {
						c.ViolateAt("setting "+s+" of "+n, k.pos, k.trace, "the log of %s does not set %s, so the user's configuration decides", n, s)
						continue
					}
					if s == "core.attributesfile" && v != "empty file" {
						c.ViolateAt("setting "+s+" of "+n, k.pos, k.trace, "the log of %s takes attributes from %s, not from an empty file", n, v)
						continue
					}
					if s == "core.quotepath" && v != "false" {
						c.ViolateAt("setting "+s+" of "+n, k.pos, k.trace, "the log of %s has %s=%s: paths are quoted, while they are used as they are", n, s, v)
						continue
					}
					cfg[i][s+"="+v] = true
				}
				for s, v := range a.cfg {
					if strings.HasPrefix(s, "diff.") || strings.HasPrefix(s, "log.") || strings.HasPrefix(s, "core.") {
						cfg[i][s+"="+v] = true
					}
				}
				sel[i][strings.Join(a.selecting(), " ")] = true
				if len(a.paths) > 0 {
					c.ViolateAt("paths of "+n, k.pos, k.trace, "the log of %s is limited to the paths %v", n, a.paths)
				}
			}
		}
		if k := first["patches"]; k != nil && first["metadata"] != nil {
			if a, b := setStr(cfg[0]), setStr(cfg[1]); a != b {
				c.ViolateAt("settings differ", k.pos, nil, "the log of patches and the log of metadata run with different settings: %s / %s", a, b)
			}
			if a, b := setStr(sel[0]), setStr(sel[1]); a != b {
				c.ViolateAt("flags differ", k.pos, nil, "the log of patches and the log of metadata choose commits or files with different flags: %q / %q", a, b)
			}
			c.Count("compared settings", len(settings))
		}
		// revisions
		roots := map[string]bool{}
		for _, n := range []string{"patches", "metadata", "graph"} {
			for _, k := range logs[n] {
				roots[k.rootName()] = true
			}
		}
		for root := range roots {
			for _, o := range revCombos() {
				revs := map[string]map[string]bool{}
				at := map[string]*gitCmd{}
				dirs := map[string]bool{}
				for n, ks := range logs {
					revs[n] = map[string]bool{}
					for _, k := range ks {
						if k.rootName() == root && k.consistent(o) {
							revs[n][k.revs()] = true
							at[n] = k
							if k.apiRoot() {
								dirs[k.dir] = true
							}
						}
					}
				}
				if len(dirs) > 1 {
					c.ViolateAt("directories", at["graph"].pos, nil, "the logs run in different directories (%s) when called from %s", setStr(dirs), root)
				}
				p, m := at["patches"], at["metadata"]
				if p != nil && m != nil {
					c.Count("compared revisions", 1)
					if a, b := setStr(revs["patches"]), setStr(revs["metadata"]); a != b {
						c.ViolateAt("revisions differ", p.pos, p.trace, "with %s the log of patches covers %q but the log of metadata (%s) covers %q", o, a, m.pos, b)
					} else if len(revs["patches"]) > 1 && root != "inner packages" {
						c.ViolateAt("revisions ambiguous", p.pos, p.trace, "with %s the revisions are not decided by the options: %q", o, a)
					}
				}
				g := at["graph"]
				if g != nil {
					for r := range revs["graph"] {
						ga := strings.Fields(r)
						all, head := false, false
						for _, x := range ga {
							all = all || x == "--all"
							head = head || x == "HEAD"
							if strings.HasPrefix(x, "^") || strings.Contains(x, "...") || x == "--not" || strings.HasPrefix(x, "--exclude") {
								c.ViolateAt("graph range", g.pos, g.trace, "the commit graph leaves out commits: %q", r)
							}
						}
						if !all && !head {
							c.ViolateAt("graph head", g.pos, g.trace, "the commit graph covers %q, which need not contain the commits of HEAD", r)
						}
						for _, n := range []string{"patches", "metadata"} {
							for q := range revs[n] {
								if strings.Contains(" "+q+" ", " --all ") && !all {
									c.ViolateAt("graph refs", g.pos, g.trace, "with %s the log of %s covers all refs but the commit graph covers %q", o, n, r)
								}
							}
						}
					}
				}
			}
		}
		for _, k := range logs["graph"] {
			if s := parseGit(k.argv).selecting(); len(s) > 0 {
				c.ViolateAt("graph flags", k.pos, k.trace, "the commit graph is limited by %v", s)
			}
		}
		c.Min("compared revisions", 4)
	})
}

func setStr(m map[string]bool) string {
	var s []string
	for k := range m {
		s = append(s, k)
	}
	sort.Strings(s)
	return strings.Join(s, " | ")
}
