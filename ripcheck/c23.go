package main

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp/syntax"
	"sort"
	"strings"
)

func init() {
	register("C23", "The patterns of the published list, translated as its generator documents (dots quoted, stars any text, comments, blank lines and lines that begin with ! left out; the last line counts without a newline too), against the pattern compiled into the matcher that decides the exclusion gate: both are turned into automata and compared on all texts (product of the two subset constructions over the classes of characters either tells apart); a difference is reported with the patterns that are missing or extra and a text that shows it. Besides, as in C22, every path of the inspection of a file: the matcher gets the path of the file unchanged, the reason names the list exactly when it matched and nothing before it did, and cache entries are made for the path they were computed for.", runC23)
}

const patternList = "custom_patterns.txt"

// listedPatterns: the published list, translated.
func (p *Prog) listedPatterns() []string {
	b, err := os.ReadFile(filepath.Join(p.Dir, patternList))
	if err != nil {
		return nil
	}
	var res []string
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if l == "" || l[0] == '#' || l[0] == '!' {
			continue
		}
		if i := strings.Index(l, "#"); i > 0 {
			l = strings.TrimSpace(l[:i])
		}
		l = strings.ReplaceAll(l, ".", "\\.")
		res = append(res, strings.ReplaceAll(l, "*", "(.*?)"))
	}
	return res
}

// alternatives of a pattern at its top level, or in the one group it is.
func alternatives(pat string) []string {
	cut := func(s string) []string {
		var res []string
		depth, from, class := 0, 0, false
		for i := 0; i < len(s); i++ {
			switch {
			case s[i] == '\\':
				i++
			case class:
				class = s[i] != ']'
			case s[i] == '[':
				class = true
			case s[i] == '(':
				depth++
			case s[i] == ')':
				if depth--; depth < 0 {
					return nil
				}
			case s[i] == '|' && depth == 0:
				res = append(res, s[from:i])
				from = i + 1
			}
		}
		return append(res, s[from:])
	}
	for {
		l := cut(pat)
		if len(l) > 1 || !strings.HasPrefix(pat, "(") || !strings.HasSuffix(pat, ")") {
			return l
		}
		in := strings.TrimPrefix(pat[1:len(pat)-1], "?:")
		if cut(in) == nil {
			return l
		}
		pat = in
	}
}

// isExclusion: most alternatives of a pattern are listed.
func (p *Prog) isExclusion(pat string) bool {
	listed := map[string]bool{}
	for _, l := range p.listedPatterns() {
		listed[l] = true
	}
	n := 0
	alts := alternatives(pat)
	for _, a := range alts {
		if listed[a] {
			n++
		}
	}
	return n > 0 && 2*n > len(alts)
}

// dfa: the subset construction of a pattern, for a search anywhere in a text.
type dfa struct {
	prog *syntax.Prog
}

func newDFA(pat string) (*dfa, error) {
	re, err := syntax.Parse(pat, syntax.Perl)
	if err != nil {
		return nil, err
	}
	p, err := syntax.Compile(re.Simplify())
	if err != nil {
		return nil, err
	}
	for _, in := range p.Inst {
		if in.Op == syntax.InstEmptyWidth && syntax.EmptyOp(in.Arg)&^(syntax.EmptyBeginText|syntax.EmptyEndText) != 0 {
			return nil, fmt.Errorf("word or line boundaries are not followed")
		}
	}
	return &dfa{p}, nil
}

// close: the instructions that read a character, reached from the given ones,
// and whether a match is.
func (d *dfa) close(from map[uint32]bool, begin, end bool) (map[uint32]bool, bool) {
	res, seen, match := map[uint32]bool{}, map[uint32]bool{}, false
	var walk func(pc uint32)
	walk = func(pc uint32) {
		if seen[pc] {
			return
		}
		seen[pc] = true
		in := d.prog.Inst[pc]
		switch in.Op {
		case syntax.InstAlt, syntax.InstAltMatch:
			walk(in.Out)
			walk(in.Arg)
		case syntax.InstCapture, syntax.InstNop:
			walk(in.Out)
		case syntax.InstEmptyWidth:
			op := syntax.EmptyOp(in.Arg)
			switch {
			case op&syntax.EmptyBeginText != 0 && !begin:
			case op&syntax.EmptyEndText != 0 && !end:
				res[pc] = true // kept: it may be the end
			default:
				walk(in.Out)
			}
		case syntax.InstMatch:
			match = true
		case syntax.InstFail:
		default:
			res[pc] = true
		}
	}
	for pc := range from {
		walk(pc)
	}
	return res, match
}

type dstate struct {
	set     map[uint32]bool
	matched bool
}

func (s dstate) key() string {
	if s.matched {
		return "match"
	}
	var l []int
	for pc := range s.set {
		l = append(l, int(pc))
	}
	sort.Ints(l)
	return fmt.Sprint(l)
}

func (d *dfa) start() dstate {
	set, m := d.close(map[uint32]bool{uint32(d.prog.Start): true}, true, false)
	return dstate{set, m}
}

func (d *dfa) step(s dstate, r rune) dstate {
	if s.matched {
		return s
	}
	next := map[uint32]bool{uint32(d.prog.Start): true}
	for pc := range s.set {
		in := &d.prog.Inst[pc]
		if in.Op != syntax.InstEmptyWidth && in.MatchRune(r) {
			next[in.Out] = true
		}
	}
	set, m := d.close(next, false, false)
	return dstate{set, m}
}

// ends: the text so far is matched. first: it is empty.
func (d *dfa) ends(s dstate, first bool) bool {
	if s.matched {
		return true
	}
	_, m := d.close(s.set, first, true)
	return m
}

// runes: one character for each class the two patterns tell apart.
func runeClasses(ds ...*dfa) []rune {
	cut := map[rune]bool{0: true}
	add := func(lo, hi rune) {
		cut[lo] = true
		if hi < 0x10ffff {
			cut[hi+1] = true
		}
	}
	for _, d := range ds {
		for _, in := range d.prog.Inst {
			switch in.Op {
			case syntax.InstRune, syntax.InstRune1:
				if len(in.Rune) == 1 {
					add(in.Rune[0], in.Rune[0])
					if syntax.Flags(in.Arg)&syntax.FoldCase != 0 {
						for r := rune(0); r <= 0x10ffff; r++ {
							if in.MatchRune(r) {
								add(r, r)
							}
						}
					}
					continue
				}
				for i := 0; i+1 < len(in.Rune); i += 2 {
					add(in.Rune[i], in.Rune[i+1])
				}
			case syntax.InstRuneAnyNotNL:
				add('\n', '\n')
			}
		}
	}
	var res []rune
	for r := range cut {
		res = append(res, r)
	}
	sort.Slice(res, func(i, j int) bool { return res[i] < res[j] })
	return res
}

// difference: a shortest text that one pattern matches and the other does not.
func difference(a, b *dfa) (text string, inA, differ bool, states int, err error) {
	type node struct {
		a, b dstate
		text string
	}
	runes := runeClasses(a, b)
	q := []node{{a.start(), b.start(), ""}}
	seen := map[string]bool{q[0].a.key() + q[0].b.key(): true}
	for len(q) > 0 {
		n := q[0]
		q = q[1:]
		if x, y := a.ends(n.a, n.text == ""), b.ends(n.b, n.text == ""); x != y {
			return n.text, x, true, len(seen), nil
		}
		if n.a.matched && n.b.matched {
			continue
		}
		for _, r := range runes {
			m := node{a.step(n.a, r), b.step(n.b, r), n.text + string(r)}
			if k := m.a.key() + m.b.key(); !seen[k] {
				if seen[k] = true; len(seen) > 60000 {
					return "", false, false, len(seen), fmt.Errorf("too many states")
				}
				q = append(q, m)
			}
		}
	}
	return "", false, false, len(seen), nil
}

func runC23(c *Ctx) {
	want := c.p.listedPatterns()
	if len(want) == 0 {
		c.Violate("no list", 0, "the published list %s holds no pattern", patternList)
		return
	}
	c.Count("listed patterns", len(want))
	n := 0
	for _, fn := range c.p.fileGateRoots() {
		n++
		c.fileGates(fn, "excl")
	}
	if n == 0 {
		c.Violate("no detection", 0, "no exported function of %s detects the language of a file", infoPkg)
	}
	c.Min("matches of the exclusion list", 1)
	for _, g := range c.p.regexGlobals(infoPkg) {
		pat, ok := c.p.regexpOf(g)
		if !ok || !c.p.isExclusion(pat) {
			continue
		}
		c.Count("matchers", 1)
		have := alternatives(pat)
		hs, ws := map[string]bool{}, map[string]bool{}
		for _, a := range have {
			hs[a] = true
		}
		for _, a := range want {
			ws[a] = true
		}
		var missing, extra []string
		for a := range ws {
			if !hs[a] {
				missing = append(missing, a)
			}
		}
		for a := range hs {
			if !ws[a] {
				extra = append(extra, a)
			}
		}
		sort.Strings(missing)
		sort.Strings(extra)
		l, err := newDFA("(" + strings.Join(want, "|") + ")")
		if err != nil {
			c.Violate("list", g.Pos(), "the published list does not compile: %v", err)
			continue
		}
		m, err := newDFA(pat)
		if err != nil {
			c.Violate("matcher", g.Pos(), "the pattern of %s was not followed: %v", g.Name(), err)
			continue
		}
		text, inList, differ, states, err := difference(l, m)
		c.Count("states of the product", states)
		switch {
		case err != nil && len(missing)+len(extra) > 0:
			c.Violate("matcher", g.Pos(), "%s misses %q and has %q besides the published list", g.Name(), missing, extra)
		case err != nil || !differ:
		case inList:
			c.Violate("matcher misses", g.Pos(), "%s does not match %q, which the published list does (missing %q, not listed %q)", g.Name(), text, missing, extra)
		default:
			c.Violate("matcher adds", g.Pos(), "%s matches %q, which the published list does not (missing %q, not listed %q)", g.Name(), text, missing, extra)
		}
	}
	c.Min("matchers", 1)
}
