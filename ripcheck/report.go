package main

import (
	"encoding/json"
	"fmt"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Check decides one property.
type Check struct {
	ID   string
	Rule string // what is decided, in one paragraph
	Run  func(c *Ctx)
}

var checks = map[string]*Check{}

func register(id, rule string, run func(c *Ctx)) { checks[id] = &Check{id, rule, run} }

// Finding is one violated obligation. Key names rule and construct, never a line.
type Finding struct {
	Key   string   `json:"key"`
	Pos   string   `json:"pos"`
	Msg   string   `json:"msg"`
	Trace []string `json:"path,omitempty"`
}

// Ctx collects what one check analysed and found.
type Ctx struct {
	p        *Prog
	id       string
	tier     string
	findings map[string]*Finding
	rules    map[string]int // rule -> instances
	minimum  map[string]int
	fns      map[string]bool
	states   int
	steps    int
	sims     int
	notes    []string
}

func (c *Ctx) Violate(key string, pos token.Pos, format string, a ...interface{}) {
	c.ViolateAt(key, c.p.Pos(pos), nil, format, a...)
}

func (c *Ctx) ViolateAt(key string, pos string, trace []string, format string, a ...interface{}) {
	if c.findings[key] != nil {
		return
	}
	c.findings[key] = &Finding{Key: key, Pos: pos, Msg: fmt.Sprintf(format, a...), Trace: trace}
}

// Count records n instances of a rule; Min demands at least n of them.
func (c *Ctx) Count(rule string, n int) { c.rules[rule] += n }
func (c *Ctx) Min(rule string, n int)   { c.minimum[rule] = n }
func (c *Ctx) Saw(fn *ssa.Function)     { c.fns[fnName(fn)] = true }

// Must resolves an anchor or reports it as missing.
func (c *Ctx) Must(rel, name string) *ssa.Function {
	f := c.p.Func(rel, name)
	if f == nil || f.Blocks == nil {
		c.ViolateAt("anchor "+rel+" "+name, "?", nil, "the function %s of package %s, which this rule starts from, is not there", name, rel)
		return nil
	}
	c.Saw(f)
	return f
}

// Sim runs one property simulation and merges its findings.
func (c *Ctx) Sim(name string, fn *ssa.Function, r *Rule, auto Auto) *Sim {
	if fn == nil {
		return nil
	}
	s := NewSim(c.p, r)
	s.Run(fn, auto)
	c.Merge(name, s)
	return s
}

func (c *Ctx) Merge(name string, s *Sim) {
	c.sims++
	c.states += s.States
	c.steps += s.Steps
	for f := range s.Inlined {
		c.Saw(f)
	}
	for k, v := range s.viol {
		c.ViolateAt(name+": "+k, c.p.Pos(v.Pos), v.Trace, "%s", v.Msg)
	}
	if s.Over {
		c.ViolateAt(name+": undecided", c.p.Pos(s.root.fn.Pos()), nil, "undecided: more than %d abstract states", s.States)
	}
	if s.RecHit != "" {
		c.ViolateAt(name+": undecided recursion", c.p.Pos(s.root.fn.Pos()), nil, "undecided: recursion of %s is deeper than the analysis follows", s.RecHit)
	}
}

type knownEntry struct{ id, key, what string }

func readKnown(path string) (out []knownEntry) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		l = strings.TrimPrefix(l, "known: ")
		e := knownEntry{}
		if i := strings.Index(l, " key={"); i >= 0 && strings.HasPrefix(l, "property=") {
			e.id = l[len("property="):i]
			rest := l[i+len(" key={"):]
			if j := strings.Index(rest, "} "); j >= 0 {
				e.key, e.what = rest[:j], rest[j+2:]
				out = append(out, e)
			}
		}
	}
	return
}

func runCheck(p *Prog, loadErr error, ch *Check, verif string, tier string, seed int, start time.Time) (ok bool) {
	c := &Ctx{p: p, id: ch.ID, tier: tier, findings: map[string]*Finding{}, rules: map[string]int{}, minimum: map[string]int{}, fns: map[string]bool{}}
	if loadErr != nil {
		c.ViolateAt("load", "?", nil, "the program could not be type-checked: %v", loadErr)
	} else {
		func() {
			defer func() {
				if r := recover(); r != nil {
					if os.Getenv("RIPCHECK_PANIC") != "" {
						panic(r)
					}
					c.ViolateAt("analyzer", "?", nil, "undecided: the analyzer failed: %v", r)
				}
			}()
			ch.Run(c)
		}()
	}
	var names []string
	for r := range c.minimum {
		names = append(names, r)
	}
	sort.Strings(names)
	if loadErr == nil {
		for _, r := range names {
			if c.rules[r] < c.minimum[r] {
				c.ViolateAt("instances "+r, "?", nil, "only %d instances of the rule %q were found, at least %d exist in the confirmed code", c.rules[r], r, c.minimum[r])
			}
		}
	}
	var keys []string
	for k := range c.findings {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	known := readKnown(filepath.Join(verif, "known_findings.txt"))
	var open []*Finding
	var listed []string
	for _, k := range keys {
		f := c.findings[k]
		isKnown := false
		for _, e := range known {
			if e.id == ch.ID && e.key == k {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", ch.ID, e.what)
				isKnown = true
				listed = append(listed, k)
			}
		}
		if !isKnown {
			open = append(open, f)
		}
	}
	evdir := filepath.Join(verif, "evidence")
	os.MkdirAll(filepath.Join(evdir, "replay"), 0777)
	var fl []string
	for f := range c.fns {
		fl = append(fl, f)
	}
	sort.Strings(fl)
	total := 0
	for _, n := range c.rules {
		total += n
	}
	ev := map[string]interface{}{
		"property": ch.ID, "tier": tier, "seed": seed, "level": "other",
		"wall_s": time.Since(start).Seconds(),
		"coverage": map[string]interface{}{
			"explanation":        ch.Rule,
			"functions_analysed": fl,
			"functions":          len(fl),
			"rule_instances":     c.rules,
			"obligations":        total,
			"simulations":        c.sims,
			"abstract_states":    c.states,
			"instructions":       c.steps,
			"known_findings":     listed,
			"open_findings":      len(open),
			"notes":              c.notes,
		},
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(evdir, ch.ID+".json"), append(b, '\n'), 0666)
	if len(open) == 0 {
		fmt.Printf("OK property=%s functions=%d obligations=%d states=%d\n", ch.ID, len(fl), total, c.states)
		return true
	}
	rp := filepath.Join(evdir, "replay", ch.ID+".json")
	b, _ = json.MarshalIndent(map[string]interface{}{"property": ch.ID, "rule": ch.Rule, "violations": open,
		"reproduce": "./check.sh " + ch.ID}, "", " ")
	os.WriteFile(rp, append(b, '\n'), 0666)
	for i, f := range open {
		if i >= 12 {
			fmt.Printf("  ... %d more in %s\n", len(open)-i, rp)
			break
		}
		fmt.Printf("  [%s] %s: %s\n", f.Key, f.Pos, f.Msg)
		if os.Getenv("RIPCHECK_TRACE") != "" {
			for _, t := range f.Trace {
				fmt.Println("      ", t)
			}
		}
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", ch.ID, rp)
	return false
}

func itoa(n int) string { return strconv.Itoa(n) }
