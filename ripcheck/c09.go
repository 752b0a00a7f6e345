package main

import (
	"os"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C09", "Communication skeleton of every exported function that starts goroutines or is given a result channel, all interleavings: a channel it was given is closed when the call has returned, nothing is sent on a closed channel, and no channel is closed twice.", func(c *Ctx) { runSkel(c, "C09") })
	register("C10", "Communication skeleton of every exported function that starts goroutines, all interleavings, with a caller that receives until the channel is closed: no reachable end state leaves the call or one of its goroutines blocked on a channel, lock or wait group; every reader of git output is closed on every path.", func(c *Ctx) {
		runSkel(c, "C10")
		checkReaders(c)
	})
}

// skels explores all roots, once.
func (p *Prog) skels() []*Skel {
	if p.skelRuns != nil {
		return p.skelRuns
	}
	roots := p.skelRoots()
	p.skSlice()
	if w := os.Getenv("SKROOT"); w != "" {
		var rs []*ssa.Function
		for _, r := range roots {
			if strings.Contains(fnName(r), w) {
				rs = append(rs, r)
			}
		}
		roots = rs
	}
	out := make([]*Skel, len(roots))
	var wg sync.WaitGroup
	sem := make(chan bool, 7)
	for i, r := range roots {
		i, r := i, r
		out[i] = NewSkel(p, r)
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- true
			defer func() {
				if e := recover(); e != nil {
					out[i].Failed = e
				}
				<-sem
			}()
			out[i].Run()
			dbg("skel", fnName(r), out[i].States, "ops", len(out[i].Ops), "unknown", len(out[i].Unknowns), out[i].Over)
		}()
	}
	wg.Wait()
	p.skelRuns = out
	return out
}

func runSkel(c *Ctx, prop string) {
	said := map[string]bool{}
	ops := map[ssa.Instruction]bool{}
	for _, s := range c.p.skels() {
		if s.Failed != nil {
			panic(s.Failed)
		}
		r := s.root
		c.Count("calls explored", 1)
		for o := range s.Ops {
			ops[o] = true
		}
		c.sims++
		c.states += s.States
		for f := range s.Fns {
			c.Saw(f)
		}
		for k, v := range s.viol {
			if s.kinds[k] == prop && !said[v.Key] {
				said[v.Key] = true
				c.ViolateAt(v.Key, c.p.Pos(v.Pos), v.Trace, "%s", v.Msg)
			}
		}
		if s.Over {
			c.Violate(fnName(r)+": undecided", r.Pos(), "undecided: too many interleavings (%d)", s.States)
		}
	}
	c.Count("operations", len(ops))
	c.Min("calls explored", 8)
	c.Min("operations", 20)
}
