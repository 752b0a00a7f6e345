package main

import (
	"golang.org/x/tools/go/ssa"
)

// reachSet: the channels and objects each process can get at.
type skReach struct {
	chans map[int]int // channel: bit set of process positions
	objs  map[int]int
}

func (s *Skel) reach(st *skState) *skReach {
	r := &skReach{chans: map[int]int{}, objs: map[int]int{}}
	for i, p := range st.procs {
		bit := 1 << uint(i)
		var val func(v *SV)
		val = func(v *SV) {
			if v == nil {
				return
			}
			switch v.k {
			case kChan:
				if r.chans[v.n]&bit != 0 {
					return
				}
				r.chans[v.n] |= bit
				if c := st.chans[v.n]; c != nil {
					for _, b := range c.buf {
						val(b)
					}
				}
			case kPtr:
				if r.objs[v.n]&bit != 0 {
					return
				}
				r.objs[v.n] |= bit
				if o := st.heap[v.n]; o != nil {
					val(o.val)
				}
			default:
				for _, x := range v.vs {
					val(x)
				}
			}
		}
		for _, e := range p.env {
			val(&SV{k: kChan, n: e})
		}
		for i, f := range p.frames {
			pc := f.pc
			if i < len(p.frames)-1 {
				if _, ok := f.b.Instrs[pc].(*ssa.RunDefers); !ok {
					pc++
				}
			}
			for _, v := range s.live(f.b, pc) {
				val(f.regs[v])
			}
			if f.ondone != nil {
				val(f.ondone)
			}
			for _, d := range f.defers {
				val(d.fn)
				for _, a := range d.args {
					val(a)
				}
			}
		}
		for _, id := range st.globals {
			val(&SV{k: kPtr, n: id})
		}
	}
	return r
}

// ample picks a process whose next operation no other process can interfere with: one at a plain receive from or
// send on a channel that only it and its partner can get at, at a receive from a closed channel, or at the close of
// a channel that nobody else can get at. -1 if there is none.
func (s *Skel) ample(st *skState) int {
	r := s.reach(st)
	ops := make([]*skOp, len(st.procs))
	for i, p := range st.procs {
		ops[i] = s.op(st, p)
	}
	for i := range st.procs {
		o := ops[i]
		if o == nil {
			continue
		}
		switch o.kind {
		case "recv", "env":
			if o.ch.k == kChan {
				c := st.chans[o.ch.n]
				if c.closed && len(c.buf) == 0 {
					return i
				}
				if len(c.buf) > 0 && r.chans[o.ch.n] == 1<<uint(i) {
					return i
				}
			}
		case "close":
			if o.ch.k == kChan && !st.chans[o.ch.n].closed {
				only := true
				for j, q := range st.procs {
					if j != i && r.chans[o.ch.n]&(1<<uint(j)) != 0 && !q.isEnv {
						only = false
					}
				}
				if only {
					return i
				}
			}
		case "send":
			if o.ch.k != kChan {
				continue
			}
			c := st.chans[o.ch.n]
			if c.closed || c.cap > 0 {
				continue
			}
			partners, others := 0, 0
			for j := range st.procs {
				if j == i || r.chans[o.ch.n]&(1<<uint(j)) == 0 {
					continue
				}
				if q := ops[j]; q != nil && (q.kind == "recv" || q.kind == "env") && q.ch.k == kChan && q.ch.n == o.ch.n {
					partners++
				} else {
					others++
				}
			}
			if partners == 1 && others == 0 {
				return i
			}
		}
	}
	return -1
}
