package main

import "simrt"

// SchedSpec describes how schedules are drawn.  All of it is a function of the
// case's seed.
type SchedSpec struct {
	Kind   string  `json:"kind"`           // "seq", "walk", "pct", "trace"
	Mean   int     `json:"mean,omitempty"` // walk: mean statements between switches
	Seed   uint64  `json:"seed,omitempty"` // walk, pct
	Stalls []Stall `json:"stalls,omitempty"`
	GCAt   []int64 `json:"gc_at,omitempty"` // global steps at which to collect
}

// Stall freezes a task in the middle of an operation.
type Stall struct {
	Task  int   `json:"task"`
	Op    int   `json:"op"`             // 1-based operation index within the task
	Step  int64 `json:"step,omitempty"` // own statements into the operation, or
	Site  int32 `json:"site,omitempty"` // the statement (index+1) at which to stop,
	Nth   int   `json:"nth,omitempty"`  // when it is reached for the nth time (from 0)
	For   int64 `json:"for"`            // global statements to stay away; <0: until nothing else can run
	Hang  bool  `json:"hang,omitempty"` // never comes back
	GC    bool  `json:"gc,omitempty"`   // collect before it comes back
	Fired bool  `json:"-"`
}

type walkPol struct {
	r     *Rng
	spec  *SchedSpec
	base  int // id of the first concurrent task
	gc    []int64
	prio  map[int]uint64
	chg   []int64
	slice map[int]int64
	Stats *FaultStats
	pend  map[int]*Stall
	back  map[int]bool // stalled tasks before whose return to collect
	// order
	lastBest *simrt.Task
	same     int
}

// FaultStats counts faults that actually happened.
type FaultStats struct {
	Stalls, Hangs, GCs, LockedStalls, Panics int64
}

func newWalk(spec *SchedSpec, base int, st *FaultStats) *walkPol {
	p := &walkPol{r: NewRng(spec.Seed, "sched"), spec: spec, base: base, gc: append([]int64{}, spec.GCAt...), Stats: st, pend: map[int]*Stall{}}
	if spec.Kind == "pct" {
		p.prio = map[int]uint64{}
		p.slice = map[int]int64{}
	}
	return p
}

func (p *walkPol) Pick(s *simrt.Sched, ready []*simrt.Task) (*simrt.Task, int, bool) {
	t, n, gc := p.pick(s, ready)
	if !gc && t != nil && p.back[t.ID] {
		delete(p.back, t.ID)
		p.Stats.GCs++
		return nil, 0, true
	}
	return t, n, gc
}

func (p *walkPol) pick(s *simrt.Sched, ready []*simrt.Task) (*simrt.Task, int, bool) {
	if len(p.gc) > 0 && s.Global >= p.gc[0] {
		p.gc = p.gc[1:]
		p.Stats.GCs++
		return nil, 0, true
	}
	lim := 20000
	if len(p.gc) > 0 {
		lim = min(lim, int(p.gc[0]-s.Global))
	}
	switch p.spec.Kind {
	case "seq":
		return ready[0], lim, false
	case "order": // one task after another, in a random order
		if p.prio == nil {
			p.prio = map[int]uint64{}
		}
		var best *simrt.Task
		for _, t := range ready {
			if _, ok := p.prio[t.ID]; !ok {
				p.prio[t.ID] = p.r.U()
			}
			if best == nil || p.prio[t.ID] > p.prio[best.ID] {
				best = t
			}
		}
		// a task that spins on another one gives way
		if best == p.lastBest {
			if p.same++; p.same > 20 {
				p.prio[best.ID], p.same = p.r.U()>>8, 0
			}
		} else {
			p.lastBest, p.same = best, 0
		}
		return best, min(3000, lim), false
	case "pct":
		var best *simrt.Task
		for _, t := range ready {
			if _, ok := p.prio[t.ID]; !ok {
				p.prio[t.ID] = p.r.U()>>1 | 1<<62
			}
			if best == nil || p.prio[t.ID] > p.prio[best.ID] {
				best = t
			}
		}
		// a task that keeps the processor for long is spinning or slow: demote it
		n := p.r.Geo(p.spec.Mean)
		p.slice[best.ID] += int64(n)
		if p.r.N(100) < 30 || p.slice[best.ID] > 6000 {
			p.prio[best.ID] = p.r.U() >> 2
			p.slice[best.ID] = 0
		}
		return best, min(n, lim), false
	}
	t := ready[p.r.N(len(ready))]
	return t, min(p.r.Geo(p.spec.Mean), lim), false
}

func (p *walkPol) OpBegin(s *simrt.Sched, t *simrt.Task) int64 {
	for i := range p.spec.Stalls {
		st := &p.spec.Stalls[i]
		if st.Task == t.ID-p.base && st.Op == t.OpIndex() {
			p.pend[t.ID] = st
			if st.Site > 0 {
				s.Watch(t, st.Site-1, st.Nth)
				return 0
			}
			return st.Step
		}
	}
	return 0
}

func (p *walkPol) Cut(s *simrt.Sched, t *simrt.Task) {
	st := p.pend[t.ID]
	delete(p.pend, t.ID)
	if st == nil || !t.InOp || t.OpIndex() != st.Op {
		return
	}
	if st.Hang {
		s.Freeze(t)
		p.Stats.Hangs++
		return
	}
	p.Stats.Stalls++
	if st.GC {
		if p.back == nil {
			p.back = map[int]bool{}
		}
		p.back[t.ID] = true
	}
	if st.For < 0 {
		s.Stall(t, 1<<60)
	} else {
		s.Stall(t, s.Global+st.For)
	}
}

// tracePol replays recorded segments, then runs tasks one after another.
type tracePol struct {
	segs []simrt.Seg
	i    int
}

func (p *tracePol) Pick(s *simrt.Sched, ready []*simrt.Task) (*simrt.Task, int, bool) {
	for p.i < len(p.segs) {
		g := p.segs[p.i]
		p.i++
		if g.T == simrt.GCSeg {
			return nil, 0, true
		}
		if g.T == simrt.HangSeg {
			if g.N < len(s.Tasks) {
				s.Tasks[g.N].Frozen = true
			}
			return nil, 0, false
		}
		for _, t := range ready {
			if t.ID == g.T {
				return t, g.N, false
			}
		}
	}
	// rest: round robin with long turns, so that a spinning task cannot starve the others
	for _, t := range ready {
		if t.ID >= s.RR {
			s.RR = t.ID + 1
			return t, 3000, false
		}
	}
	s.RR = ready[0].ID + 1
	return ready[0], 3000, false
}
func (p *tracePol) OpBegin(s *simrt.Sched, t *simrt.Task) int64 { return 0 }
func (p *tracePol) Cut(s *simrt.Sched, t *simrt.Task)           {}
