package main

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"simreset"
	"simrt"
)

// variants is how many executions are drawn from one workload.
const variants = 8

// Group is one workload and the executions drawn from it.
type Group struct {
	P     *Prop
	Base  *Case
	g     *Rng
	probe Probe
	steps int64
}

func newGroup(p *Prop, seed uint64, gi int) *Group {
	b := newBuilder(simrt.Mix(seed*0x9e3779b97f4a7c15^uint64(gi)*0xda942042e4dd58b5), "case-"+p.ID, p.Modes)
	p.Gen(b)
	b.c.Prop, b.c.Scen = p.ID, fmt.Sprintf("%s/%d", p.ID, gi)
	b.c.Seed = seed
	return &Group{P: p, Base: b.c, g: b.g}
}

// Case returns the case of a variant.  Variant 0 runs the tasks one after
// another and records what each operation passes; some of the others suspend
// tasks at statements chosen among those.
func (gr *Group) Case(v int) *Case {
	c := *gr.Base
	g := NewRng(gr.Base.Seed^uint64(v)*0x9e37, "variant-"+gr.Base.Scen)
	c.Sched = SchedSpec{Seed: g.U()}
	switch {
	case v == 0:
		c.Sched.Kind = "order"
	case v <= 2 && !gr.P.Hang:
		c.Sched.Kind = []string{"walk", "walk", "pct"}[g.N(3)]
		c.Sched.Mean = []int{1, 3, 10, 40, 200, 1000}[g.N(6)]
	default:
		c.Sched.Kind = []string{"order", "order", "walk"}[g.N(3)]
		c.Sched.Mean = []int{5, 50, 500, 5000}[g.N(4)]
		n := 1 + g.Pick(5, 3, 1)
		for i := 0; i < n; i++ {
			if st, ok := gr.stall(g, gr.P.Hang && i == 0); ok {
				c.Sched.Stalls = append(c.Sched.Stalls, st)
			}
		}
	}
	if gr.P.GC && v > 0 {
		at := int64(0)
		for i := range c.Sched.Stalls {
			c.Sched.Stalls[i].GC = g.Bool(60)
		}
		for i := g.Between(0, 2) + min(1, max(0, 3-v)); i > 0; i-- {
			at += int64(g.N(int(gr.steps)/2 + 10))
			c.Sched.GCAt = append(c.Sched.GCAt, at)
		}
	}
	return &c
}

// stall picks a statement that an operation passed in the probe run.
func (gr *Group) stall(g *Rng, hang bool) (st Stall, ok bool) {
	if len(gr.probe) == 0 {
		return
	}
	var ks [][2]int
	for k := range gr.probe {
		if !hang || k[0] == 0 {
			ks = append(ks, k)
		}
	}
	if len(ks) == 0 {
		return
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i][0] < ks[j][0] || ks[i][0] == ks[j][0] && ks[i][1] < ks[j][1] })
	k := ks[g.N(len(ks))]
	if g.Bool(40) { // prefer the operations that do most
		for i := 0; i < 2; i++ {
			if o := ks[g.N(len(ks))]; len(gr.probe[o]) > len(gr.probe[k]) {
				k = o
			}
		}
	}
	var sites, own []int32
	for s := range gr.probe[k] {
		sites = append(sites, s)
	}
	sort.Slice(sites, func(i, j int) bool { return sites[i] < sites[j] })
	for _, s := range sites {
		if simreset.Sites[s][0] == '@' {
			own = append(own, s)
		}
	}
	if len(own) > 0 && g.Bool(75) {
		sites = own
	}
	s := sites[g.N(len(sites))]
	st = Stall{Task: k[0], Op: k[1], Site: s + 1, Nth: g.N(min(gr.probe[k][s], 6)), For: -1, Hang: hang}
	if g.Bool(30) {
		st.Nth = g.N(gr.probe[k][s])
	}
	if g.Bool(35) {
		st.For = int64([]int{30, 300, 3000, 30000}[g.N(4)])
	}
	return st, true
}

// run executes one variant of the group.
func (gr *Group) run(v int) (*Case, *Run) {
	c := gr.Case(v)
	if v == 0 {
		gr.probe = Probe{}
		r, _ := execute(c, true, gr.probe)
		gr.steps = r.Stats.ConcSteps
		return c, r
	}
	r, _ := Execute(c, true)
	return c, r
}

// Sum is what a worker reports.
type Sum struct {
	Runs, Groups, Steps, ConcSteps, SimNanos, Switches, Preempts, Ops int64
	Stalls, Hangs, GCs                                                int64
	Blocks, Torn, Panics, Logs                                        int64
	Concurrent                                                        int64 // runs in which an operation was preempted
	Modes, Kinds, OpKinds                                             map[string]int64
	Foreign                                                           map[string]int64 // failures that break other properties
	ForeignEx                                                         map[string]string
	Hashes                                                            []uint64 // distinct schedules
	Pairs                                                             []uint64 // distinct (site preempted, site resumed)
	SitesHit                                                          []int32
	Rechecked, Diverged                                               int64
	Samples                                                           []string
	Found                                                             *Found
	TimedOut                                                          bool
	LastGroup                                                         int
}

// Found is a violation as the worker saw it.
type Found struct {
	Prop    string `json:"property"`
	Class   string `json:"class"`
	Msg     string `json:"message"`
	Seed    uint64 `json:"seed"`
	Group   int    `json:"group"`
	Variant int    `json:"variant"`
	Case    *Case  `json:"case"`
	History string `json:"history,omitempty"`
}

func digest(c *Case, r *Run) uint64 {
	h := fnv.New64a()
	fmt.Fprint(h, c.Scen, r.Stats.Hash, r.Stats.Steps, r.HistString(), r.All)
	return h.Sum64()
}

// work executes groups from, from+stride, ... < to.
func work(p *Prop, seed uint64, from, stride, to int, deadline time.Time, status *os.File) *Sum {
	s := &Sum{Modes: map[string]int64{}, Kinds: map[string]int64{}, OpKinds: map[string]int64{}, Foreign: map[string]int64{}, ForeignEx: map[string]string{}}
	hashes, pairs, sites := map[uint64]bool{}, map[uint64]bool{}, map[int32]bool{}
	defer func() {
		for h := range hashes {
			s.Hashes = append(s.Hashes, h)
		}
		for h := range pairs {
			s.Pairs = append(s.Pairs, h)
		}
		for h := range sites {
			s.SitesHit = append(s.SitesHit, h)
		}
	}()
	since := 0
	for gi := from; gi < to; gi += stride {
		if time.Now().After(deadline) {
			s.TimedOut = true
			return s
		}
		gr := newGroup(p, seed, gi)
		s.Groups++
		s.LastGroup = gi
		for v := 0; v < variants; v++ {
			if status != nil {
				status.WriteAt([]byte(fmt.Sprintf("%12d %4d\n", gi, v)), 0)
			}
			c, r := gr.run(v)
			if v == 0 {
				for _, m := range gr.probe {
					for k := range m {
						sites[k] = true
					}
				}
			}
			st := r.Stats
			s.Runs++
			s.Steps += st.Steps
			s.ConcSteps += st.ConcSteps
			s.SimNanos += st.SimNanos
			s.Switches += st.Switches
			s.Preempts += st.Preempts
			s.Ops += st.Ops
			s.Stalls += st.Faults.Stalls
			s.Hangs += st.Faults.Hangs
			s.GCs += r.S.GCs
			s.Blocks += r.S.Blocks
			s.Torn += r.S.Torn
			s.Panics += st.Faults.Panics
			s.Logs += st.Logs
			if st.Preempts > 0 {
				s.Concurrent++
				hashes[st.Hash] = true
			}
			for _, k := range st.Pairs {
				pairs[k] = true
			}
			md := c.Mode
			if len(c.Modes) > 0 {
				md = "mixed"
			}
			s.Modes[md]++
			s.Kinds[c.Sched.Kind]++
			for _, e := range r.Hist {
				s.OpKinds[e.Op.Kind]++
			}
			if f := r.Broken(p); f != nil {
				s.Found = &Found{Prop: p.ID, Class: f.Class, Msg: f.Msg, Seed: seed, Group: gi, Variant: v, Case: c, History: r.HistString()}
				return s
			} else if len(r.All) > 0 {
				s.Foreign[r.All[0].Class]++
				if s.ForeignEx[r.All[0].Class] == "" {
					s.ForeignEx[r.All[0].Class] = fmt.Sprintf("group %d variant %d: %.300s", gi, v, r.All[0].Msg)
				}
			}
			if s.Runs%97 == 5 { // the simulation itself must be deterministic
				s.Rechecked++
				d := digest(c, r)
				c2 := *c
				r2, _ := Execute(&c2, true)
				if v == 0 {
					r2, _ = execute(&c2, true, Probe{})
				}
				if digest(&c2, r2) != d {
					s.Diverged++
				}
			}
			if len(s.Samples) < 2 && st.Preempts > 0 && v > 2 && len(c.Pre) < 12 {
				s.Samples = append(s.Samples, describe(c, r))
			}
			if since += len(c.Keys); since > 1200 {
				since = 0
				debug.FreeOSMemory()
			}
		}
	}
	return s
}

func describe(c *Case, r *Run) string {
	j, _ := json.Marshal(struct {
		Mode  string
		MPB   int
		Keys  []Key
		Pre   []Op
		Tasks [][]Op
		Sched SchedSpec
	}{c.Mode, c.MPB, c.Keys, c.Pre, c.Tasks, c.Sched})
	return fmt.Sprintf("%s; %d statements, %d switches; history: %s", j, r.Stats.Steps, r.Stats.Switches, strings.ReplaceAll(clip(r.HistString(), 700), "\n", "; "))
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}
