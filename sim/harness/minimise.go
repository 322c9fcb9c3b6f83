package main

import (
	"runtime/debug"
	"time"

	"simrt"
)

// minimiser shrinks a failing case while it keeps failing in the same class.
type minimiser struct {
	p     *Prop
	class string
	best  *Case
	until time.Time
	n     int
}

func (m *minimiser) over() bool { return time.Now().After(m.until) }

// try executes a candidate under its trace, then under fresh schedules.
func (m *minimiser) try(c *Case, seeds int) bool {
	for i := 0; i <= seeds && !m.over(); i++ {
		t := *c
		if i == 0 {
			t.Sched = SchedSpec{Kind: "trace"}
		} else {
			t.Sched = m.best.Sched
			if t.Sched.Kind == "trace" || i > 1 {
				hang := []Stall{}
				for _, s := range m.best.Sched.Stalls {
					if s.Hang {
						hang = append(hang, s)
					}
				}
				t.Sched = SchedSpec{Kind: "walk", Mean: []int{3, 30, 300, 10}[i%4], Seed: uint64(i), Stalls: hang}
			}
		}
		t.Trace = append([]simrt.Seg{}, c.Trace...)
		r, _ := Execute(&t, true)
		if m.n++; m.n%20 == 0 {
			debug.FreeOSMemory()
		}
		if f := r.Broken(m.p); f != nil && f.Class == m.class {
			m.best = &t
			return true
		}
	}
	return false
}

// shrink removes chunks of a list of length n; keep builds the candidate
// without [i,j).
func (m *minimiser) shrink(n func() int, without func(i, j int) *Case, seeds int) {
	for sz := n(); sz >= 1; sz /= 2 {
		for i := 0; i < n() && !m.over(); {
			j := min(n(), i+sz)
			if !m.try(without(i, j), seeds) {
				i = j
			}
		}
	}
}

func cut[T any](l []T, i, j int) []T { return append(append([]T{}, l[:i]...), l[j:]...) }

func minimise(p *Prop, class string, c *Case, budget time.Duration) *Case {
	m := &minimiser{p: p, class: class, until: time.Now().Add(budget)}
	m.best = c
	for pass := 0; pass < 3 && !m.over(); pass++ {
		before := size(m.best)
		m.shrink(func() int { return len(m.best.Tasks) }, func(i, j int) *Case {
			t := *m.best
			t.Tasks = append([][]Op{}, t.Tasks...)
			for k := i; k < j; k++ {
				t.Tasks[k] = nil // keeps the numbers of the others
			}
			return &t
		}, 0)
		for k := range m.best.Tasks {
			m.shrink(func() int { return len(m.best.Tasks[k]) }, func(i, j int) *Case {
				t := *m.best
				t.Tasks = append([][]Op{}, t.Tasks...)
				t.Tasks[k] = cut(t.Tasks[k], i, j)
				return &t
			}, 3)
		}
		m.shrink(func() int { return len(m.best.Post) }, func(i, j int) *Case {
			t := *m.best
			t.Post = cut(t.Post, i, j)
			return &t
		}, 0)
		m.shrink(func() int { return len(m.best.Pre) }, func(i, j int) *Case {
			t := *m.best
			t.Pre = cut(t.Pre, i, j)
			return &t
		}, 2)
		m.shrink(func() int { return len(m.best.Trace) }, func(i, j int) *Case {
			t := *m.best
			t.Trace = cut(t.Trace, i, j)
			return &t
		}, 0)
		if size(m.best) == before {
			break
		}
	}
	m.best.Sched = SchedSpec{Kind: "trace"}
	return m.best
}

func size(c *Case) int {
	n := len(c.Pre) + len(c.Post) + len(c.Trace)
	for _, t := range c.Tasks {
		n += len(t)
	}
	return n
}
