package main

import "strings"

// Prop is one property: how its cases are drawn and which failures break it.
type Prop struct {
	ID      string
	Title   string
	Gen     func(b *builder)
	Modes   []string
	Classes []string // beyond the ones every property shares
	Hang    bool     // some variants suspend a task for good
	GC      bool     // variants collect garbage at arbitrary statements
	NoStall bool
	MaxKeys int
	Timeout int // statements per operation, 0: default
}

var allModes = []string{"default", "default", "linear", "combine", "combine2", "combine3", "auto4", "pool", "pool1", "pool2", "pool3", "pool4", "pool4", "gpool", "custom", "ukey", "bigitem", "headitem", "entry"}

// modes whose items can be deleted
var delModes = []string{"default", "default", "linear", "combine", "combine2", "combine3", "auto4", "pool", "pool1", "pool2", "pool3", "pool4", "pool4", "gpool", "ukey", "bigitem", "headitem", "entry"}
var setModes = []string{"default", "linear", "combine", "combine2", "combine3", "auto4", "pool", "pool1", "pool2", "pool3", "pool4", "gpool"}

// every operation promises a result: not returning one, whatever the cause,
// breaks each property that speaks about results.
var sharedClasses = []string{"panic", "deadlock", "no-progress", "run-too-long", "crash"}

var lookups = []string{"lin", "final", "garbage", "refused"}
var ranges = []string{"range-ghost", "range-dup", "range-order", "range-stale", "range-miss", "range-stop", "garbage"}

func both(a ...[]string) (r []string) {
	for _, x := range a {
		r = append(r, x...)
	}
	return
}

var props = map[string]*Prop{}
var propOrder []string

func reg(p *Prop) {
	props[p.ID] = p
	propOrder = append(propOrder, p.ID)
}

func (p *Prop) classes() []string { return append(append([]string{}, sharedClasses...), p.Classes...) }

func canSet(mode string) bool { return mode != "custom" && mode != "entry" && !ukeyed(mode) }
func canDel(mode string) bool { return mode != "custom" }

func init() {
	reg(&Prop{ID: "P01", Title: "stored keys survive growth", Modes: allModes, Classes: lookups, Gen: func(b *builder) {
		g := b.g
		n, pre := b.layout(150, false)
		item := []int{0, 0, 30, 100}[g.N(4)]
		b.preload(0, pre, item)
		if g.Bool(20) {
			// everything sequential: growth itself
			b.preload(pre, n, item)
			pre = max(0, n-2)
		}
		b.inserters(pre, n, g.Between(1, 4), item)
		if g.Bool(60) && pre > 0 {
			b.task(g.Between(2, 10), func() Op {
				if g.Bool(40) {
					return b.store(g.N(pre), item)
				}
				return b.read(g.N(n))
			})
		}
		if g.Bool(20) && pre > 2 && canDel(b.c.Mode) {
			b.task(g.Between(1, 3), func() Op { return Op{Kind: "del", K: g.N(pre)} })
		}
		b.post(1)
	}})

	reg(&Prop{ID: "P02", Title: "reads and updates linearizable", Modes: allModes, Classes: lookups, Gen: func(b *builder) {
		g := b.g
		n, _ := b.layout(70, false)
		item := []int{0, 0, 50}[g.N(3)]
		b.c.Mixed = g.Bool(40)
		b.preload(0, n, item)
		hot := g.Between(1, min(n, 4))
		at := g.N(n - hot + 1)
		for t := g.Between(2, 4); t > 0; t-- {
			handle := -1
			b.task(g.Between(3, 8), func() Op {
				k := at + g.N(hot)
				switch g.Pick(5, 5, 1, 1) {
				case 0:
					return b.store(k, item)
				case 1:
					return b.read(k)
				case 2:
					handle = k
					return Op{Kind: "iset", K: k, V: b.nv()}
				}
				if handle >= 0 {
					return Op{Kind: "iget", K: handle}
				}
				return b.read(k)
			})
		}
		b.post(1)
	}})

	reg(&Prop{ID: "P03", Title: "reads correct during growth", Modes: allModes, Classes: lookups, Gen: func(b *builder) {
		g := b.g
		n, pre := b.layout(150, false)
		absent := 0
		if n > 6 {
			absent = g.N(3)
		}
		n -= absent
		pre = min(pre, n-1)
		b.preload(0, pre, 0)
		b.inserters(pre, n, g.Between(1, 2), []int{0, 50}[g.N(2)])
		hot := g.N(n)
		for t := g.Between(1, 3); t > 0; t-- {
			b.task(g.Between(4, 14), func() Op {
				switch g.Pick(5, 3, 1) {
				case 0:
					return b.read(min(n-1, hot+g.N(3)))
				case 1:
					return b.read(g.N(n))
				}
				return b.read(n - 1 + min(absent, 1+g.N(max(1, absent))))
			})
		}
		b.post(1)
	}})

	reg(&Prop{ID: "P04", Title: "one entry per key", Modes: allModes, Classes: both(lookups, []string{"range-dup", "range-ghost", "range-miss", "len", "identity"}), Gen: func(b *builder) {
		g := b.g
		n, pre := b.layout(90, g.Bool(15))
		item := []int{0, 0, 50, 100}[g.N(4)]
		b.preload(0, pre, item)
		from := max(pre, n-g.Between(1, 10))
		b.preload(pre, from, item)
		w := g.Between(2, 4)
		for t := 0; t < w; t++ {
			var ops []Op
			for i := from; i < n; i++ {
				if g.Bool(80) {
					ops = append(ops, b.store(i, item))
					if g.Bool(20) {
						ops = append(ops, b.read(i))
					}
				}
			}
			if g.Bool(30) {
				b.shuffle(ops)
			}
			b.c.Tasks = append(b.c.Tasks, ops)
		}
		b.post(1)
	}})

	reg(&Prop{ID: "P05", Title: "deletion", Modes: delModes, Classes: both(lookups, []string{"range-ghost", "range-stale", "range-miss", "range-dup"}), Gen: func(b *builder) {
		g := b.g
		n, pre := b.layout(90, g.Bool(10))
		item := []int{0, 0, 30}[g.N(3)]
		b.preload(0, pre, item)
		if g.Bool(50) { // some history of deletions first
			for i := g.Between(1, 6); i > 0 && pre > 0; i-- {
				k := g.N(pre)
				b.c.Pre = append(b.c.Pre, b.delOp(k))
				if g.Bool(40) {
					b.c.Pre = append(b.c.Pre, b.read(k))
				}
				if g.Bool(50) {
					b.c.Pre = append(b.c.Pre, b.store(k, item))
				}
			}
		}
		if pre < n && g.Bool(70) {
			b.inserters(pre, n, 1, item)
		}
		hot := g.Between(1, 3)
		at := g.N(max(1, n-hot))
		for t := g.Between(2, 3); t > 0; t-- {
			b.task(g.Between(3, 8), func() Op {
				k := min(n-1, at+g.N(hot))
				switch g.Pick(4, 3, 3, 1) {
				case 0:
					return b.delOp(k)
				case 1:
					return b.store(k, item)
				case 2:
					return b.read(k)
				}
				return Op{Kind: "range"}
			})
		}
		if at > 0 && g.Bool(40) {
			// an item that was removed is stored again; nobody else writes its key
			k := g.N(at)
			cycle := func() []Op {
				if g.Bool(25) { // meanwhile the key was another item
					return []Op{{Kind: "load", K: k}, b.delOp(k), b.store(k, item), b.delOp(k), {Kind: "restore", K: k}}
				}
				return []Op{{Kind: "load", K: k}, b.delOp(k), {Kind: "restore", K: k}}
			}
			if g.Bool(50) {
				b.c.Pre = append(b.c.Pre, cycle()...)
			}
			for t := range b.c.Tasks {
				for i := range b.c.Tasks[t] {
					if o := &b.c.Tasks[t][i]; o.K == k && o.Kind != "range" {
						*o = b.read(k)
					}
				}
			}
			var ops []Op
			for i := g.Between(1, 3); i > 0; i-- {
				ops = append(ops, cycle()...)
			}
			b.c.Tasks = append(b.c.Tasks, ops[:len(ops)-g.N(2)])
		} else if at > 0 && g.Bool(40) {
			b.sharedItem(g.N(at))
		}
		b.post(1)
	}})

	reg(&Prop{ID: "P06", Title: "a stored entry is deleted once", Modes: delModes, Classes: []string{"lin", "final", "refused", "len"}, Gen: func(b *builder) {
		g := b.g
		n, _ := b.layout(40, false)
		b.preload(0, n, 0)
		hot := g.Between(1, 4)
		for t := g.Between(2, 4); t > 0; t-- {
			var ops []Op
			for k := 0; k < min(hot, n); k++ {
				ops = append(ops, b.delOp(k))
				if g.Bool(15) {
					ops = append(ops, b.store(k, 0))
				}
				if g.Bool(15) {
					ops = append(ops, b.delOp(k))
				}
			}
			b.shuffle(ops)
			b.c.Tasks = append(b.c.Tasks, ops)
		}
		if g.Bool(25) {
			b.sharedItem(g.N(n))
		}
		b.post(1)
	}})

	reg(&Prop{ID: "P07", Title: "traversal at rest", Modes: allModes, Classes: ranges, Gen: func(b *builder) {
		g := b.g
		n, pre := b.layout(150, g.Bool(15))
		item := []int{0, 0, 50}[g.N(3)]
		b.preload(0, pre, item)
		if g.Bool(30) {
			b.c.Pre = append(b.c.Pre, Op{Kind: "range"}, Op{Kind: "rangeitem"})
		}
		b.inserters(pre, n, g.Between(1, 4), item)
		if g.Bool(40) && pre > 0 && canDel(b.c.Mode) {
			b.task(g.Between(1, 5), func() Op { return b.delOp(g.N(pre)) })
		}
		if g.Bool(30) && pre > 0 {
			b.task(g.Between(1, 4), func() Op { return b.store(g.N(pre), item) })
		}
		b.post(1)
		b.c.Post = append(b.c.Post, Op{Kind: "range", V: g.Between(1, n)}, Op{Kind: "rangeitem", V: g.Between(1, n)}, Op{Kind: "range"}, Op{Kind: "walk"}, Op{Kind: "walkback"})
	}})

	reg(&Prop{ID: "P08", Title: "traversal under concurrency", Modes: allModes, Classes: ranges, Gen: func(b *builder) {
		g := b.g
		n, pre := b.layout(90, false)
		item := []int{0, 0, 50}[g.N(3)]
		b.preload(0, pre, item)
		b.inserters(pre, n, g.Between(1, 2), item)
		for t := g.Between(1, 2); t > 0; t-- {
			b.task(g.Between(1, 4), func() Op {
				o := Op{Kind: []string{"range", "rangeitem", "walk"}[g.Pick(4, 4, 1)]}
				if o.Kind != "walk" && g.Bool(15) {
					o.V = g.Between(1, n)
				}
				return o
			})
		}
		if g.Bool(50) && pre > 0 {
			b.task(g.Between(2, 6), func() Op {
				if canDel(b.c.Mode) && g.Bool(50) {
					return b.delOp(g.N(pre))
				}
				return b.store(g.N(pre), item)
			})
		}
		b.post(1)
	}})

	reg(&Prop{ID: "P09", Title: "garbage collection at any point", Modes: allModes, GC: true, Classes: both(lookups, ranges, []string{"len"}), Gen: func(b *builder) {
		g := b.g
		if g.Bool(25) { // the last operations of a map
			n, pre := b.layout(20, g.Bool(50))
			b.preload(0, pre, 50)
			b.c.NoIDs, b.c.Drop = true, true // the harness must not keep items or the map alive
			for t := g.Between(1, 3); t > 0; t-- {
				b.task(g.Between(1, 3), func() Op {
					k := g.N(n)
					if g.Bool(60) {
						k = g.N(max(1, pre))
					}
					switch g.Pick(6, 2, 1, 1) {
					case 0:
						return b.read(k)
					case 1:
						return b.store(k, 50)
					case 2:
						if canDel(b.c.Mode) {
							return b.delOp(k)
						}
					}
					return Op{Kind: "range"}
				})
			}
			return
		}
		n, pre := b.layout(150, g.Bool(15))
		item := []int{0, 0, 50, 100}[g.N(4)]
		b.preload(0, pre, item)
		if g.Bool(70) {
			b.c.Pre = append(b.c.Pre, Op{Kind: "gc"})
		}
		if g.Bool(30) && pre > 2 && canDel(b.c.Mode) {
			for i := g.Between(1, 5); i > 0; i-- {
				k := g.N(pre)
				b.c.Pre = append(b.c.Pre, b.delOp(k))
				if g.Bool(50) {
					b.c.Pre = append(b.c.Pre, b.store(k, item))
				}
			}
			b.c.Pre = append(b.c.Pre, Op{Kind: "gc"})
		}
		b.inserters(pre, n, g.Between(1, 2), item)
		for t := g.Between(1, 2); t > 0; t-- {
			b.task(g.Between(3, 10), func() Op {
				k := g.N(n)
				switch g.Pick(5, 2, 1, 1, 1) {
				case 0:
					return b.read(k)
				case 1:
					return b.store(g.N(max(1, pre)), item)
				case 2:
					return Op{Kind: "range"}
				case 3:
					if canDel(b.c.Mode) {
						return b.delOp(k)
					}
				}
				return Op{Kind: "load", K: k}
			})
		}
		b.c.NoIDs = true // the harness must not keep items alive
		b.c.Post = append(b.c.Post, Op{Kind: "gc"})
		b.post(1)
	}})

	reg(&Prop{ID: "P10", Title: "suspended goroutine", Modes: allModes, Hang: true, Classes: lookups, Gen: func(b *builder) {
		g := b.g
		n, pre := b.layout(90, false)
		if pre < 2 {
			pre = min(2, n-1)
		}
		b.preload(0, pre, 0)
		delFrom := pre - g.N(pre/2+1)
		if !canDel(b.c.Mode) {
			delFrom = pre
		}
		// the victim, suspended somewhere
		switch g.Pick(6, 2, 1) {
		case 0: // inserting
			var ops []Op
			for i := pre; i < n; i++ {
				ops = append(ops, b.store(i, 0))
			}
			b.c.Tasks = append(b.c.Tasks, ops)
		case 1: // updating or deleting
			b.task(g.Between(1, 4), func() Op {
				if delFrom < pre && g.Bool(50) {
					return b.delOp(delFrom + g.N(pre-delFrom))
				}
				return b.store(g.N(max(1, delFrom)), 0)
			})
		case 2: // reading
			b.task(g.Between(1, 4), func() Op { return b.read(g.N(n)) })
		}
		for t := g.Between(1, 2); t > 0; t-- {
			b.task(g.Between(3, 8), func() Op {
				switch g.Pick(5, 3, 2) {
				case 1:
					if delFrom > 0 {
						return b.store(g.N(delFrom), 0)
					}
				case 2:
					if delFrom < pre {
						return b.delOp(delFrom + g.N(pre-delFrom))
					}
				}
				return b.read(g.N(n))
			})
		}
		for i := range b.c.Keys {
			b.c.Post = append(b.c.Post, b.read(i))
		}
	}})

	reg(&Prop{ID: "P11", Title: "operations return", Modes: allModes, Gen: func(b *builder) {
		g := b.g
		n, pre := b.layout(150, g.Bool(20))
		item := []int{0, 0, 50}[g.N(3)]
		b.preload(0, pre, item)
		for t := g.Between(2, 4); t > 0; t-- {
			b.task(g.Between(3, 10), func() Op {
				k := g.N(n)
				if g.Bool(50) {
					k = min(n-1, pre+g.N(max(1, n-pre)))
				}
				switch g.Pick(6, 3, 2, 1, 1) {
				case 0:
					return b.store(k, item)
				case 1:
					return b.read(k)
				case 2:
					if canDel(b.c.Mode) {
						return b.delOp(k)
					}
				case 3:
					return Op{Kind: "range"}
				}
				return Op{Kind: "len"}
			})
		}
		b.post(1)
	}})

	reg(&Prop{ID: "P12", Title: "colliding and extreme hashes", Modes: []string{"default", "combine", "combine3", "pool4", "gpool", "custom", "custom", "custom", "ukey", "ukey"}, Classes: both(lookups, []string{"range-dup", "range-ghost", "range-miss", "range-order"}), Gen: func(b *builder) {
		g := b.g
		n, pre := b.layout(60, true)
		item := []int{0, 50}[g.N(2)]
		b.preload(0, pre, item)
		b.inserters(pre, n, g.Between(1, 3), item)
		b.task(g.Between(3, 10), func() Op {
			if g.Bool(60) || pre == 0 {
				return b.read(g.N(n))
			}
			if g.Bool(30) && canDel(b.c.Mode) {
				return b.delOp(g.N(pre))
			}
			return b.store(g.N(pre), item)
		})
		b.post(1)
	}})

	reg(&Prop{ID: "P13", Title: "items keep their identity", Modes: allModes, Classes: both([]string{"identity"}, lookups), Gen: func(b *builder) {
		g := b.g
		n, pre := b.layout(150, false)
		item := []int{100, 50, 0}[g.N(3)]
		b.preload(0, pre, item)
		for i := 0; i < pre; i++ {
			if g.Bool(30) || pre < 10 {
				b.c.Pre = append(b.c.Pre, Op{Kind: "load", K: i})
			}
		}
		b.inserters(pre, n, g.Between(1, 3), item)
		for t := g.Between(1, 2); t > 0 && pre > 0; t-- {
			b.task(g.Between(3, 10), func() Op {
				k := g.N(pre)
				if g.Bool(50) {
					k = min(pre-1, t)
				}
				return []Op{{Kind: "load", K: k}, {Kind: "iset", K: k, V: b.nv()}, {Kind: "iget", K: k}, b.store(k, item), b.read(k), {Kind: "rangeitem"}}[g.Pick(3, 3, 3, 2, 3, 1)]
			})
		}
		for i := range b.c.Keys {
			b.c.Post = append(b.c.Post, Op{Kind: "load", K: i})
			if g.Bool(30) {
				b.c.Post = append(b.c.Post, Op{Kind: "iset", K: i, V: b.nv()}, Op{Kind: "get", K: i}, b.store(i, item), Op{Kind: "iget", K: i})
			}
		}
		b.post(1)
	}})

	reg(&Prop{ID: "P14", Title: "Len at rest", Modes: allModes, Classes: []string{"len"}, Gen: func(b *builder) {
		g := b.g
		n, pre := b.layout(90, g.Bool(15))
		item := []int{0, 0, 50, 100}[g.N(4)]
		for i := 0; i < pre; i++ {
			b.preload(i, i+1, item)
			if g.Bool(10) {
				b.c.Pre = append(b.c.Pre, Op{Kind: "len"})
			}
			if g.Bool(10) && canDel(b.c.Mode) {
				k := g.N(i + 1)
				b.c.Pre = append(b.c.Pre, Op{Kind: "load", K: k}, b.delOp(k), Op{Kind: "len"})
				if g.Bool(40) {
					b.c.Pre = append(b.c.Pre, Op{Kind: "restore", K: k}, Op{Kind: "len"})
				}
			}
		}
		b.inserters(pre, n, g.Between(1, 4), item)
		for t := g.Between(0, 2); t > 0; t-- {
			b.task(g.Between(1, 6), func() Op {
				if canDel(b.c.Mode) && g.Bool(60) {
					return b.delOp(g.N(n))
				}
				return b.store(g.N(n), item)
			})
		}
		if pre > 0 && g.Bool(20) && canDel(b.c.Mode) {
			b.sharedItem(g.N(pre))
		}
		b.post(1)
	}})

	reg(&Prop{ID: "P15", Title: "maps are independent", Modes: allModes, Classes: both(lookups, ranges, []string{"len"}), Gen: func(b *builder) {
		g := b.g
		n, _ := b.layout(70, false)
		b.c.Maps = g.Between(2, 3)
		for m := 0; m < b.c.Maps; m++ {
			b.c.Modes = append(b.c.Modes, []string{b.c.Mode, allModes[g.N(len(allModes))]}[g.N(2)])
			if g.Bool(10) {
				b.c.Modes[m] = "rmap"
			}
		}
		for m := 0; m < b.c.Maps; m++ {
			pre := g.N(n)
			for i := 0; i < pre; i++ {
				o := b.store(i, 20)
				o.M = m
				b.c.Pre = append(b.c.Pre, o)
			}
			var ops []Op
			add := func(o Op) { o.M = m; ops = append(ops, o) }
			for i := pre; i < min(n, pre+12); i++ {
				add(b.store(i, 20))
				if g.Bool(40) {
					k := g.N(n)
					switch g.N(4) {
					case 0:
						add(b.read(k))
					case 1:
						add(Op{Kind: "range"})
					case 2:
						if canDel(b.c.Modes[m]) {
							add(b.delOp(k))
						}
					case 3:
						add(b.store(k, 20))
					}
				}
			}
			if g.Bool(30) { // a third party creates another map meanwhile
				add(Op{Kind: "new"})
			}
			b.c.Tasks = append(b.c.Tasks, ops)
		}
		b.post(b.c.Maps)
	}})

	reg(&Prop{ID: "P16", Title: "callbacks may use the map", Modes: allModes, Classes: both(lookups, ranges), Gen: func(b *builder) {
		g := b.g
		n, pre := b.layout(60, false)
		pre = max(pre, 1)
		b.preload(0, pre, 0)
		sub := func() (ops []Op) {
			for i := g.Between(1, 4); i > 0; i-- {
				k := g.N(n)
				switch g.Pick(4, 3, 2, 1, 1) {
				case 0:
					ops = append(ops, b.read(k))
				case 1:
					// each callback of a traversal stores values of its own
					ops = append(ops, Op{Kind: "setn", K: k})
				case 2:
					if canDel(b.c.Mode) {
						ops = append(ops, b.delOp(k))
					} else {
						ops = append(ops, b.read(k))
					}
				case 3:
					ops = append(ops, Op{Kind: "range"})
				case 4:
					ops = append(ops, Op{Kind: "len"})
				}
			}
			return
		}
		for t := g.Between(1, 2); t > 0; t-- {
			b.task(g.Between(1, 2), func() Op {
				o := Op{Kind: []string{"range", "rangeitem"}[g.N(2)], Sub: sub()}
				if g.Bool(30) {
					o.V = g.Between(1, n)
				}
				return o
			})
		}
		if g.Bool(50) && pre < n {
			b.inserters(pre, n, 1, 0)
		}
		b.post(1)
	}})

	reg(&Prop{ID: "P17", Title: "pool managed by a goroutine", Modes: []string{"gpool", "gpool1", "gpool4"}, Classes: both(lookups, []string{"len", "identity"}), Gen: func(b *builder) {
		g := b.g
		n, pre := b.layout(150, false)
		b.preload(0, pre, 0)
		if g.Bool(20) {
			b.c.Maps = 2
		}
		b.inserters(pre, n, g.Between(1, 4), 0)
		if b.c.Maps == 2 {
			for t := range b.c.Tasks {
				for i := range b.c.Tasks[t] {
					b.c.Tasks[t][i].M = t % 2
				}
			}
		}
		b.task(g.Between(2, 10), func() Op {
			if g.Bool(30) && pre > 0 {
				return b.store(g.N(pre), 0)
			}
			if g.Bool(10) && pre > 0 {
				return b.delOp(g.N(pre))
			}
			return b.read(g.N(n))
		})
		b.post(b.c.Maps)
	}})

	reg(&Prop{ID: "P18", Title: "configurations agree", Modes: setModes, Classes: []string{"differ", "lin", "final", "refused", "garbage"}, Gen: func(b *builder) {
		g := b.g
		n, pre := b.layout(90, false)
		b.c.Maps = g.Between(2, 4)
		b.c.Modes = nil
		for m := 0; m < b.c.Maps; m++ {
			b.c.Modes = append(b.c.Modes, allModes[g.N(len(allModes))])
			if b.c.Modes[m] == "custom" {
				b.c.Modes[m] = "default"
			}
			b.c.MPBs = append(b.c.MPBs, mpbs[g.N(len(mpbs))])
		}
		read := b.read
		if g.Bool(25) { // items of this one are moved
			b.c.Modes[g.N(b.c.Maps)] = []string{"embedded", "emb", "emb1", "emb2", "emb4"}[g.N(5)]
			b.c.NoIDs = true
			read = func(k int) Op { return Op{Kind: []string{"get", "gethash", "has"}[g.N(3)], K: k} }
		}
		each := func(o Op) (ops []Op) {
			for m := 0; m < b.c.Maps; m++ {
				o.M = m
				ops = append(ops, o)
			}
			return
		}
		for i := 0; i < pre; i++ {
			b.c.Pre = append(b.c.Pre, each(b.store(i, 20))...)
		}
		// every task owns its keys, so results do not depend on the schedule
		w := g.Between(1, 3)
		for t := 0; t < w; t++ {
			var ops []Op
			for i := g.Between(2, 12); i > 0; i-- {
				k := g.N(n)/w*w + t
				if k >= n {
					continue
				}
				switch g.Pick(5, 3, 2) {
				case 0:
					ops = append(ops, each(b.store(k, 20))...)
				case 1:
					ops = append(ops, each(read(k))...)
				case 2:
					ops = append(ops, each(b.delOp(k))...)
				}
			}
			b.c.Tasks = append(b.c.Tasks, ops)
		}
		for i := range b.c.Keys {
			b.c.Post = append(b.c.Post, each(Op{Kind: "get", K: i})...)
		}
		b.c.Post = append(b.c.Post, each(Op{Kind: "range"})...)
		b.c.Post = append(b.c.Post, each(Op{Kind: "len"})...)
	}})

	reg(&Prop{ID: "P19", Title: "diagnostics are harmless", Modes: append([]string{"embedded", "emb"}, allModes...), Classes: both(lookups, ranges, []string{"len"}), Gen: func(b *builder) {
		g := b.g
		n, pre := b.layout(60, false)
		item := []int{0, 0, 50}[g.N(3)]
		dump := func() Op {
			o := Op{Kind: "dump", V: g.N(3)}
			if g.Bool(15) {
				o.B = 1
			}
			for i := g.Pick(3, 1, 1); i > 0; i-- {
				if g.Bool(40) {
					o.Sub = append(o.Sub, b.store(g.N(n), item))
				} else {
					o.Sub = append(o.Sub, b.readKey(g.N(n)))
				}
			}
			return o
		}
		for i := 0; i < pre; i++ {
			b.c.Pre = append(b.c.Pre, b.store(i, item))
			if g.Bool(3) {
				b.c.Pre = append(b.c.Pre, dump())
			}
		}
		b.inserters(pre, n, g.Between(1, 2), item)
		b.task(g.Between(1, 4), dump)
		b.task(g.Between(2, 8), func() Op {
			if g.Bool(20) && canDel(b.c.Mode) {
				return b.delOp(g.N(n))
			}
			return b.readKey(g.N(n))
		})
		b.c.NoIDs = strings.HasPrefix(b.c.Mode, "emb")
		b.post(1)
		b.c.Post = append(b.c.Post, Op{Kind: "dump", V: 3})
		b.post(1)
	}})

	reg(&Prop{ID: "P21", Title: "panics of the application", Modes: append([]string{"custom", "ukey", "ukey", "ukey"}, allModes...), Classes: both(lookups, ranges, []string{"len"}), Gen: func(b *builder) {
		g := b.g
		n, pre := b.layout(100, false)
		near := []int{0, 20, 80}[g.N(3)]
		bomb := func(o Op) Op {
			switch {
			case o.Kind == "range" || o.Kind == "rangeitem":
				o.B = g.Between(1, n)
			case canSet(b.c.Mode):
			case o.Kind == "set" || o.Kind == "store":
				o.B = g.N(16) & g.N(16)
			}
			return o
		}
		bad := func() Op {
			if g.Bool(near) {
				return Op{Kind: "bad", K: g.N(n), V: 24}
			}
			return Op{Kind: "bad", V: g.N(24)}
		}
		for i := 0; i < pre; i++ {
			b.c.Pre = append(b.c.Pre, bomb(b.store(i, 30)))
			if g.Bool(max(10, near/2)) {
				b.c.Pre = append(b.c.Pre, bad())
			}
			if g.Bool(10) {
				b.c.Pre = append(b.c.Pre, Op{Kind: "rangeitem", B: g.Between(1, i+1)})
			}
			if g.Bool(10) && canDel(b.c.Mode) {
				b.c.Pre = append(b.c.Pre, b.delOp(g.N(i+1)))
			}
		}
		b.inserters(pre, n, g.Between(1, 2), 30)
		for t := range b.c.Tasks {
			for i := range b.c.Tasks[t] {
				b.c.Tasks[t][i] = bomb(b.c.Tasks[t][i])
			}
		}
		for t := g.Between(1, 2); t > 0; t-- {
			b.task(g.Between(2, 8), func() Op {
				switch g.Pick(3, 2, 2, 2, 1) {
				case 0:
					return bad()
				case 1:
					return bomb(Op{Kind: []string{"range", "rangeitem"}[g.N(2)]})
				case 2:
					return bomb(b.store(g.N(n), 30))
				case 3:
					if canDel(b.c.Mode) {
						return b.delOp(g.N(n))
					}
				}
				return b.read(g.N(n))
			})
		}
		b.post(1)
		if !canSet(b.c.Mode) { // what explodes once does not do so again
			b.post(1)
		}
	}})

	reg(&Prop{ID: "P22", Title: "statistics and log", Modes: allModes, Classes: both(lookups, ranges, []string{"len"}), Gen: func(b *builder) {
		g := b.g
		n, pre := b.layout(60, false)
		b.c.Maps = g.Between(1, 2)
		b.c.Stats, b.c.Log = g.Bool(70), g.Bool(60)
		on := func(o Op) Op { o.M = g.N(b.c.Maps); return o }
		if g.Bool(20) {
			b.c.Pre = append(b.c.Pre, Op{Kind: "stats", V: g.N(2)})
		}
		for i := 0; i < pre; i++ {
			b.c.Pre = append(b.c.Pre, on(b.store(i, 20)))
		}
		if g.Bool(20) {
			b.c.Pre = append(b.c.Pre, Op{Kind: "stats", V: g.N(2)})
		}
		b.inserters(pre, n, g.Between(1, 3), 20)
		for t := range b.c.Tasks {
			for i := range b.c.Tasks[t] {
				b.c.Tasks[t][i].M = t % b.c.Maps
			}
		}
		for t := g.Between(1, 2); t > 0; t-- {
			b.task(g.Between(2, 10), func() Op {
				k := g.N(n)
				switch g.Pick(6, 2, 1, 1, 1) {
				case 1:
					return on(b.store(k, 20))
				case 2:
					if canDel(b.c.Mode) {
						return on(b.delOp(k))
					}
				case 3:
					return on(Op{Kind: "range"})
				case 4:
					return Op{Kind: "resetstats"}
				}
				return on(b.read(k))
			})
		}
		b.post(b.c.Maps)
	}})

	reg(&Prop{ID: "P23", Title: "options changed at rest", Modes: allModes, GC: true, Classes: both(lookups, ranges, []string{"len", "identity"}), Gen: func(b *builder) {
		g := b.g
		n, pre := b.layout(150, false)
		item := []int{0, 0, 50}[g.N(3)]
		opt := func() Op {
			v := []int{1, 2, 3, 8, 32, 100}[g.N(6)]
			switch g.Pick(3, 3, 2, 2) {
			case 1:
				v = 101 + g.N(5)
			case 2:
				v = 200 + g.N(2)
			case 3:
				v = 300
			}
			return Op{Kind: "opt", V: v}
		}
		del := func(k int) {
			if canDel(b.c.Mode) {
				b.c.Pre = append(b.c.Pre, b.delOp(k))
			}
		}
		for i := 0; i < pre; i++ {
			b.preload(i, i+1, item)
			switch g.Pick(8, 2, 1, 1) {
			case 1:
				b.c.Pre = append(b.c.Pre, opt())
			case 2:
				b.c.Pre = append(b.c.Pre, b.read(g.N(i+1)), Op{Kind: "gc"})
			case 3:
				del(g.N(i + 1))
			}
		}
		b.c.Pre = append(b.c.Pre, opt(), Op{Kind: "gc"})
		b.inserters(pre, n, g.Between(1, 3), item)
		b.task(g.Between(2, 10), func() Op {
			if g.Bool(30) && pre > 0 {
				return b.store(g.N(pre), item)
			}
			if g.Bool(10) && pre > 0 && canDel(b.c.Mode) {
				return b.delOp(g.N(pre))
			}
			return b.read(g.N(n))
		})
		b.c.NoIDs = g.Bool(70)
		for i := g.Between(0, 3); i > 0; i-- {
			b.c.Post = append(b.c.Post, opt(), b.store(g.N(n), item), Op{Kind: "gc"})
		}
		b.post(1)
	}})

	reg(&Prop{ID: "P24", Title: "types and spellings of keys", Modes: append([]string{"ukey", "ukey", "ukey", "ukey", "ukey", "ukey"}, delModes...), Classes: both(lookups, ranges), Gen: func(b *builder) {
		g := b.g
		n, pre := b.layout(60, false)
		if g.Bool(50) {
			b.spell()
		}
		item := []int{0, 50}[g.N(2)]
		for i := 0; i < pre; i++ {
			b.preload(i, i+1, item)
			switch g.Pick(8, 2, 1) {
			case 1:
				b.c.Pre = append(b.c.Pre, b.read(g.N(n)))
			case 2:
				b.c.Pre = append(b.c.Pre, b.delOp(g.N(i+1)))
			}
		}
		b.inserters(pre, n, g.Between(1, 3), item)
		for t := g.Between(1, 2); t > 0; t-- {
			b.task(g.Between(3, 10), func() Op {
				switch g.Pick(6, 2, 2) {
				case 1:
					return b.store(g.N(n), item)
				case 2:
					return b.delOp(g.N(n))
				}
				return b.read(g.N(n))
			})
		}
		b.post(1)
		b.types()
	}})

	reg(&Prop{ID: "P20", Title: "RMap", Modes: []string{"rmap"}, GC: true, Classes: both(lookups, []string{"len"}), Gen: func(b *builder) {
		g := b.g
		n, pre := b.layout(60, g.Bool(20))
		for i := 0; i < pre; i++ {
			b.preload(i, i+1, 30)
			switch g.Pick(6, 2, 1) {
			case 1: // misses, until what was stored is promoted
				for j := g.Between(1, 12); j > 0; j-- {
					b.c.Pre = append(b.c.Pre, b.read(g.N(n)))
				}
			case 2:
				b.c.Pre = append(b.c.Pre, b.delOp(g.N(i+1)))
			}
			if g.Bool(10) {
				b.c.Pre = append(b.c.Pre, Op{Kind: "len"})
			}
		}
		hot := g.Between(1, min(n, 5))
		at := g.N(n - hot + 1)
		for t := g.Between(2, 4); t > 0; t-- {
			w := [][]int{{4, 4, 2}, {1, 8, 1}, {6, 1, 2}, {2, 2, 6}}[g.N(4)]
			b.task(g.Between(3, 10), func() Op {
				k := at + g.N(hot)
				if g.Bool(25) {
					k = g.N(n)
				}
				switch g.Pick(w...) {
				case 0:
					return b.store(k, 30)
				case 1:
					return b.read(k)
				}
				return b.delOp(k)
			})
		}
		b.c.NoIDs = true
		if g.Bool(20) {
			b.c.Drop = true
			return
		}
		b.post(1)
	}})
}

func init() {
	reg(&Prop{ID: "P25", Title: "embedded item storage", Modes: []string{"embedded", "embedded", "emb", "emb1", "emb2", "emb4"}, GC: true, Classes: both(lookups, ranges, []string{"len"}), Gen: func(b *builder) {
		g := b.g
		n, pre := b.layout(150, g.Bool(20))
		if g.Bool(20) {
			pre = n
		}
		seq := func(n int) (ops []Op) {
			for ; n > 0; n-- {
				k := g.N(len(b.c.Keys))
				switch g.Pick(4, 4, 3, 1) {
				case 0:
					ops = append(ops, b.store(k, 20))
				case 1:
					ops = append(ops, b.read(k))
				case 2:
					ops = append(ops, b.delOp(k))
				default:
					switch o := (Op{Kind: []string{"range", "len", "rangeitem", "walk", "walkback", "dump", "bad", "stats"}[g.N(8)]}); o.Kind {
					case "stats":
						ops = append(ops, Op{Kind: "stats", V: g.N(2)})
					case "bad":
						ops = append(ops, Op{Kind: "bad", V: g.N(24)})
					case "dump":
						ops = append(ops, Op{Kind: "dump", V: g.N(3)})
					default:
						ops = append(ops, o)
					}
				}
			}
			return
		}
		for i := 0; i < pre; i++ {
			b.preload(i, i+1, 20)
			if g.Bool(15) {
				b.c.Pre = append(b.c.Pre, seq(1)...)
			}
		}
		if g.Bool(40) {
			b.c.Pre = append(b.c.Pre, seq(g.Between(5, 60))...)
		}
		b.c.NoIDs = true // items are moved
		// concurrently items are reached by key only
		var read func(k int) Op
		read = func(k int) Op {
			switch g.Pick(40, 3, 1, 1, 1) {
			case 1:
				o := Op{Kind: "range"}
				if g.Bool(25) {
					o.V = g.Between(1, n)
				}
				if g.Bool(30) {
					for i := g.Between(1, 3); i > 0; i-- {
						k := g.N(n)
						switch g.Pick(3, 3, 2, 1) {
						case 0:
							o.Sub = append(o.Sub, Op{Kind: "get", K: k})
						case 1:
							o.Sub = append(o.Sub, Op{Kind: "setn", K: k})
						case 2:
							o.Sub = append(o.Sub, b.delOp(k))
						case 3:
							o.Sub = append(o.Sub, Op{Kind: "len"})
						}
					}
				} else if g.Bool(20) {
					o.B = g.Between(1, n)
				}
				return o
			case 2:
				return Op{Kind: "dump", V: g.N(3)}
			case 3:
				return Op{Kind: "bad", V: g.N(24)}
			case 4:
				return Op{Kind: "len"}
			}
			return b.readKey(k)
		}
		if g.Bool(85) {
			hot := g.Between(1, min(n, 6))
			at := g.N(n - hot + 1)
			w := [][]int{{4, 4, 2}, {1, 8, 1}, {6, 2, 2}, {3, 2, 4}, {3, 5, 0}}[g.N(5)]
			for t := g.Between(1, 4); t > 0; t-- {
				b.task(g.Between(3, 10), func() Op {
					k := at + g.N(hot)
					if g.Bool(35) {
						k = g.N(n)
					}
					switch g.Pick(w...) {
					case 0:
						return b.store(k, 20)
					case 1:
						return read(k)
					}
					return b.delOp(k)
				})
			}
			if pre < n && g.Bool(60) {
				b.inserters(pre, n, g.Between(1, 2), 20)
			}
		}
		if g.Bool(15) {
			b.c.Drop = true
			for _, t := range b.c.Tasks { // callbacks would use the map after that
				for i := range t {
					t[i].Sub = nil
				}
			}
			return
		}
		b.c.Mixed = g.Bool(30)
		b.post(1)
		if g.Bool(30) {
			b.c.Post = append(b.c.Post, seq(g.Between(3, 30))...)
			b.post(1)
		}
	}})
	reg(&Prop{ID: "P26", Title: "lookups stay short", Modes: append([]string{"embedded", "emb"}, allModes...), Classes: []string{"cost"}, Gen: func(b *builder) {
		g := b.g
		const small = 100
		n := []int{g.Between(300, 700), g.Between(700, 1500), g.Between(1500, 4000)}[g.Pick(6, 3, 1)]
		b.c.Keys = genKeys(g, n, []int{plUniform, plDeep, plNibble, plTop}[g.Pick(5, 3, 1, 1)])
		b.c.MPB = []int{2, 4, 8}[g.N(3)]
		b.c.Cost, b.c.NoIDs, b.c.Maps = true, true, 2
		// map 1 is the measure: few of the keys, stored one after the other
		for i := 0; i < small; i++ {
			o := b.store(i, 30)
			o.M = 1
			b.c.Pre = append(b.c.Pre, o)
		}
		pre := n
		if g.Bool(80) {
			pre = g.N(n)
		}
		b.preload(0, pre, 30)
		b.inserters(pre, n, g.Between(1, 4), 30)
		if g.Bool(50) && pre > 0 {
			b.task(g.Between(2, 40), func() Op { return b.readKey(g.N(n)) })
		}
		for m, of := range []int{n, small} {
			for i := 0; i < 300-200*m; i++ {
				b.c.Post = append(b.c.Post, Op{Kind: []string{"get", "gethash", "load"}[g.N(3)], M: m, K: g.N(of)})
			}
		}
	}})
}

// sharedItem makes several tasks delete key k and store the item it had again.
func (b *builder) sharedItem(k int) {
	g := b.g
	for t := range b.c.Tasks {
		for i := range b.c.Tasks[t] {
			if o := &b.c.Tasks[t][i]; o.K == k && o.Kind != "range" && o.Kind != "rangeitem" && o.Kind != "len" {
				*o = b.read(k)
			}
		}
	}
	for t := g.Between(2, 3); t > 0; t-- {
		ops := []Op{{Kind: "load", K: k}}
		for i := g.Between(2, 6); i > 0; i-- {
			switch g.Pick(3, 3, 1) {
			case 0:
				ops = append(ops, b.delOp(k))
			case 1:
				ops = append(ops, Op{Kind: "restore", K: k})
			case 2:
				ops = append(ops, b.read(k))
			}
		}
		b.c.Tasks = append(b.c.Tasks, ops)
	}
}

func (b *builder) delOp(k int) Op {
	if b.g.Bool(25) {
		return Op{Kind: "purge", K: k}
	}
	return Op{Kind: "del", K: k}
}
