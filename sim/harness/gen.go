package main

import (
	"fmt"
	"math/bits"
	"strings"
)

// placements of keys on the hash circle
const (
	plUniform = iota
	plTop     // one or two top-level buckets
	plDeep    // a deep cluster
	plDense   // neighbours differ by little
	plBound   // around bucket boundaries
	plEdge    // extreme positions and exact bucket boundaries
	plSame    // distinct keys sharing one position
	plNibble  // everything under one top-level nibble
	plSeq     // consecutive numbers are the hashes
)

// genKeys draws n keys with the given placement.
func genKeys(g *Rng, n, kind int) []Key {
	var rs []uint64
	seen := map[uint64]bool{}
	add := func(r uint64) {
		if kind == plSame {
			rs = append(rs, r)
			return
		}
		if kind != plEdge && kind != plSeq && (r == 0 || r == ^uint64(0)) || seen[r] {
			return
		}
		seen[r] = true
		rs = append(rs, r)
	}
	pref := g.U()
	depth := g.Between(1, 6)
	if g.Bool(40) {
		depth = g.Between(7, 14)
	}
	base := []uint64{0, 1, -uint64(n / 2), 1<<31 - uint64(n/2), 1<<32 - uint64(n/2), uint64(g.N(1000)), 256 - uint64(n/2)}[g.N(7)]
	for try := 0; len(rs) < n; try++ {
		if try > 40*n {
			kind = plUniform
		}
		switch kind {
		case plUniform:
			add(g.U())
		case plTop:
			add(g.U()>>4 | (pref&3)<<60 | uint64(g.N(2))<<62)
		case plDeep:
			add(pref<<uint(64-4*depth) | g.U()>>uint(4*depth))
		case plDense:
			add(pref<<32 | uint64(len(rs))*uint64(1+g.N(3))<<uint(4*g.N(6)))
		case plBound:
			add((uint64(g.N(16))<<60 | uint64(g.N(16))<<56) + uint64(g.N(5)) - 2 + 3)
		case plEdge:
			switch g.N(6) {
			case 0:
				add(uint64(g.N(3)))
			case 1:
				add(^uint64(0) - uint64(g.N(3)))
			case 2:
				add(uint64(g.N(16)) << 60)
			case 3:
				add(uint64(g.N(256)) << 56)
			case 4:
				add(uint64(g.N(16))<<60 + ^uint64(0)>>4/uint64(1+g.N(4)))
			default:
				add(g.U())
			}
		case plSame:
			if len(rs) > 0 && g.Bool(60) {
				add(rs[g.N(len(rs))])
			} else if g.Bool(20) {
				add(uint64(g.N(256)) << 56)
			} else {
				add(g.U() << uint(g.N(60)))
			}
		case plSeq:
			add(bits.Reverse64(base + uint64(try)))
		case plNibble:
			add(g.U()>>4 | pref<<60)
		}
	}
	ks := make([]Key, n)
	for i := range ks {
		ks[i] = Key{K: fmt.Sprintf("k%03d", i), R: rs[i]}
	}
	return ks
}

// builder draws cases.
type builder struct {
	g   *Rng
	c   *Case
	val int
}

var mpbs = []int{2, 3, 4, 8, 16, 32, 1}

func newBuilder(seed uint64, salt string, modes []string) *builder {
	g := NewRng(seed, salt)
	b := &builder{g: g, c: &Case{Seed: seed, HSeed: g.U()}}
	b.c.Mode = modes[g.N(len(modes))]
	b.c.MPB = mpbs[g.Pick(3, 3, 4, 3, 2, 1, 1)]
	return b
}

func (b *builder) nv() int { b.val++; return b.val }

// layout chooses how many keys there are, where they lie, and how many are
// stored before the concurrent phase begins.
func (b *builder) layout(maxN int, edge bool) (n, pre int) {
	g := b.g
	kind := g.Pick(5, 3, 4, 2, 2)
	if edge {
		kind = plEdge + g.N(2)
		if ukeyed(b.c.Mode) {
			kind = plEdge
		}
	}
	switch g.Pick(3, 4, 3, 2) {
	case 0:
		n = g.Between(3, 8)
	case 1:
		n = g.Between(8, 26)
	case 2: // deep growth
		n = g.Between(20, 44)
		b.c.MPB = mpbs[g.N(3)]
	case 3: // expansion of the storage of items
		n = g.Between(63, 78)
		if g.Bool(25) {
			n += 64
		}
		if !edge && g.Bool(80) {
			kind = plNibble
		}
	}
	if n > maxN {
		n = g.Between(max(3, maxN/3), maxN)
	}
	if maxN >= 90 && !edge && g.Bool(4) {
		return b.bigLayout()
	}
	if ukeyed(b.c.Mode) && g.Bool(40) {
		kind = plSeq
	}
	b.c.Keys = genKeys(g, n, kind)
	if g.Bool(15) {
		b.spell()
	}
	switch {
	case n >= 60:
		pre = g.Between(max(1, n-14), n-2)
	case g.Bool(15):
		pre = 0
	default:
		pre = g.N(n - 1)
	}
	return
}

// bigLayout is a map that has grown further, or one with large buckets.
func (b *builder) bigLayout() (n, pre int) {
	g := b.g
	kind := g.N(plEdge)
	if g.Bool(60) {
		b.c.MPB = []int{64, 100, 180, 300, 500}[g.N(5)]
		n = b.c.MPB * g.Between(9, 17) / 10
		kind = []int{plNibble, plNibble, plDeep, plTop}[g.N(4)]
	} else {
		n = g.Between(150, 600)
	}
	if ukeyed(b.c.Mode) && g.Bool(40) {
		kind = plSeq
	}
	b.c.Keys = genKeys(g, n, kind)
	return n, n - g.Between(2, 16)
}

// spell gives the keys less regular names.
func (b *builder) spell() {
	ks := b.c.Keys
	how := b.g.N(4)
	for i := range ks {
		switch how {
		case 0: // each the beginning of the next
			ks[i].K = strings.Repeat("p", i)
		case 1:
			ks[i].K = strings.Repeat("long ", 60) + ks[i].K
		case 2:
			ks[i].K = fmt.Sprintf("\x00%c\n%s", rune('à'+i), strings.Repeat("\x00", i%3))
		case 3:
			ks[i].K = fmt.Sprint(i - 1)
		}
	}
}

// types passes keys in all types that are taken.
func (b *builder) types() {
	each := func(ops []Op) {
		for i := range ops {
			ops[i].T = b.g.N(12)
		}
	}
	each(b.c.Pre)
	for _, t := range b.c.Tasks {
		each(t)
	}
	each(b.c.Post)
}

// store is the operation that puts a key into the map.
func (b *builder) store(k int, pctItem int) Op {
	kind := "set"
	if b.g.Bool(pctItem) {
		return Op{Kind: "store", K: k, V: b.nv(), T: b.g.N(4) &^ 1}
	}
	return Op{Kind: kind, K: k, V: b.nv()}
}

func (b *builder) preload(from, to, pctItem int) {
	for i := from; i < to; i++ {
		b.c.Pre = append(b.c.Pre, b.store(i, pctItem))
	}
}

func (b *builder) read(k int) Op {
	kind := []string{"get", "gethash", "load", "search"}[b.g.Pick(4, 1, 1, 1)]
	if kind == "search" && b.c.Mode == "rmap" {
		kind = "get"
	}
	o := Op{Kind: kind, K: k}
	if kind == "load" {
		o.V = b.g.N(2)
	}
	return o
}

// readKey is read without an item where items are moved.
func (b *builder) readKey(k int) Op {
	o := b.read(k)
	if strings.HasPrefix(b.c.Mode, "emb") && (o.Kind == "load" || o.Kind == "search") {
		o.Kind, o.V = []string{"get", "has"}[b.g.N(2)], b.g.N(2)
		if o.Kind == "get" {
			o.V = 0
		}
	}
	return o
}

// post reads everything back and traverses.
func (b *builder) post(maps int) {
	for m := 0; m < max(1, maps); m++ {
		for i := range b.c.Keys {
			o := b.read(i)
			o.M = m
			b.c.Post = append(b.c.Post, o)
		}
		b.c.Post = append(b.c.Post, Op{Kind: "range", M: m}, Op{Kind: "rangeitem", M: m}, Op{Kind: "len", M: m})
	}
}

// inserters splits the keys [from,n) among w writing tasks.
func (b *builder) inserters(from, n, w, pctItem int) {
	ts := make([][]Op, w)
	for i := from; i < n; i++ {
		t := b.g.N(w)
		ts[t] = append(ts[t], b.store(i, pctItem))
	}
	for _, t := range ts {
		b.shuffle(t)
		if len(t) > 0 {
			b.c.Tasks = append(b.c.Tasks, t)
		}
	}
}

func (b *builder) shuffle(ops []Op) {
	if b.g.Bool(50) {
		for i := len(ops) - 1; i > 0; i-- {
			j := b.g.N(i + 1)
			ops[i], ops[j] = ops[j], ops[i]
		}
	}
}

// task adds a task of n operations drawn from fn.
func (b *builder) task(n int, fn func() Op) {
	var ops []Op
	for i := 0; i < n; i++ {
		ops = append(ops, fn())
	}
	b.c.Tasks = append(b.c.Tasks, ops)
}

func (b *builder) anySched() SchedSpec {
	g := b.g
	return SchedSpec{Kind: []string{"walk", "walk", "pct"}[g.N(3)], Mean: []int{1, 3, 10, 40, 200, 1000}[g.N(6)], Seed: g.U()}
}
