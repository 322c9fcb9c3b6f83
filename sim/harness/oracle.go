package main

import (
	"fmt"
	"sort"
)

// regOp is one operation on one key as the linearizability checker sees it.
type regOp struct {
	call, ret int64 // ret==0: pending, may take effect at any time or never
	kind      byte  // 'w' write v; 'r' read v (0: absent, -1: some value); 'd' delete reporting absent; 'D' delete reporting true
	v         int
	ev        *Event
}

// linearizable decides whether some order of the operations that respects real
// time explains every result against a single register holding 0 (absent) or a
// value.  Depth-first search with memoisation on (set of done ops, state).
func linearizable(ops []regOp, init int) bool {
	n := len(ops)
	if n == 0 {
		return true
	}
	sort.SliceStable(ops, func(i, j int) bool { return ops[i].call < ops[j].call })
	type key struct {
		a, b uint64
		st   int
	}
	if n > 128 {
		return true // too long to decide; the generators stay far below this
	}
	seen := map[key]bool{}
	var rec func(done key) bool
	has := func(k key, i int) bool {
		if i < 64 {
			return k.a>>uint(i)&1 == 1
		}
		return k.b>>uint(i-64)&1 == 1
	}
	rec = func(k key) bool {
		if seen[k] {
			return false
		}
		seen[k] = true
		// earliest return among operations not yet done
		minRet := int64(1) << 62
		left := false
		for i := range ops {
			if !has(k, i) && ops[i].ret != 0 {
				left = true
				if ops[i].ret < minRet {
					minRet = ops[i].ret
				}
			}
		}
		if !left {
			return true
		}
		for i := range ops {
			o := &ops[i]
			if has(k, i) || o.call > minRet {
				continue
			}
			nk := k
			if i < 64 {
				nk.a |= 1 << uint(i)
			} else {
				nk.b |= 1 << uint(i-64)
			}
			switch o.kind {
			case 'w':
				nk.st = o.v
			case 'r':
				if o.v != k.st && !(o.v < 0 && k.st != 0) {
					continue
				}
			case 'd':
				if k.st != 0 { // reported "not there"
					continue
				}
			case 'D':
				if k.st == 0 {
					continue
				}
				nk.st = 0
			}
			if rec(nk) {
				return true
			}
		}
		return false
	}
	return rec(key{st: init})
}

// keyOps projects the history on one key.
func (r *Run) keyOps(m, k int) (ops []regOp) {
	for _, e := range r.Hist {
		if e.Op.K != k || e.Op.M != m {
			continue
		}
		o := regOp{call: e.Call, ret: e.Ret, ev: e}
		if e.Unk {
			o.ret = 0 // it may have taken effect
		}
		switch e.Op.Kind {
		case "set", "store", "iset":
			o.kind, o.v = 'w', e.Op.V
		case "get", "gethash", "load", "iget", "search":
			if o.ret == 0 {
				continue
			}
			o.kind = 'r'
			if e.OK {
				o.v = e.Val
			}
		case "has":
			if o.ret == 0 {
				continue
			}
			o.kind, o.v = 'r', -b2i(e.OK)
		case "del", "purge":
			o.kind = 'D'
			if o.ret != 0 && !e.OK {
				o.kind = 'd'
			}
		default:
			continue
		}
		ops = append(ops, o)
	}
	return
}

func (r *Run) check() {
	for _, e := range r.Hist {
		if e.Unk {
			continue
		}
		if e.Raw != "" {
			r.Fail("garbage", "%s by task %d: %s", e.Op, e.Task, e.Raw)
			break
		}
		if e.Ret != 0 && (e.Op.Kind == "set" || e.Op.Kind == "store") && !e.OK {
			r.Fail("refused", "%s by task %d returned false", e.Op, e.Task)
			break
		}
		if (e.Op.Kind == "get" || e.Op.Kind == "gethash" || e.Op.Kind == "load" || e.Op.Kind == "search") && e.Ret != 0 && (e.OK != (e.Val != 0)) {
			r.Fail("garbage", "%s by task %d: ok=%v value=%d", e.Op, e.Task, e.OK, e.Val)
			break
		}
	}
	for i := 0; i < max(1, r.C.Maps)*len(r.C.Keys); i++ {
		m, k := i/len(r.C.Keys), i%len(r.C.Keys)
		ops := r.keyOps(m, k)
		if !linearizable(ops, 0) {
			var main []regOp
			for _, o := range ops {
				if o.ev.Task != postTask {
					main = append(main, o)
				}
			}
			class := "lin"
			if linearizable(main, 0) {
				class = "final"
			}
			r.Fail(class, "map %d (%s) key %s: no order of these operations explains their results:%s", m, r.C.mode(m), r.C.Keys[k].K, opsString(ops))
			break
		}
	}
	r.checkRanges()
	r.checkIdentity()
	r.checkLen()
	r.checkDiffer()
	r.checkCost()
}

// checkCost: at rest, looking a key up takes about as many statements in a map
// of many keys as in one of few.
func (r *Run) checkCost() {
	if !r.C.Cost {
		return
	}
	var sum, n, top [2]int64
	for _, e := range r.Hist {
		if e.Task == postTask && e.Op.M < 2 && (e.Op.Kind == "get" || e.Op.Kind == "gethash" || e.Op.Kind == "load") {
			sum[e.Op.M] += e.Cost
			n[e.Op.M]++
			top[e.Op.M] = max(top[e.Op.M], e.Cost)
		}
	}
	if n[0] < 50 || n[1] < 50 { // shortened by the minimiser
		return
	}
	a, b := sum[0]/n[0], sum[1]/n[1]
	switch {
	case a > 4*b:
		r.Fail("cost", "map 0 (%s, %d to a bucket): looking a key up takes %d statements on average among %d keys, but %d among 100", r.C.Mode, r.C.MPB, a, len(r.C.Keys), b)
	case top[0] > 15*b:
		r.Fail("cost", "map 0 (%s, %d to a bucket): looking one of %d keys up took %d statements, others %d on average, among 100 keys %d", r.C.Mode, r.C.MPB, len(r.C.Keys), top[0], a, b)
	}
}

func opsString(ops []regOp) string {
	msg := ""
	for _, o := range ops {
		res := fmt.Sprintf("%v,%d", o.ev.OK, o.ev.Val)
		if o.ret == 0 {
			res = "pending"
		}
		msg += fmt.Sprintf(" [%d,%d]t%d:%s->%s", o.call, o.ret, o.ev.Task, o.ev.Op, res)
	}
	return msg
}

// checkIdentity: without deletions a key is one item for ever, and if items
// were handed to the map, it is one of those.
func (r *Run) checkIdentity() {
	if r.C.NoIDs {
		return
	}
	type mk struct{ m, k int }
	loaded, deleted, viaSet := map[mk]*Event{}, map[mk]bool{}, map[mk]bool{}
	stored := map[mk]map[int]bool{}
	ri := map[string]int{}
	for i, k := range r.C.Keys {
		ri[k.K] = i
	}
	for _, e := range r.Hist {
		at := mk{e.Op.M, e.Op.K}
		switch e.Op.Kind {
		case "del", "purge":
			deleted[at] = true
		case "set":
			if canSet(r.C.mode(e.Op.M)) {
				viaSet[at] = true
				continue
			}
			fallthrough
		case "store":
			if stored[at] == nil {
				stored[at] = map[int]bool{}
			}
			stored[at][e.Ptr] = true
		}
	}
	see := func(at mk, ptr int, e *Event) bool {
		if deleted[at] || ptr == 0 {
			return true
		}
		if !viaSet[at] && !stored[at][ptr] {
			r.Fail("identity", "%s by task %d: key %s is an item that nobody stored under it", e.Op, e.Task, r.C.Keys[at.k].K)
			return false
		}
		if o := loaded[at]; o == nil {
			loaded[at] = &Event{Ptr: ptr, Op: e.Op, Task: e.Task}
		} else if o.Ptr != ptr {
			r.Fail("identity", "key %s is item %d in %s by task %d and item %d in %s by task %d", r.C.Keys[at.k].K, o.Ptr, o.Op, o.Task, ptr, e.Op, e.Task)
			return false
		}
		return true
	}
	for _, e := range r.Hist {
		switch e.Op.Kind {
		case "load", "iget", "iset", "search":
			if e.OK && !see(mk{e.Op.M, e.Op.K}, e.Ptr, e) {
				return
			}
		case "rangeitem", "walk", "walkback":
			for _, p := range e.Seen {
				if i, ok := ri[p.K]; ok && !see(mk{e.Op.M, i}, p.Ptr, e) {
					return
				}
			}
		}
	}
}

// checkLen: a length taken while nothing else runs is the number of keys present.
func (r *Run) checkLen() {
	maps := max(1, r.C.Maps)
	present := make([]map[int]bool, maps)
	for m := range present {
		present[m] = map[int]bool{}
	}
	for _, e := range r.Hist {
		if e.Task != preTask {
			continue
		}
		if k := e.Op.Kind; e.Unk && (k == "set" || k == "store" || k == "del" || k == "purge") {
			break // the rest is not certain
		}
		switch e.Op.Kind {
		case "set", "store":
			present[e.Op.M][e.Op.K] = true
		case "del", "purge":
			delete(present[e.Op.M], e.Op.K)
		case "len":
			if e.Val != len(present[e.Op.M]) {
				r.Fail("len", "Len() is %d while %d keys are stored", e.Val, len(present[e.Op.M]))
				return
			}
		}
	}
	read := make([]map[int]bool, maps)
	for m := range read {
		read[m] = map[int]bool{}
	}
	for _, e := range r.Hist {
		if e.Task != postTask || e.Ret == 0 || e.Unk {
			continue
		}
		switch e.Op.Kind {
		case "get", "gethash", "load", "has":
			read[e.Op.M][e.Op.K] = e.OK
		case "set", "store":
			read[e.Op.M][e.Op.K] = true
		case "del", "purge":
			read[e.Op.M][e.Op.K] = false
		case "len":
			if len(read[e.Op.M]) != len(r.C.Keys) {
				continue
			}
			n := 0
			for _, ok := range read[e.Op.M] {
				n += b2i(ok)
			}
			if e.Val != n {
				r.Fail("len", "Len() of map %d is %d at the end, but %d keys are found", e.Op.M, e.Val, n)
				return
			}
		}
	}
}

// checkDiffer (P18): the same operations give the same results in every map.
func (r *Run) checkDiffer() {
	if len(r.C.MPBs) == 0 {
		return
	}
	first := map[int]*Event{} // last event on map 0, per task
	for _, e := range r.Hist {
		if e.Op.M == 0 {
			first[e.Task] = e
			continue
		}
		o := first[e.Task]
		if o == nil || o.Op.Kind != e.Op.Kind || o.Op.K != e.Op.K || o.Op.V != e.Op.V {
			continue // minimised away
		}
		same := o.OK == e.OK && o.Val == e.Val && len(o.Seen) == len(e.Seen)
		for i := 0; same && i < len(o.Seen); i++ {
			same = o.Seen[i].K == e.Seen[i].K && o.Seen[i].V == e.Seen[i].V
		}
		if !same {
			r.Fail("differ", "%s by task %d gives %v,%d %v in %s/%d but %v,%d %v in %s/%d", o.Op, e.Task, o.OK, o.Val, o.Seen, r.C.mode(0), r.C.MPBs[0], e.OK, e.Val, e.Seen, r.C.mode(e.Op.M), r.C.MPBs[e.Op.M])
			return
		}
	}
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

var isRange = map[string]bool{"range": true, "rangeitem": true, "walk": true, "walkback": true}

// checkRanges judges traversals against what the history allows.
func (r *Run) checkRanges() {
	ri := map[string]int{}
	for i, k := range r.C.Keys {
		ri[k.K] = i
	}
	for _, e := range r.Hist {
		if !isRange[e.Op.Kind] || e.Ret == 0 || e.Unk {
			continue
		}
		last := -1
		cnt := map[int]bool{}
		for _, p := range e.Seen {
			i, ok := ri[p.K]
			if !ok {
				r.Fail("range-ghost", "range delivered key %q that was never stored", p.K)
				return
			}
			if cnt[i] && !r.deletedDuring(e, i) { // a key stored again is a new entry
				r.Fail("range-dup", "range delivered key %q twice", p.K)
				return
			}
			cnt[i] = true
			if o := last; o >= 0 && (e.Op.Kind != "walkback" && r.C.Keys[o].R > r.C.Keys[i].R || e.Op.Kind == "walkback" && r.C.Keys[o].R < r.C.Keys[i].R) {
				r.Fail("range-order", "range delivered %q (%016x) after %q (%016x)", p.K, r.C.Keys[i].R, r.C.Keys[last].K, r.C.Keys[last].R)
				return
			}
			last = i
		}
		if e.Op.V != 0 && len(e.Seen) > e.Op.V {
			r.Fail("range-stop", "range went on after the callback returned false")
			return
		}
		// per key: presence (or absence) must be explained by some moment of the traversal
		for k := range r.C.Keys {
			var ops []regOp
			for _, o := range r.keyOps(e.Op.M, k) {
				ops = append(ops, o)
			}
			var vals []int
			for _, p := range e.Seen {
				if ri[p.K] == k {
					vals = append(vals, p.V)
				}
			}
			present := len(vals) > 0
			if !present {
				if e.Op.V != 0 && len(e.Seen) == e.Op.V {
					continue // stopped early: absence means nothing
				}
				vals = []int{0}
			}
			for _, v := range vals {
				if linearizable(append(ops[:len(ops):len(ops)], regOp{call: e.Call, ret: e.Ret, kind: 'r', v: v, ev: e}), 0) {
					continue
				}
				if present {
					r.Fail("range-stale", "range delivered %s=%d, a value it did not hold at any moment of the traversal", r.C.Keys[k].K, v)
				} else {
					r.Fail("range-miss", "range did not deliver %s, which was present during the whole traversal", r.C.Keys[k].K)
				}
				return
			}
		}
	}
}

// deletedDuring: a deletion of key k overlaps the traversal e.
func (r *Run) deletedDuring(e *Event, k int) bool {
	for _, d := range r.Hist {
		if (d.Op.Kind == "del" || d.Op.Kind == "purge") && d.Op.M == e.Op.M && d.Op.K == k && d.Call < e.Ret && (d.Ret == 0 || d.Ret > e.Call) {
			return true
		}
	}
	return false
}
