package main

import (
	"fmt"
	"math/bits"
	"os"
	"runtime"
	"strings"

	sm "github.com/kazu/skiplistmap"
	"github.com/kazu/skiplistmap/rmap"
	"simreset"
	"simrt"
)

// Event is one completed (or pending) operation of the history.
type Event struct {
	Task int
	Op   Op
	Call int64
	Ret  int64 // 0: never returned
	OK   bool
	Val  int
	Raw  string // unexpected result, described
	Seen []Pair // what a traversal delivered
	Ptr  int    // identity of the item stored or loaded (0: none)
	Sub  int    // >0: issued from inside a callback
	Cost int64  // statements it executed
	Unk  bool   // ended by a panic of the application's code
}

// Pair is one entry a traversal delivered.
type Pair struct {
	K   string
	V   int
	R   uint64
	Ptr int
}

// Fail is a violation.
type Fail struct {
	Class string `json:"class"`
	Msg   string `json:"msg"`
}

// Run is the state of one executing case.
type Run struct {
	C     *Case
	S     *simrt.Sched
	Maps  []*sm.Map
	RMaps []*rmap.RMap // in place of Maps[i], if the mode of map i is rmap
	Hist  []*Event
	fail  *Fail
	All   []Fail
	Stats *RunStats
	base  int
	ids   map[sm.MapItem]int
	held  map[[3]int]sm.MapItem // handles a task keeps: task, map, key
	nsub  int
	extra []*sm.Map
	prev  []sm.OptHMap
	inLog bool
	begun []int // operations each task has begun
	lasts int   // tasks that have not begun their last operation
}

// option is what an "opt" operation passes to Options.
func (r *Run) option(op Op) []sm.OptHMap {
	switch {
	case op.V == 300: // what the last call returned
		return r.prev
	case op.V >= 200:
		return []sm.OptHMap{sm.UsePool(op.V == 200)}
	case op.V >= 100:
		return []sm.OptHMap{sm.BucketMode(sm.SearchMode(op.V - 100))}
	}
	return []sm.OptHMap{sm.MaxPefBucket(op.V)}
}

// logReader is an application that looks up keys when it is told something.
type logReader struct{ r *Run }

func (l logReader) Write(p []byte) (int, error) {
	r := l.r
	if r.inLog || len(r.Maps) == 0 || r.Maps[0] == nil || r.S == nil || simrt.CurTask() == nil || !simrt.CurTask().InOp {
		return len(p), nil
	}
	r.inLog = true
	r.nsub++
	r.Stats.Logs++
	t := simrt.CurTask().ID - r.base
	if r.base == 0 {
		t = preTask
	}
	r.exec(t, Op{Kind: []string{"get", "load"}[r.nsub%2], K: r.nsub % len(r.C.Keys)}, 1)
	r.inLog = false
	return len(p), nil
}

// id numbers items by identity.
func (r *Run) id(it sm.MapItem) int {
	if r.C.NoIDs {
		return 0
	}
	n, ok := r.ids[it]
	if !ok {
		n = len(r.ids) + 1
		r.ids[it] = n
	}
	return n
}

func (r *Run) hold(ev *Event, it sm.MapItem) {
	if !r.C.NoIDs {
		r.held[[3]int{ev.Task, ev.Op.M, ev.Op.K}] = it
	}
}

// mode is the configuration of a map of the case.
func (c *Case) mode(m int) string {
	if m < len(c.Modes) {
		return c.Modes[m]
	}
	return c.Mode
}

// RunStats is what a run reports for the evidence.
type RunStats struct {
	Steps, Switches, Preempts, SimNanos int64
	ConcSteps                           int64 // in the concurrent phase
	Faults                              FaultStats
	Ops, Logs                           int64
	Hash                                uint64
	Pairs                               []uint64
	Probes                              map[string]int64
}

func (r *Run) Fail(class, f string, a ...any) {
	x := Fail{class, fmt.Sprintf(f, a...)}
	r.All = append(r.All, x)
	if r.fail == nil {
		r.fail = &r.All[0]
	}
}

// Broken returns the first failure that breaks the property.
func (r *Run) Broken(p *Prop) *Fail {
	for i := range r.All {
		for _, c := range p.classes() {
			if c == r.All[i].Class {
				return &r.All[i]
			}
		}
	}
	return nil
}

func (r *Run) probe(n string) {
	if r.Stats.Probes == nil {
		r.Stats.Probes = map[string]int64{}
	}
	r.Stats.Probes[n]++
}

const preTask = 1000
const postTask = 2000

// newMap builds the map of the case; called inside a task.
func (r *Run) newMap(i int) *sm.Map {
	if r.C.mode(i) == "rmap" {
		r.RMaps[i] = rmap.New()
		return nil
	}
	mk := modes[r.C.mode(i)]
	if mk == nil {
		panic("unknown mode " + r.C.mode(i))
	}
	n := r.C.MPB
	if i < len(r.C.MPBs) {
		n = r.C.MPBs[i]
	}
	return sm.New(mk(n)...)
}

// phase runs functions as tasks and turns scheduler failures into violations.
func (r *Run) phase(name string, fns ...func()) bool {
	if r.S.Run(fns...) {
		return true
	}
	t := (*simrt.Task)(nil)
	if r.S.FailTask >= 0 {
		t = r.S.Tasks[r.S.FailTask]
	}
	op := "?"
	for i := len(r.Hist) - 1; i >= 0; i-- {
		if t != nil && r.Hist[i].Ret == 0 && r.Hist[i].Task == r.taskNo(t.ID, name) {
			op = r.Hist[i].Op.String()
			break
		}
	}
	switch r.S.Failure {
	case "panic":
		r.Fail("panic", "%s phase: %s panicked: %.160v at %s", name, op, t.Panic, t.PanicStk)
	case "deadlock":
		why := ""
		for _, t := range r.S.Tasks {
			if t.Blocked() {
				why += fmt.Sprintf(" task%d:%s", t.ID, t.Why())
			}
		}
		r.Fail("deadlock", "%s phase: every remaining task is blocked:%s", name, why)
	case "no-progress":
		r.Fail("no-progress", "%s phase: %s executed more than %d statements without returning (near %s)", name, op, r.S.Lim.OpSteps, site(t.LastSite()))
	default:
		r.Fail(r.S.Failure, "%s phase: exceeded %d statements (near %s)", name, r.S.Lim.RunSteps, site(t.LastSite()))
	}
	return false
}

func site(i int32) string {
	if i >= 0 && int(i) < len(simreset.Sites) {
		return simreset.Sites[i]
	}
	return fmt.Sprint(i)
}

func (r *Run) taskNo(id int, phase string) int {
	switch phase {
	case "setup":
		return preTask
	case "verify":
		return postTask
	}
	return id - r.base
}

// exec performs one operation and records it.
func (r *Run) exec(task int, op Op, sub int) *Event {
	ev := &Event{Task: task, Op: op, Sub: sub}
	r.Hist = append(r.Hist, ev)
	r.Stats.Ops++
	if sub == 0 {
		ev.Call = simrt.OpBegin()
	} else {
		ev.Call = simrt.Seq()
	}
	r.guarded(ev)
	if sub == 0 {
		ev.Cost = simrt.OpSteps()
		ev.Ret = simrt.OpEnd()
	} else {
		ev.Ret = simrt.Seq()
	}
	return ev
}

// guarded performs the operation; the application catches its own panics.
func (r *Run) guarded(ev *Event) {
	defer func() {
		switch x := recover().(type) {
		case nil:
		case userPanic:
			ev.Unk = true
			r.Stats.Faults.Panics++
		case error:
			if ev.Op.Kind == "bad" {
				r.Stats.Faults.Panics++
				return
			}
			panic(x)
		case string:
			if ev.Op.Kind == "bad" && !strings.HasPrefix(x, "fatal") {
				r.Stats.Faults.Panics++
				return
			}
			panic(x)
		default:
			panic(x)
		}
	}()
	m, rm := r.Maps[ev.Op.M], r.RMaps[ev.Op.M]
	if r.C.Drop && ev.Task >= 0 && ev.Task < len(r.begun) {
		if r.begun[ev.Task]++; r.begun[ev.Task] == len(r.C.Tasks[ev.Task]) {
			if r.lasts--; r.lasts == 0 { // nobody but these operations refers to the map any more
				r.Maps[ev.Op.M], r.RMaps[ev.Op.M] = nil, nil
			}
		}
	}
	r.apply(m, rm, ev)
}

func (r *Run) key(i int) string { return r.C.Keys[i].K }

func toInt(ev *Event, v interface{}) int {
	if n, ok := decode(v); ok {
		return n
	}
	ev.Raw = fmt.Sprintf("value of type %T", v)
	return -1
}

// hash is the position and the disambiguator of a key in custom mode.
func (r *Run) hash(m, i int) (uint64, uint64) {
	if ukeyed(r.C.mode(m)) {
		return bits.Reverse64(r.C.Keys[i].R), 0
	}
	return bits.Reverse64(r.C.Keys[i].R), uint64(i) + 1
}

// sameHash tells whether the named key has the hash of key i.
func (r *Run) sameHash(name string, i int) bool {
	for _, k := range r.C.Keys {
		if k.K == name {
			return k.R == r.C.Keys[i].R
		}
	}
	return false
}

// keyStr turns a key a traversal delivered into the name of a key of the case.
func (r *Run) keyStr(m int, k interface{}) (string, bool) {
	if i, ok := k.(int); ok && r.C.mode(m) == "custom" {
		if i < 0 || i >= len(r.C.Keys) {
			return fmt.Sprintf("#%d", i), true
		}
		return r.C.Keys[i].K, true
	}
	if u, ok := k.(uint64); ok && ukeyed(r.C.mode(m)) {
		for i := range r.C.Keys {
			if bits.Reverse64(r.C.Keys[i].R) == u {
				return r.C.Keys[i].K, true
			}
		}
		return fmt.Sprintf("#%x", u), true
	}
	s, ok := k.(string)
	return s, ok
}

// applyCustom performs the operations on a map of userItems.
func (r *Run) applyCustom(m *sm.Map, ev *Event) bool {
	k, c := r.hash(ev.Op.M, ev.Op.K)
	switch ev.Op.Kind {
	case "set", "store":
		u := userItem{id: ev.Op.K, v: ev.Op.V, hash: k, conf: c, bomb: ev.Op.B}
		var it sm.MapItem = &u
		if r.C.mode(ev.Op.M) == "bigitem" {
			it = &bigItem{userItem: u}
		} else if r.C.mode(ev.Op.M) == "headitem" {
			it = &headItem{userItem: u}
		}
		ev.Ptr = r.id(it)
		ev.OK = m.StoreItem(it)
	case "del", "purge":
		if c != 0 {
			panic("no delete in custom mode")
		}
		if ev.Op.Kind == "del" {
			ev.OK = m.Delete(r.arg(ev.Op))
		} else {
			ev.OK = m.Purge(r.arg(ev.Op))
		}
	case "get", "gethash":
		var v interface{}
		var ok bool
		if c == 0 && ev.Op.Kind == "get" {
			v, ok = m.Get(r.arg(ev.Op))
		} else {
			if c == 0 {
				k, c = sm.KeyToHash(r.arg(ev.Op))
			}
			v, ok = m.GetByHash(k, c)
		}
		ev.OK, ev.Val = ok, toInt(ev, v)
	case "load":
		var it sm.MapItem
		var ok bool
		switch {
		case c != 0:
			it, ok = m.LoadItemByHash(k, c)
		case ev.Op.V == 1:
			it, ok = m.LoadItemByHash(sm.KeyToHash(r.arg(ev.Op)))
		default:
			it, ok = m.LoadItem(r.arg(ev.Op))
		}
		if ev.OK = ok; ok {
			u, isu := it.(*userItem)
			if b, big := it.(*bigItem); big {
				u, isu = &b.userItem, true
			} else if h, head := it.(*headItem); head {
				u, isu = &h.userItem, true
			}
			if !isu || u.id != ev.Op.K {
				ev.Raw = fmt.Sprintf("item %T of key %v", it, it.Key())
				return true
			}
			ev.Val, ev.Ptr = toInt(ev, u.Value()), r.id(it)
			r.hold(ev, it)
		}
	default:
		return false
	}
	return true
}

// applyR performs the operations on an RMap.
func (r *Run) applyR(m *rmap.RMap, ev *Event) bool {
	switch ev.Op.Kind {
	case "set":
		ev.OK = m.Set(r.key(ev.Op.K), r.C.value(ev.Op.V))
	case "store":
		k, c := sm.KeyToHash(r.key(ev.Op.K))
		ev.OK = m.Set2(k, c, r.key(ev.Op.K), r.C.value(ev.Op.V))
	case "get", "load", "has":
		v, ok := m.Get(r.key(ev.Op.K))
		if ev.Op.Kind == "has" {
			ev.OK = ok
			break
		}
		ev.OK, ev.Val = ok, toInt(ev, v)
	case "gethash":
		v, ok := m.Get2(sm.KeyToHash(r.key(ev.Op.K)))
		ev.OK, ev.Val = ok, toInt(ev, v)
	case "del", "purge":
		ev.OK = m.Delete(r.key(ev.Op.K))
	case "len":
		ev.Val = m.Len()
	case "range", "rangeitem", "walk", "walkback", "search", "iset", "iget", "dump": // there is no such operation
		ev.Op.Kind = "none"
	default:
		return false
	}
	return true
}

func (r *Run) apply(m *sm.Map, rm *rmap.RMap, ev *Event) {
	op := ev.Op
	if op.Kind == "setn" { // a set from a callback: a fresh value each time
		r.nsub++
		ev.Op.Kind, ev.Op.V = "set", 100000+r.nsub
		op = ev.Op
	}
	if rm != nil && r.applyR(rm, ev) {
		return
	}
	if op.Kind == "restore" { // an item the task removed is stored once more
		it := r.held[[3]int{ev.Task, op.M, op.K}]
		if it == nil {
			ev.Op.Kind = "none"
			return
		}
		ev.Op.Kind, ev.Op.V, ev.Ptr = "store", toInt(ev, it.Value()), r.id(it)
		ev.OK = m.StoreItem(it)
		return
	}
	if md := r.C.mode(op.M); (md == "custom" || ukeyed(md)) && r.applyCustom(m, ev) {
		return
	}
	if (op.Kind == "set" || op.Kind == "store") && r.C.mode(op.M) == "entry" {
		it := sm.NewEntryMap(r.key(op.K), r.C.value(op.V))
		ev.Ptr = r.id(it)
		ev.OK = m.StoreItem(it)
		return
	}
	switch op.Kind {
	case "iset", "iget":
		// through a handle the task holds, or else one it looks up now
		it := r.held[[3]int{ev.Task, op.M, op.K}]
		if it == nil {
			var ok bool
			if k, c := r.hash(op.M, op.K); !canSet(r.C.mode(op.M)) && r.C.mode(op.M) != "entry" {
				it, ok = m.LoadItemByHash(k, c)
			} else {
				it, ok = m.LoadItem(r.arg(op))
			}
			if !ok {
				ev.Op.Kind = "get" // reads as absent
				return
			}
			r.held[[3]int{ev.Task, op.M, op.K}] = it
		}
		ev.Ptr = r.id(it)
		if op.Kind == "iset" {
			ev.OK = it.SetValue(r.C.value(op.V))
		} else {
			ev.OK, ev.Val = true, toInt(ev, it.Value())
		}
	case "bad": // a key of a type the operation does not take
		k := []interface{}{1.5, 7, []byte("x"), nil, struct{}{}, uint64(1) << 60}[op.V%6]
		if ukeyed(r.C.mode(op.M)) { // the others denote keys of the case
			k = []interface{}{1.5, struct{}{}}[op.V%2]
		} else if op.V >= 24 { // next to a key of the case
			h, _ := r.hash(op.M, op.K)
			k, op.V = h^1<<63, 0
		}
		if r.C.mode(op.M) == "entry" { // Set() makes SampleItems
			op.V = op.V%12 + 12
		}
		switch op.V / 6 % 4 {
		case 0, 1:
			m.Set(k, 1)
		case 2:
			m.Get(k)
		case 3:
			m.Delete(k)
		}
	case "opt":
		prev := m.Options(r.option(op)...)
		if op.V != 300 {
			r.prev = prev
		} else {
			r.prev = nil
		}
	case "stats":
		sm.EnableStats = op.V > 0
	case "resetstats":
		sm.ResetStats()
	case "new":
		r.extra = append(r.extra, sm.New(sm.MaxPefBucket(r.C.MPB)))
	case "dump":
		w := &dumpWriter{r: r, ev: ev}
		switch op.V {
		case 0:
			m.DumpBucket(w)
		case 1:
			m.DumpBucketPerLevel(w)
		case 2:
			m.DumpEntry(w)
		case 3: // at rest, whatever is stored is listed
			m.DumpEntry(w)
			m.Range(func(k, v interface{}) bool {
				if ks := fmt.Sprint(k); !strings.Contains(w.b.String(), ks) {
					ev.Raw = fmt.Sprintf("dump lacks key %q", ks)
				}
				return true
			})
		}
	case "set":
		ev.OK = m.Set(r.key(op.K), r.C.value(op.V))
	case "get":
		v, ok := m.Get(r.arg(op))
		ev.OK, ev.Val = ok, toInt(ev, v)
	case "gethash":
		k, c := sm.KeyToHash(r.arg(op))
		v, ok := m.GetByHash(k, c)
		ev.OK, ev.Val = ok, toInt(ev, v)
	case "del":
		ev.OK = m.Delete(r.arg(op))
	case "purge":
		ev.OK = m.Purge(r.arg(op))
	case "load":
		var it sm.MapItem
		var ok bool
		if op.V == 1 {
			it, ok = m.LoadItemByHash(sm.KeyToHash(r.arg(op)))
		} else {
			it, ok = m.LoadItem(r.arg(op))
		}
		ev.OK = ok
		if ok {
			if it == nil {
				ev.Raw = "found but nil item"
				return
			}
			if k, _ := it.Key().(string); k != r.key(op.K) {
				ev.Raw = fmt.Sprintf("item of key %q", it.Key())
			}
			ev.Val, ev.Ptr = toInt(ev, it.Value()), r.id(it)
			r.hold(ev, it)
		}
	case "has": // the item is not looked at
		if op.V == 1 {
			_, ev.OK = m.LoadItemByHash(sm.KeyToHash(r.arg(op)))
		} else {
			_, ev.OK = m.LoadItem(r.arg(op))
		}
	case "store":
		it := sm.NewSampleItem(r.key(op.K), r.C.value(op.V))
		if op.T%4 > 1 && !r.C.Mixed { // made by hand
			it = &sm.SampleItem{K: r.key(op.K)}
			it.V.Store(r.C.value(op.V))
		}
		ev.Ptr = r.id(it)
		ev.OK = m.StoreItem(it)
	case "gc":
		r.S.GCs++
		runtime.GC()
	case "len":
		ev.Val = m.Len()
	case "search":
		k, _ := r.hash(op.M, op.K)
		e := m.SearchKey(k)
		if e == nil {
			return
		}
		it := e.(sm.MapItem)
		ks, ok := r.keyStr(op.M, it.Key())
		switch {
		case ok && ks == r.key(op.K):
			ev.OK, ev.Val, ev.Ptr = true, toInt(ev, it.Value()), r.id(it)
		case ok && r.sameHash(ks, op.K):
			ev.Op.Kind = "none" // another key of that hash
		default:
			ev.Raw = fmt.Sprintf("entry of key %v", it.Key())
		}
	case "walk", "walkback": // step by step, as an application may
		if r.C.mode(op.M) == "bigitem" { // its Next() makes an item of a marker, which begins outside of it
			ev.Op.Kind = "none"
			return
		}
		see := func(e sm.HMapEntry) {
			if e.PtrMapHead().IsIgnored() {
				return
			}
			it := e.(sm.MapItem)
			ks, ok := r.keyStr(op.M, it.Key())
			if !ok {
				ev.Raw = fmt.Sprintf("key of type %T", it.Key())
				return
			}
			ev.Seen = append(ev.Seen, Pair{K: ks, V: toInt(ev, it.Value()), R: it.PtrMapHead().KeyInHmap(), Ptr: r.id(it)})
		}
		if op.Kind == "walk" {
			for e := m.First(); ; e = e.Next() {
				see(e)
				if e.PtrMapHead().NextWithNil() == nil {
					break
				}
			}
		} else {
			for e := m.Last(); ; e = e.Prev() {
				see(e)
				if e.PtrMapHead().PrevtWithNil() == nil {
					break
				}
			}
		}
	case "range":
		n := 0
		m.Range(func(k, v interface{}) bool {
			n++
			if n == op.B {
				panic(userPanic{"callback"})
			}
			ks, ok := r.keyStr(op.M, k)
			if !ok {
				ev.Raw = fmt.Sprintf("range key of type %T", k)
				return false
			}
			ev.Seen = append(ev.Seen, Pair{K: ks, V: toInt(ev, v)})
			if len(op.Sub) > 0 {
				r.exec(ev.Task, op.Sub[n%len(op.Sub)], 1)
			}
			return op.V == 0 || n < op.V
		})
	case "rangeitem":
		n := 0
		m.RangeItem(func(it sm.MapItem) bool {
			n++
			if n == op.B {
				panic(userPanic{"callback"})
			}
			ks, ok := r.keyStr(op.M, it.Key())
			if !ok {
				ev.Raw = fmt.Sprintf("range key of type %T", it.Key())
				return false
			}
			ev.Seen = append(ev.Seen, Pair{K: ks, V: toInt(ev, it.Value()), R: it.PtrMapHead().KeyInHmap(), Ptr: r.id(it)})
			if len(op.Sub) > 0 {
				r.exec(ev.Task, op.Sub[n%len(op.Sub)], 1)
			}
			return op.V == 0 || n < op.V
		})
	default:
		panic("unknown op " + op.Kind)
	}
}

// dumpWriter is where the application has a dump written to.
type dumpWriter struct {
	r  *Run
	ev *Event
	n  int
	b  strings.Builder
}

func (w *dumpWriter) Write(p []byte) (int, error) {
	w.b.Write(p)
	w.n++
	op := w.ev.Op
	if w.n == op.B {
		panic(userPanic{"writer"})
	}
	if len(op.Sub) > 0 && w.n <= 3 {
		w.r.exec(w.ev.Task, op.Sub[w.n%len(op.Sub)], 1)
	}
	return len(p), nil
}

// Execute runs the case and returns the violation, if any.
func Execute(c *Case, keepTrace bool) (r *Run, f *Fail) { return execute(c, keepTrace, nil) }

// Probe is what one execution passed: for every task and operation, the
// statements reached and how often.
type Probe map[[2]int]map[int32]int

func execute(c *Case, keepTrace bool, probe Probe) (r *Run, f *Fail) {
	simreset.Reset()
	r = &Run{C: c, Stats: &RunStats{}, ids: map[sm.MapItem]int{}, held: map[[3]int]sm.MapItem{}}
	s := simrt.Begin(c.HSeed, c.hashTab())
	r.S = s
	s.KeepTr = true
	s.Lim = simrt.Limits{OpSteps: 500_000, RunSteps: 8_000_000 + 100_000*int64(max(0, len(c.Keys)-150))}
	for i := range c.Sched.Stalls {
		c.Sched.Stalls[i].Fired = false
	}
	seq := &SchedSpec{Kind: "seq"}
	stderr := os.Stderr
	defer func() {
		if os.Stderr != stderr {
			os.Stderr.Close()
			os.Stderr = stderr
		}
		s.End()
		r.Stats.Steps, r.Stats.Switches, r.Stats.Preempts, r.Stats.Hash = s.Global, s.Switches, s.Preempts, s.Hash
		r.Stats.SimNanos = s.SimNanos()
		for p := range s.Pairs {
			r.Stats.Pairs = append(r.Stats.Pairs, p)
		}
	}()
	s.Policy = newWalk(seq, 0, &r.Stats.Faults)
	if !r.phase("setup", func() {
		for i := 0; i < max(1, c.Maps); i++ {
			if strings.HasPrefix(c.mode(i), "gpool") { // global, and must not change under a map that has a pool
				sm.UseGoroutineInPool = true
			}
		}
		if c.Stats {
			os.Stderr, _ = os.OpenFile(os.DevNull, os.O_WRONLY, 0)
			sm.EnableStats = true
		}
		if c.Log {
			sm.SetLogIO(logReader{r})
		}
		for i := 0; i < max(1, c.Maps); i++ {
			r.RMaps = append(r.RMaps, nil)
			r.Maps = append(r.Maps, r.newMap(i))
		}
		for _, op := range c.Pre {
			r.exec(preTask, op, 0)
		}
	}) {
		return r, r.fail
	}
	if len(c.Tasks) > 0 {
		r.base = len(s.Tasks)
		s.Trace = nil
		if c.Sched.Kind == "trace" {
			s.Policy = &tracePol{segs: c.Trace}
		} else {
			s.Policy = newWalk(&c.Sched, r.base, &r.Stats.Faults)
		}
		if probe != nil {
			s.Probe = func(t *simrt.Task, own int64, site int32) {
				if site < 0 || t.ID < r.base {
					return
				}
				k := [2]int{t.ID - r.base, t.OpIndex()}
				if probe[k] == nil {
					probe[k] = map[int32]int{}
				}
				probe[k][site]++
			}
		}
		var fns []func()
		for i, ops := range c.Tasks {
			fns = append(fns, func() {
				for _, op := range ops {
					r.exec(i, op, 0)
				}
			})
			if r.begun = append(r.begun, 0); len(ops) > 0 {
				r.lasts++
			}
		}
		at := s.Global
		ok := r.phase("concurrent", fns...)
		r.Stats.ConcSteps = s.Global - at
		s.Probe = nil
		if keepTrace {
			c.Trace = append([]simrt.Seg{}, s.Trace...)
		}
		if !ok {
			return r, r.fail
		}
	}
	s.KeepTr = false
	s.Policy = newWalk(seq, 0, &r.Stats.Faults)
	if !r.phase("verify", func() {
		for _, op := range c.Post {
			r.exec(postTask, op, 0)
		}
	}) {
		return r, r.fail
	}
	r.check()
	runtime.KeepAlive(r.Maps)
	runtime.KeepAlive(r.RMaps)
	runtime.KeepAlive(r.extra)
	return r, r.fail
}

// HistString renders the history.
func (r *Run) HistString() string {
	var b strings.Builder
	for _, e := range r.Hist {
		fmt.Fprintf(&b, "[%d,%d] t%d %s -> %v %d", e.Call, e.Ret, e.Task, e.Op, e.OK, e.Val)
		if e.Seen != nil {
			fmt.Fprintf(&b, " %v", e.Seen)
		}
		if e.Raw != "" {
			fmt.Fprintf(&b, " !%s", e.Raw)
		}
		b.WriteByte('\n')
	}
	return b.String()
}
