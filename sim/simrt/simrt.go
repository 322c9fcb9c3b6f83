// Package simrt is the deterministic simulator that instrumented code runs in.
//
// Tasks are coroutines (iter.Pull): exactly one runs at any moment and control
// changes hands only inside Y (called before every statement of instrumented
// code), on a blocking primitive, or when a task ends.  Which task runs next and
// for how many statements is decided by a Policy; the decisions actually taken
// are recorded as a list of segments that replays the execution exactly.
package simrt

import (
	"fmt"
	"iter"
	"reflect"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"time"
	"unsafe"
)

const Enabled = true

// Seg is one scheduling decision: task T runs for N statements.  T == GCSeg
// means "collect garbage here".
type Seg struct {
	T int `json:"t"`
	N int `json:"n"`
}

const GCSeg = -1

// HangSeg in a trace: task N is never scheduled again.
const HangSeg = -2

type state uint8

const (
	runnable state = iota
	blocked
	done
)

type abort struct{}

// Task is one simulated goroutine.
type Task struct {
	ID       int
	fn       func()
	next     func() (struct{}, bool)
	stop     func()
	yield    func(struct{}) bool
	st       state
	why      string
	Daemon   bool
	Frozen   bool  // never scheduled again in this phase
	stall    int64 // not scheduled before this global step (or until nothing else can run)
	Steps    int64
	opStart  int64
	opIndex  int
	InOp     bool
	cut      int64 // own step at which the policy wants control back (0: none)
	watch    int32 // site the policy waits for within this operation (-1: none)
	watchN   int   // passages of it still to let go
	watchHit bool
	aborting bool
	polling  bool
	wake     int64 // simulated time at which a sleeper wakes
	Panic    any
	PanicStk string
	Fault    string
	lastSite int32
}

// Policy decides schedules.
type Policy interface {
	// Pick returns the task to run and the number of statements to run it for.
	Pick(s *Sched, ready []*Task) (t *Task, n int, gc bool)
	// OpBegin may ask for a cut after a number of own statements (0: none).
	OpBegin(s *Sched, t *Task) int64
	// Cut is called when a requested cut is reached.
	Cut(s *Sched, t *Task)
}

// Limits bound a run.
type Limits struct {
	OpSteps  int64 // statements one operation may execute
	RunSteps int64 // statements all tasks together may execute
}

// Sched is one simulated execution (several phases may share it).
type Sched struct {
	Tasks     []*Task
	cur       *Task
	budget    int64
	quantum   int64
	Global    int64
	seq       int64
	Policy    Policy
	Lim       Limits
	Trace     []Seg
	KeepTr    bool
	Failure   string // "", "deadlock", "no-progress", ...
	FailTask  int
	Hash      uint64 // hash over (task, site) of every switch
	Switches  int64
	Preempts  int64 // switches away from a task in the middle of an operation
	GCs       int64
	Torn      int64 // stores of several words made in steps
	Blocks    int64
	clock     int64 // simulated nanoseconds added by sleeping
	hashTab   map[string]uint64
	hashSeed  uint64
	chans     map[uintptr]*chanState
	chanList  []*chanState
	timers    map[any]*timer
	maps      map[unsafe.Pointer]*Task // Go maps in the middle of a write
	rndState  uint64
	Pairs     map[uint64]struct{} // distinct (site preempted, site resumed)
	stopping  bool
	RR        int
	lastEarly bool
	slowOn    bool  // every statement goes through slow()
	slowLeft  int64 // statements left of the quantum while slowOn
	// Probe, when set, sees every statement (own statements of the operation so far).
	Probe func(t *Task, own int64, site int32)
}

var cur *Sched

// Begin installs a fresh simulation.
func Begin(hashSeed uint64, tab map[string]uint64) *Sched {
	s := &Sched{hashSeed: hashSeed, hashTab: tab, chans: map[uintptr]*chanState{}, maps: map[unsafe.Pointer]*Task{}, rndState: hashSeed ^ 0x9e3779b97f4a7c15, FailTask: -1, Pairs: map[uint64]struct{}{}}
	cur = s
	return s
}

// End removes the simulation, unwinding whatever is still suspended.
func (s *Sched) End() {
	s.stopping = true
	for _, t := range s.Tasks {
		if t.st != done && t.yield != nil {
			s.cur = t
			t.aborting = true
			t.stop()
		}
	}
	cur = nil
}

// Y is the preemption point put before every statement.
func Y(site int32) {
	s := cur
	if s == nil {
		return
	}
	s.budget--
	if s.budget > 0 {
		return
	}
	s.slow(site)
}

func (s *Sched) slow(site int32) {
	t := s.cur
	if t == nil || t.aborting {
		s.budget = 1 << 30
		return
	}
	if s.slowOn {
		s.slowLeft--
		if s.Probe != nil && t.InOp {
			s.Probe(t, s.liveSteps()-t.opStart, site)
		}
		if t.watch >= 0 && t.watch == site && t.InOp {
			if t.watchN--; t.watchN < 0 {
				t.watch, t.watchHit = -1, true
				t.lastSite = site
				s.pause(t)
				return
			}
		}
		if s.slowLeft > 0 {
			s.budget = 1
			return
		}
	}
	t.lastSite = site
	s.pause(t)
}

// left is what remains of the current quantum.
func (s *Sched) left() int64 {
	if s.slowOn {
		return s.slowLeft
	}
	return s.budget
}

// refine turns per-statement control on or off for the rest of the quantum.
func (s *Sched) refine(on bool) {
	l := s.left()
	if l < 0 {
		l = 0
	}
	s.slowOn = on
	if on {
		s.slowLeft, s.budget = l, 1
	} else {
		s.budget = l
	}
}

func (s *Sched) pause(t *Task) {
	if !t.yield(struct{}{}) {
		t.aborting = true
		panic(abort{})
	}
}

func (s *Sched) spawn(fn func(), daemon bool) *Task {
	t := &Task{ID: len(s.Tasks), fn: fn, Daemon: daemon, lastSite: -1, watch: -1}
	s.Tasks = append(s.Tasks, t)
	t.next, t.stop = iter.Pull(func(yield func(struct{}) bool) {
		t.yield = yield
		debug.SetPanicOnFault(true)
		defer func() {
			t.st = done
			if r := recover(); r != nil {
				if _, ok := r.(abort); ok || t.aborting {
					return
				}
				t.Panic = r
				t.PanicStk = shortStack()
				if re, ok := r.(runtime.Error); ok {
					t.Fault = re.Error()
				}
			}
		}()
		t.fn()
	})
	return t
}

func shortStack() string {
	var pcs [40]uintptr
	n := runtime.Callers(3, pcs[:])
	fr := runtime.CallersFrames(pcs[:n])
	var b strings.Builder
	k := 0
	for {
		f, more := fr.Next()
		if !strings.HasPrefix(f.Function, "runtime.") && !strings.HasPrefix(f.Function, "simrt.") {
			fn := f.Function
			if i := strings.LastIndex(fn, "/"); i >= 0 {
				fn = fn[i+1:]
			}
			fmt.Fprintf(&b, "%s:%d;", fn, f.Line)
			k++
		}
		if !more || k > 7 {
			break
		}
	}
	return b.String()
}

// Run executes the functions as concurrent tasks until all have ended, are
// frozen, or a limit or deadlock is hit.  It reports false on failure.
func (s *Sched) Run(fns ...func()) bool {
	first := len(s.Tasks)
	for _, f := range fns {
		s.spawn(f, false)
	}
	var ready []*Task
	for s.Failure == "" {
		ready = ready[:0]
		alive := false
		for i, t := range s.Tasks {
			if t.st == done || t.Frozen {
				continue
			}
			if t.st == blocked && t.wake > 0 && t.wake <= s.now() {
				t.wake, t.st = 0, runnable
			}
			if i >= first && !t.Daemon {
				alive = true
			}
			if t.st == runnable && (i >= first || t.Daemon) {
				ready = append(ready, t)
			}
		}
		if !alive {
			return true
		}
		if len(ready) == 0 {
			if s.foreign() || s.wakeSleeper() {
				continue
			}
			s.Failure = "deadlock"
			for _, t := range s.Tasks[first:] {
				if t.st == blocked && !t.Daemon {
					s.FailTask = t.ID
				}
			}
			return false
		}
		// stalled tasks come back when their time is up or nothing else can run
		live := make([]*Task, 0, len(ready))
		for _, t := range ready {
			if t.stall <= s.Global {
				t.stall = 0
				live = append(live, t)
			}
		}
		if len(live) == 0 || onlyDaemons(live) {
			for _, t := range ready {
				t.stall = 0
			}
			live = append(live[:0], ready...)
		}
		t, n, gc := s.Policy.Pick(s, live)
		if gc {
			s.GC()
			continue
		}
		if t == nil {
			continue
		}
		if n < 1 {
			n = 1
		}
		s.step(t, int64(n))
		if t.st == done && t.Panic != nil {
			s.Failure, s.FailTask = "panic", t.ID
			return false
		}
		if t.InOp && t.st != done && t.Steps-t.opStart > s.Lim.OpSteps {
			s.Failure, s.FailTask = "no-progress", t.ID
			return false
		}
		if s.Global > s.Lim.RunSteps {
			s.Failure, s.FailTask = "run-too-long", t.ID
			return false
		}
	}
	return false
}

func onlyDaemons(ts []*Task) bool {
	for _, t := range ts {
		if !t.Daemon {
			return false
		}
	}
	return true
}

func (s *Sched) step(t *Task, n int64) {
	if t.cut > 0 && t.Steps+n > t.cut {
		n = t.cut - t.Steps
		if n < 1 {
			n = 1
		}
	}
	prev := s.cur
	if prev != t && prev != nil {
		s.Switches++
		if prev.st == runnable && prev.InOp {
			s.Preempts++
			s.Pairs[uint64(uint32(prev.lastSite))<<32|uint64(uint32(t.lastSite))] = struct{}{}
		}
		s.Hash = (s.Hash ^ uint64(t.ID+1)<<32 ^ uint64(uint32(prev.lastSite))) * 0x100000001b3
	}
	s.cur = t
	s.quantum, s.budget, s.slowOn = n, n, false
	s.refine(s.Probe != nil || (t.watch >= 0 && t.InOp))
	t.next()
	used := s.quantum - s.left()
	if used < 0 {
		used = 0
	}
	t.Steps += used
	s.Global += used
	if s.KeepTr {
		// A segment that ended early (task blocked or finished) is recorded one
		// longer, so that the replay does not stop at its last preemption point.
		early := s.left() > 0 && !t.watchHit
		if early {
			used++
		}
		if k := len(s.Trace); k > 0 && s.Trace[k-1].T == t.ID && !s.lastEarly {
			s.Trace[k-1].N += int(used)
		} else {
			s.Trace = append(s.Trace, Seg{t.ID, int(used)})
		}
		s.lastEarly = early
	}
	if (t.cut > 0 && t.Steps >= t.cut || t.watchHit) && t.st != done {
		t.cut, t.watchHit = 0, false
		s.Policy.Cut(s, t)
	}
}

// GC collects now and (with GODEBUG=clobberfree=1) overwrites what was freed.
func (s *Sched) GC() {
	s.GCs++
	if s.KeepTr {
		s.Trace = append(s.Trace, Seg{GCSeg, 0})
	}
	runtime.GC()
}

// Stall keeps the task off the processor until global step `until`.
func (s *Sched) Stall(t *Task, until int64) { t.stall = until }

// OpIndex returns the number of operations the task has begun.
func (t *Task) OpIndex() int { return t.opIndex }

// OwnSteps returns the own statements executed since the operation began.
func (t *Task) OwnSteps() int64 { return t.Steps - t.opStart }

// Blocked tells whether the task waits for a primitive.
func (t *Task) Blocked() bool { return t.st == blocked }

// Done tells whether the task ended.
func (t *Task) Done() bool { return t.st == done }

// LastSite is where the task was last paused.
func (t *Task) LastSite() int32 { return t.lastSite }

func (s *Sched) liveSteps() int64 { return s.cur.Steps + (s.quantum - s.left()) }

// Watch asks for control when the task reaches the site for the nth time (from
// 0) within the operation that is beginning.
func (s *Sched) Watch(t *Task, site int32, nth int) { t.watch, t.watchN = site, nth }

// Freeze takes the task off the processor for good.
func (s *Sched) Freeze(t *Task) {
	t.Frozen = true
	if s.KeepTr {
		s.Trace = append(s.Trace, Seg{HangSeg, t.ID})
		s.lastEarly = true
	}
}

// OpBegin marks the start of a client operation in the current task.
func OpBegin() int64 {
	s := cur
	t := s.cur
	t.opIndex++
	t.InOp = true
	now := s.liveSteps()
	t.opStart = now
	t.watch = -1
	if k := s.Policy.OpBegin(s, t); k > 0 {
		t.cut = now + k
		s.refine(false)
		if s.budget > k {
			s.quantum -= s.budget - k
			s.budget = k
		}
		s.refine(s.Probe != nil)
	} else if t.watch >= 0 {
		s.refine(true)
	}
	s.seq++
	return s.seq
}

// OpSteps is how many statements the current operation has executed so far.
func OpSteps() int64 { return cur.liveSteps() - cur.cur.opStart }

// OpEnd marks its end.
func OpEnd() int64 {
	s := cur
	s.cur.InOp = false
	if s.cur.watch >= 0 {
		s.cur.watch = -1
		s.refine(s.Probe != nil)
	}
	s.seq++
	return s.seq
}

// CurTask is the running task (nil outside the simulation).
func CurTask() *Task {
	if cur == nil {
		return nil
	}
	return cur.cur
}

// CurSched is the running simulation.
func CurSched() *Sched { return cur }

// Go starts a simulated goroutine.
func Go(fn func()) {
	if cur == nil {
		panic("simrt: go statement outside a simulation")
	}
	cur.spawn(fn, true)
}

// Block parks the current task until ready() is called on it.
func Block(why string) {
	s := cur
	if s == nil || s.cur == nil {
		panic("simrt: blocking outside a simulation: " + why)
	}
	t := s.cur
	if t.aborting {
		panic(abort{})
	}
	t.st, t.why = blocked, why
	s.Blocks++
	s.pause(t)
}

// Ready makes a parked task runnable.
func Ready(t *Task) {
	if t.st == blocked {
		t.st = runnable
	}
}

// Aborting tells whether the current task is being unwound.
func Aborting() bool { return cur == nil || cur.stopping || (cur.cur != nil && cur.cur.aborting) }

// Why tells what a blocked task waits for.
func (t *Task) Why() string { return t.why }

// ---- time ----

func (s *Sched) now() int64 { return s.Global*1000 + s.clock }

func (s *Sched) wakeSleeper() bool {
	var best *Task
	for _, t := range s.Tasks {
		if t.st == blocked && t.wake > 0 && !t.Frozen && (best == nil || t.wake < best.wake) {
			best = t
		}
	}
	if best == nil {
		return false
	}
	if best.wake > s.now() {
		s.clock += best.wake - s.now()
	}
	best.wake, best.st = 0, runnable
	return true
}

var epoch = time.Unix(1_700_000_000, 0)

// SimNanos is the simulated time that has passed.
func (s *Sched) SimNanos() int64 { return s.now() }

func Now() time.Time                  { return epoch.Add(time.Duration(cur.now())) }
func Since(t time.Time) time.Duration { return Now().Sub(t) }
func Sleep(d time.Duration) {
	s := cur
	s.cur.wake = s.now() + int64(d) + 1
	Block("sleep")
}
func Gosched() {
	if s := cur; s != nil && s.cur != nil && !s.cur.aborting {
		if s.slowOn {
			s.slowLeft--
		} else {
			s.budget--
		}
		s.pause(s.cur)
	}
}

// ---- randomness and hashing ----

func (s *Sched) rnd() uint64 {
	s.rndState += 0x9e3779b97f4a7c15
	return Mix(s.rndState)
}

// Mix is a 64-bit finaliser (splitmix64).
func Mix(z uint64) uint64 {
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func Intn(n int) int   { return int(cur.rnd() % uint64(n)) }
func Int() int         { return int(cur.rnd() >> 1) }
func Int63() int64     { return int64(cur.rnd() >> 1) }
func Uint32() uint32   { return uint32(cur.rnd()) }
func Float64() float64 { return float64(cur.rnd()>>11) / (1 << 53) }

// MemHash stands in for runtime.memhash, whose per-process random key is a
// source of nondeterminism: the simulation chooses the hash of every key.
func MemHash(p unsafe.Pointer, h, n uintptr) uintptr {
	return uintptr(HashOf(unsafe.Slice((*byte)(p), int(n)), uint64(h)))
}

// StrHash stands in for runtime.strhash.
func StrHash(p unsafe.Pointer, h uintptr) uintptr {
	s := *(*string)(p)
	return uintptr(HashOf([]byte(s), uint64(h)))
}

// HashOf is the simulated hash.
func HashOf(b []byte, h uint64) uint64 {
	var seed uint64 = 1
	if cur != nil {
		if v, ok := cur.hashTab[string(b)]; ok && h == 0 {
			return v
		}
		seed = cur.hashSeed
	}
	x := uint64(14695981039346656037) ^ seed
	for _, c := range b {
		x = (x ^ uint64(c)) * 1099511628211
	}
	return Mix(x ^ h)
}

// MapW precedes a write to a Go map; the write is not atomic, and the runtime
// ends a program that uses a map in the middle of one.
func MapW[M ~map[K]V, K comparable, V any](site int32, m M) M {
	s := cur
	p := *(*unsafe.Pointer)(unsafe.Pointer(&m))
	if s == nil || p == nil || s.cur == nil {
		return m
	}
	if t := s.maps[p]; t != nil && t != s.cur {
		panic("fatal error: concurrent map writes")
	}
	s.maps[p] = s.cur
	Y(site)
	delete(s.maps, p)
	return m
}

// MapR precedes a read of a Go map.
func MapR[M ~map[K]V, K comparable, V any](m M) M {
	s := cur
	p := *(*unsafe.Pointer)(unsafe.Pointer(&m))
	if s == nil || p == nil || s.cur == nil {
		return m
	}
	if t := s.maps[p]; t != nil && t != s.cur {
		panic("fatal error: concurrent map read and map write")
	}
	return m
}

// MapEntry is a key of a map that is ranged over.
type MapEntry[M ~map[K]V, K comparable, V any] struct {
	M M
	K K
}

// MapEntries returns the keys of m in an order that is a function of the seed.
func MapEntries[M ~map[K]V, K comparable, V any](m M) []MapEntry[M, K, V] {
	ks := MapKeys(m)
	es := make([]MapEntry[M, K, V], len(ks))
	for i, k := range ks {
		es[i] = MapEntry[M, K, V]{m, k}
	}
	return es
}

// MapKeys returns the keys of m in an order that is a function of the seed.
func MapKeys[M ~map[K]V, K comparable, V any](m M) []K {
	ks := make([]K, 0, len(m))
	for k := range MapR(m) {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return less(reflect.ValueOf(ks[i]), reflect.ValueOf(ks[j])) })
	if cur != nil {
		for i := len(ks) - 1; i > 0; i-- {
			j := int(cur.rnd() % uint64(i+1))
			ks[i], ks[j] = ks[j], ks[i]
		}
	}
	return ks
}

func less(a, b reflect.Value) bool {
	switch {
	case a.CanInt():
		return a.Int() < b.Int()
	case a.CanUint():
		return a.Uint() < b.Uint()
	case a.Kind() == reflect.String:
		return a.String() < b.String()
	case a.CanFloat():
		return a.Float() < b.Float()
	}
	return fmt.Sprint(a.Interface()) < fmt.Sprint(b.Interface())
}

// ---- channels (a real channel value is only an identity) ----

type chanState struct {
	ch     any // keeps the channel, and with it its address
	buf    []any
	capn   int
	closed bool
	recvq  []*waiter
	sendq  []*waiter
}
type waiter struct {
	t  *Task
	v  any
	ok bool
	in bool // completed
}

func state4(ch any) *chanState {
	v := reflect.ValueOf(ch)
	p := v.Pointer()
	c := cur.chans[p]
	if c == nil {
		c = &chanState{ch: ch, capn: v.Cap()}
		cur.chans[p] = c
		cur.chanList = append(cur.chanList, c)
	}
	return c
}

func Send[T any](ch chan<- T, v T) {
	defer chanEvent()
	c := state4(ch)
	if c.closed {
		panic("send on closed channel")
	}
	for len(c.recvq) > 0 {
		w := c.recvq[0]
		c.recvq = c.recvq[1:]
		w.v, w.ok, w.in = v, true, true
		Ready(w.t)
		return
	}
	if len(c.buf) < c.capn {
		c.buf = append(c.buf, v)
		return
	}
	w := &waiter{t: cur.cur, v: v}
	c.sendq = append(c.sendq, w)
	chanEvent()
	for !w.in {
		Block("chan send")
	}
	if !w.ok {
		panic("send on closed channel")
	}
}

func Recv2[T any](ch <-chan T) (v T, ok bool) {
	defer chanEvent()
	c := state4(ch)
	if len(c.buf) > 0 {
		v, _ = c.buf[0].(T)
		c.buf = c.buf[1:]
		if len(c.sendq) > 0 {
			w := c.sendq[0]
			c.sendq = c.sendq[1:]
			c.buf = append(c.buf, w.v)
			w.ok, w.in = true, true
			Ready(w.t)
		}
		return v, true
	}
	if len(c.sendq) > 0 {
		w := c.sendq[0]
		c.sendq = c.sendq[1:]
		w.ok, w.in = true, true
		Ready(w.t)
		v, _ = w.v.(T)
		return v, true
	}
	if c.closed || foreignClosed(c, ch) {
		return v, false
	}
	w := &waiter{t: cur.cur}
	c.recvq = append(c.recvq, w)
	chanEvent()
	for !w.in {
		Block("chan receive")
	}
	if !w.ok {
		return v, false
	}
	v, _ = w.v.(T)
	return v, true
}

// foreignClosed tells whether code outside of the simulation (package context)
// has closed the channel.
func foreignClosed[T any](c *chanState, ch <-chan T) bool {
	if ch == nil {
		return false
	}
	select {
	case _, ok := <-ch:
		if !ok {
			c.closed = true
		}
	default:
	}
	return c.closed
}

// foreign wakes the tasks that wait for a channel closed outside of the simulation.
func (s *Sched) foreign() bool {
	for _, t := range s.Tasks {
		if t.st != blocked || t.Frozen {
			continue
		}
		for _, c := range s.chanList {
			if c.closed || !(t.polling || waits(c, t)) {
				continue
			}
			v := reflect.ValueOf(c.ch)
			if v.Type().ChanDir()&reflect.RecvDir == 0 || v.IsNil() {
				continue
			}
			i, _, ok := reflect.Select([]reflect.SelectCase{{Dir: reflect.SelectRecv, Chan: v}, {Dir: reflect.SelectDefault}})
			if i == 0 && !ok {
				c.closed = true
				for _, w := range c.recvq {
					w.in = true
					Ready(w.t)
				}
				c.recvq = nil
				chanEvent()
				return true
			}
		}
	}
	return false
}

func waits(c *chanState, t *Task) bool {
	for _, w := range c.recvq {
		if w.t == t {
			return true
		}
	}
	return false
}

func Recv1[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

func Close[T any](ch chan<- T) {
	c := state4(ch)
	if c.closed {
		panic("close of closed channel")
	}
	c.closed = true
	for _, w := range c.recvq {
		w.in = true
		Ready(w.t)
	}
	for _, w := range c.sendq {
		w.in = true
		Ready(w.t)
	}
	c.recvq, c.sendq = nil, nil
	chanEvent()
}

// Seq returns the next event sequence number.
func Seq() int64 {
	cur.seq++
	return cur.seq
}

// V is a preemption point between computing a value and storing it.
func V[T any](site int32, v T) T {
	Y(site)
	return v
}

// The machine stores a value of several words in several steps, the pointer
// last; another task may see it in between.
type tornSlice[S ~[]E, E any] struct {
	site int32
	p    *S
}

// TornSlice is the destination of a store of a slice.
func TornSlice[S ~[]E, E any](site int32, p *S) tornSlice[S, E] { return tornSlice[S, E]{site, p} }

func (t tornSlice[S, E]) Store(v S) {
	Y(t.site)
	s := cur
	if s == nil {
		*t.p = v
		return
	}
	h := (*struct {
		data     unsafe.Pointer
		len, cap int
	})(unsafe.Pointer(t.p))
	h.len, h.cap = len(v), cap(v)
	s.Torn++
	Y(t.site)
	h.data = unsafe.Pointer(unsafe.SliceData(v))
}

type tornString[S ~string] struct {
	site int32
	p    *S
}

// TornString is the destination of a store of a string.
func TornString[S ~string](site int32, p *S) tornString[S] { return tornString[S]{site, p} }

func (t tornString[S]) Store(v S) {
	Y(t.site)
	s := cur
	if s == nil {
		*t.p = v
		return
	}
	h := (*struct {
		data unsafe.Pointer
		len  int
	})(unsafe.Pointer(t.p))
	h.len = len(v)
	s.Torn++
	Y(t.site)
	h.data = unsafe.Pointer(unsafe.StringData(string(v)))
}

type tornIface[T any] struct {
	site int32
	p    *T
}

// TornIface is the destination of a store of an interface value.
func TornIface[T any](site int32, p *T) tornIface[T] { return tornIface[T]{site, p} }

func (t tornIface[T]) Store(v T) {
	Y(t.site)
	s := cur
	if s == nil {
		*t.p = v
		return
	}
	h, n := (*[2]unsafe.Pointer)(unsafe.Pointer(t.p)), (*[2]unsafe.Pointer)(unsafe.Pointer(&v))
	h[0] = n[0]
	s.Torn++
	Y(t.site)
	h[1] = n[1]
}

// Case is one communication of a select.
type Case interface {
	try() bool
	chanp() uintptr
}

// RecvC is a receive case.
type RecvC[T any] struct {
	ch <-chan T
	V  T
	Ok bool
}

// SendC is a send case.
type SendC[T any] struct {
	ch chan<- T
	v  T
}

func NewRecv[T any](ch <-chan T) *RecvC[T]      { return &RecvC[T]{ch: ch} }
func NewSend[T any](ch chan<- T, v T) *SendC[T] { return &SendC[T]{ch, v} }
func (c *RecvC[T]) chanp() uintptr              { return reflect.ValueOf(c.ch).Pointer() }
func (c *SendC[T]) chanp() uintptr              { return reflect.ValueOf(c.ch).Pointer() }

func (c *RecvC[T]) try() bool {
	if c.ch == nil {
		return false
	}
	s := state4(c.ch)
	if len(s.buf) > 0 || len(s.sendq) > 0 || s.closed || foreignClosed(s, c.ch) {
		c.V, c.Ok = Recv2(c.ch)
		return true
	}
	return false
}

func (c *SendC[T]) try() bool {
	if c.ch == nil {
		return false
	}
	s := state4(c.ch)
	if s.closed || len(s.recvq) > 0 || len(s.buf) < s.capn {
		Send(c.ch, c.v)
		return true
	}
	return false
}

// selecting is how a select waits: it polls, so that a peer blocked in a plain
// operation on the same channel is always found.  An unbuffered channel with a
// select on both sides would never meet; such a run ends in a step limit, which
// is reported as an error of the check rather than as a violation.
func sel(def bool, cs ...Case) int {
	for {
		Y(-8)
		k := 0
		if len(cs) > 1 {
			k = Intn(len(cs))
		}
		for i := range cs {
			if j := (i + k) % len(cs); cs[j].try() {
				return j
			}
		}
		if def {
			return -1
		}
		s := cur
		s.cur.polling = true
		Block("select")
		s.cur.polling = false
	}
}

func Select0(def bool) int                   { return sel(def) }
func Select1[A Case](def bool, a A) (int, A) { return sel(def, a), a }
func Select2[A, B Case](def bool, a A, b B) (int, A, B) {
	return sel(def, a, b), a, b
}
func Select3[A, B, C Case](def bool, a A, b B, c C) (int, A, B, C) {
	return sel(def, a, b, c), a, b, c
}
func Select4[A, B, C, D Case](def bool, a A, b B, c C, d D) (int, A, B, C, D) {
	return sel(def, a, b, c, d), a, b, c, d
}

func Select5[A, B, C, D, E Case](def bool, a A, b B, c C, d D, e E) (int, A, B, C, D, E) {
	return sel(def, a, b, c, d, e), a, b, c, d, e
}
func Select6[A, B, C, D, E, F Case](def bool, a A, b B, c C, d D, e E, f F) (int, A, B, C, D, E, F) {
	return sel(def, a, b, c, d, e, f), a, b, c, d, e, f
}
func Select7[A, B, C, D, E, F, G Case](def bool, a A, b B, c C, d D, e E, f F, g G) (int, A, B, C, D, E, F, G) {
	return sel(def, a, b, c, d, e, f, g), a, b, c, d, e, f, g
}
func Select8[A, B, C, D, E, F, G, H Case](def bool, a A, b B, c C, d D, e E, f F, g G, h H) (int, A, B, C, D, E, F, G, H) {
	return sel(def, a, b, c, d, e, f, g, h), a, b, c, d, e, f, g, h
}

// chanEvent wakes every task waiting in a select.
func chanEvent() {
	for _, t := range cur.Tasks {
		if t.st == blocked && t.polling {
			t.st = runnable
		}
	}
}

// After stands in for time.After.
func After(d time.Duration) <-chan time.Time {
	ch := make(chan time.Time, 1)
	Go(func() {
		Sleep(d)
		Send(ch, Now())
	})
	return ch
}

// ---- timers ----

type timer struct {
	gen    int
	active bool
	fire   func()
	period time.Duration
}

func (t *timer) start(d time.Duration) {
	t.gen++
	t.active = true
	gen := t.gen
	Go(func() {
		for {
			Sleep(d)
			if t.gen != gen || !t.active {
				return
			}
			if t.period == 0 {
				t.active = false
				t.fire()
				return
			}
			t.fire()
			d = t.period
		}
	})
}

func newTimer(key any, fire func(), d, period time.Duration) {
	if cur.timers == nil {
		cur.timers = map[any]*timer{}
	}
	t := &timer{fire: fire, period: period}
	cur.timers[key] = t
	t.start(d)
}

// tick sends the time unless the last one was not received.
func tick(ch chan time.Time) func() {
	return func() {
		if c := state4(ch); len(c.buf) == 0 {
			Send(ch, Now())
		}
	}
}

// NewTimer stands in for time.NewTimer.
func NewTimer(d time.Duration) *time.Timer {
	ch := make(chan time.Time, 1)
	t := &time.Timer{C: ch}
	newTimer(t, tick(ch), d, 0)
	return t
}

// AfterFunc stands in for time.AfterFunc.
func AfterFunc(d time.Duration, f func()) *time.Timer {
	t := &time.Timer{}
	newTimer(t, f, d, 0)
	return t
}

// NewTicker stands in for time.NewTicker.
func NewTicker(d time.Duration) *time.Ticker {
	ch := make(chan time.Time, 1)
	t := &time.Ticker{C: ch}
	newTimer(t, tick(ch), d, d)
	return t
}

// Tick stands in for time.Tick.
func Tick(d time.Duration) <-chan time.Time { return NewTicker(d).C }

// TimerStop stands in for the methods Stop.
func TimerStop(key any) bool {
	t := cur.timers[key]
	if t == nil {
		return false
	}
	was := t.active
	t.active = false
	if k, ok := key.(*time.Timer); ok && k.C != nil {
		state4(k.C).buf = nil
	}
	return was
}

// TimerReset stands in for the methods Reset.
func TimerReset(key any, d time.Duration) bool {
	was := TimerStop(key)
	if t := cur.timers[key]; t != nil {
		if t.period > 0 {
			t.period = d
		}
		t.start(d)
	}
	return was
}
