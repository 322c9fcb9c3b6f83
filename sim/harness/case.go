package main

import (
	"fmt"
	"math/bits"

	sm "github.com/kazu/skiplistmap"
	"simrt"
	"unsafe"

	"github.com/kazu/elist_head"
)

// Key is one key of a case together with the position the simulated hash gives
// it (R is the bit-reversed hash, the order in which the map keeps its items).
type Key struct {
	K string `json:"k"`
	R uint64 `json:"r"`
}

// Op is one client operation.
type Op struct {
	Kind string `json:"op"`
	K    int    `json:"k,omitempty"`   // key index
	V    int    `json:"v,omitempty"`   // value, or a count
	M    int    `json:"m,omitempty"`   // map index
	B    int    `json:"b,omitempty"`   // calls into the user's code that panic, once each
	T    int    `json:"t,omitempty"`   // type in which the key is passed
	Sub  []Op   `json:"sub,omitempty"` // operations issued from inside a callback
}

func (o Op) String() string {
	if o.M != 0 {
		m := o.M
		o.M = 0
		return fmt.Sprintf("map%d.", m) + o.String()
	}
	if o.V != 0 {
		return fmt.Sprintf("%s(%d,%d)", o.Kind, o.K, o.V)
	}
	return fmt.Sprintf("%s(%d)", o.Kind, o.K)
}

// Case is one complete simulated run; everything in it is data, and the run is
// a pure function of it and of the code under test.
type Case struct {
	Prop  string      `json:"property"`
	Scen  string      `json:"scenario"`
	Seed  uint64      `json:"seed"`
	Mode  string      `json:"mode"`
	MPB   int         `json:"mpb"`
	Keys  []Key       `json:"keys"`
	HSeed uint64      `json:"hash_seed"`
	Pre   []Op        `json:"pre,omitempty"`
	Tasks [][]Op      `json:"tasks,omitempty"`
	Post  []Op        `json:"post,omitempty"`
	Sched SchedSpec   `json:"sched"`
	Trace []simrt.Seg `json:"trace,omitempty"`
	Maps  int         `json:"maps,omitempty"`
	Modes []string    `json:"modes,omitempty"` // configuration of each map, if they differ
	MPBs  []int       `json:"mpbs,omitempty"`
	NoIDs bool        `json:"no_ids,omitempty"` // keep no reference to items
	Drop  bool        `json:"drop,omitempty"`   // the last operations of the tasks are the last use of the map
	Stats bool        `json:"stats,omitempty"`  // statistics are on when the maps are made
	Log   bool        `json:"log,omitempty"`    // the application reads the log
	Cost  bool        `json:"cost,omitempty"`   // what the last operations cost is judged
	Mixed bool        `json:"mixed,omitempty"`  // values are of many types
	Note  string      `json:"note,omitempty"`
}

// modes are the configurations of the map reachable through its options.
var modes = map[string]func(mpb int) []sm.OptHMap{
	"default":  func(n int) []sm.OptHMap { return []sm.OptHMap{sm.MaxPefBucket(n)} },
	"combine":  func(n int) []sm.OptHMap { return []sm.OptHMap{sm.MaxPefBucket(n), sm.BucketMode(sm.CombineSearch)} },
	"combine2": func(n int) []sm.OptHMap { return []sm.OptHMap{sm.MaxPefBucket(n), sm.BucketMode(sm.CombineSearch2)} },
	"combine3": func(n int) []sm.OptHMap { return []sm.OptHMap{sm.MaxPefBucket(n), sm.BucketMode(sm.CombineSearch3)} },
	"auto4":    func(n int) []sm.OptHMap { return []sm.OptHMap{sm.MaxPefBucket(n), sm.BucketMode(sm.CombineSearch4)} },
	"linear": func(n int) []sm.OptHMap {
		return []sm.OptHMap{sm.MaxPefBucket(n), sm.BucketMode(sm.LenearSearchForBucket)}
	},
	"pool": func(n int) []sm.OptHMap { return []sm.OptHMap{sm.MaxPefBucket(n), sm.UsePool(true)} },
	"pool1": func(n int) []sm.OptHMap {
		return []sm.OptHMap{sm.BucketMode(sm.CombineSearch), sm.UsePool(true), sm.MaxPefBucket(n)}
	},
	"pool2": func(n int) []sm.OptHMap {
		return []sm.OptHMap{sm.UsePool(true), sm.MaxPefBucket(n), sm.BucketMode(sm.CombineSearch2)}
	},
	"pool3": func(n int) []sm.OptHMap {
		return []sm.OptHMap{sm.MaxPefBucket(n), sm.UsePool(true), sm.BucketMode(sm.CombineSearch3)}
	},
	"pool4": func(n int) []sm.OptHMap {
		return []sm.OptHMap{sm.MaxPefBucket(n), sm.UsePool(true), sm.BucketMode(sm.CombineSearch4)}
	},
	"custom": func(n int) []sm.OptHMap {
		return []sm.OptHMap{sm.MaxPefBucket(n), sm.ItemFn(func() sm.MapItem { return (*userItem)(nil) })}
	},
	"ukey": func(n int) []sm.OptHMap {
		return []sm.OptHMap{sm.MaxPefBucket(n), sm.ItemFn(func() sm.MapItem { return (*userItem)(nil) })}
	},
	"bigitem": func(n int) []sm.OptHMap {
		return []sm.OptHMap{sm.MaxPefBucket(n), sm.ItemFn(func() sm.MapItem { return (*bigItem)(nil) })}
	},
	"headitem": func(n int) []sm.OptHMap {
		return []sm.OptHMap{sm.MaxPefBucket(n), sm.ItemFn(func() sm.MapItem { return (*headItem)(nil) })}
	},
	"entry": func(n int) []sm.OptHMap { // items made by NewEntryMap()
		return []sm.OptHMap{sm.MaxPefBucket(n), sm.ItemFn(func() sm.MapItem { return sm.EmptyEntryHMap })}
	},
	"gpool": func(n int) []sm.OptHMap {
		sm.UseGoroutineInPool = true
		return []sm.OptHMap{sm.MaxPefBucket(n), sm.UsePool(true), sm.BucketMode(sm.CombineSearch3)}
	},
	"gpool1": func(n int) []sm.OptHMap {
		sm.UseGoroutineInPool = true
		return []sm.OptHMap{sm.UsePool(true), sm.MaxPefBucket(n)}
	},
	"gpool4": func(n int) []sm.OptHMap {
		sm.UseGoroutineInPool = true
		return []sm.OptHMap{sm.MaxPefBucket(n), sm.BucketMode(sm.CombineSearch4)}
	},
	"rmap": nil, // rmap.New() takes no options
	"emb":  func(n int) []sm.OptHMap { return []sm.OptHMap{sm.UseEmbeddedPool(true), sm.MaxPefBucket(n)} },
	"emb1": func(n int) []sm.OptHMap {
		return []sm.OptHMap{sm.MaxPefBucket(n), sm.UseEmbeddedPool(true), sm.BucketMode(sm.CombineSearch)}
	},
	"emb2": func(n int) []sm.OptHMap {
		return []sm.OptHMap{sm.MaxPefBucket(n), sm.BucketMode(sm.CombineSearch2), sm.UseEmbeddedPool(true)}
	},
	"emb4": func(n int) []sm.OptHMap {
		return []sm.OptHMap{sm.MaxPefBucket(n), sm.UsePool(true), sm.BucketMode(sm.CombineSearch4), sm.UseEmbeddedPool(true)}
	},
	"embedded": func(n int) []sm.OptHMap {
		return []sm.OptHMap{sm.MaxPefBucket(n), sm.UseEmbeddedPool(true), sm.BucketMode(sm.CombineSearch3)}
	},
}

// arg is the key as it is passed to a lookup or a deletion.
func (r *Run) arg(op Op) interface{} {
	if !ukeyed(r.C.mode(op.M)) {
		if op.T%2 == 1 {
			return []byte(r.key(op.K))
		}
		return r.key(op.K)
	}
	k := bits.Reverse64(r.C.Keys[op.K].R)
	switch op.T % 6 {
	case 1:
		return int(k)
	case 2:
		return int64(k)
	case 3:
		if uint64(int32(k)) == k {
			return int32(k)
		}
	case 4:
		if uint64(uint32(k)) == k {
			return uint32(k)
		}
	case 5:
		if uint64(byte(k)) == k {
			return byte(k)
		}
	}
	return k
}

// item hash table for the simulated memhash
func (c *Case) hashTab() map[string]uint64 {
	t := map[string]uint64{}
	for _, k := range c.Keys {
		t[k.K] = bits.Reverse64(k.R)
	}
	return t
}

// userItem is an application's own item type, with a hash of its own.
type userItem struct {
	id   int
	v    int
	hash uint64
	conf uint64
	bomb int // methods that panic at their next call
	sm.MapHead
}

// methods of an item that may panic
const (
	bombValue = 1 << iota
	bombSetValue
	bombKeyHash
	bombDelete
)

// userPanic is a panic of the application's code.
type userPanic struct{ in string }

func (u *userItem) explode(b int, in string) {
	if u.bomb&b != 0 {
		u.bomb &^= b
		panic(userPanic{in})
	}
}

var _ sm.MapItem = (*userItem)(nil)

const userItemOff = unsafe.Offsetof(userItem{}.MapHead) + unsafe.Offsetof(sm.MapHead{}.ListHead)

func userItemOf(l *elist_head.ListHead) *userItem {
	return (*userItem)(sm.ElementOf(unsafe.Pointer(l), userItemOff))
}
func (u *userItem) Offset() uintptr         { return userItemOff }
func (u *userItem) PtrMapHead() *sm.MapHead { return &u.MapHead }
func (u *userItem) HmapEntryFromListHead(l *elist_head.ListHead) sm.HMapEntry {
	return userItemOf(l)
}
func (u *userItem) Next() sm.HMapEntry { return userItemOf(u.PtrListHead().DirectNext()) }
func (u *userItem) Prev() sm.HMapEntry { return userItemOf(u.PtrListHead().DirectPrev()) }
func (u *userItem) Key() interface{} {
	if u.conf == 0 {
		return u.hash // a key whose hash is itself
	}
	return u.id
}
func (u *userItem) Value() interface{} {
	u.explode(bombValue, "Value")
	return u.v
}
func (u *userItem) SetValue(v interface{}) bool {
	u.explode(bombSetValue, "SetValue")
	u.v, _ = decode(v)
	return true
}
func (u *userItem) KeyHash() (uint64, uint64) {
	u.explode(bombKeyHash, "KeyHash")
	return u.hash, u.conf
}
func (u *userItem) Delete() { u.explode(bombDelete, "Delete") }

// bigItem is an item whose head is far from its beginning.
type bigItem struct {
	pad [60]int
	userItem
}

var _ sm.MapItem = (*bigItem)(nil)

const bigItemOff = unsafe.Offsetof(bigItem{}.userItem) + userItemOff

func bigItemOf(l *elist_head.ListHead) *bigItem {
	return (*bigItem)(sm.ElementOf(unsafe.Pointer(l), bigItemOff))
}
func (u *bigItem) Offset() uintptr         { return bigItemOff }
func (u *bigItem) PtrMapHead() *sm.MapHead { return &u.MapHead }
func (u *bigItem) HmapEntryFromListHead(l *elist_head.ListHead) sm.HMapEntry {
	return bigItemOf(l)
}
func (u *bigItem) Next() sm.HMapEntry { return bigItemOf(u.PtrListHead().DirectNext()) }
func (u *bigItem) Prev() sm.HMapEntry { return bigItemOf(u.PtrListHead().DirectPrev()) }

// headItem is an item that begins with its head.
type headItem struct {
	sm.MapHead
	userItem
}

var _ sm.MapItem = (*headItem)(nil)

const headItemOff = unsafe.Offsetof(headItem{}.MapHead) + unsafe.Offsetof(sm.MapHead{}.ListHead)

func headItemOf(l *elist_head.ListHead) *headItem {
	return (*headItem)(sm.ElementOf(unsafe.Pointer(l), headItemOff))
}
func (u *headItem) Offset() uintptr                   { return headItemOff }
func (u *headItem) PtrMapHead() *sm.MapHead           { return &u.MapHead }
func (u *headItem) PtrListHead() *elist_head.ListHead { return u.MapHead.PtrListHead() }
func (u *headItem) HmapEntryFromListHead(l *elist_head.ListHead) sm.HMapEntry {
	return headItemOf(l)
}
func (u *headItem) Next() sm.HMapEntry { return headItemOf(u.PtrListHead().DirectNext()) }
func (u *headItem) Prev() sm.HMapEntry { return headItemOf(u.PtrListHead().DirectPrev()) }

// ukeyed tells that the keys of the application are numbers, which are their hash.
func ukeyed(mode string) bool { return mode == "ukey" || mode == "bigitem" || mode == "headitem" }

type boxed struct {
	v int
	s string
}

// value is what the application stores for the value n of a case.
func (c *Case) value(n int) interface{} {
	if !c.Mixed {
		return n
	}
	switch n % 7 {
	case 1:
		return fmt.Sprint("v", n)
	case 2:
		return float64(n)
	case 3:
		return &n
	case 4:
		return []int{n} // not comparable
	case 5:
		return boxed{n, "b"}
	case 6:
		return map[string]int{"n": n}
	}
	return n
}

func decode(v interface{}) (int, bool) {
	switch x := v.(type) {
	case int:
		return x, true
	case nil:
		return 0, true
	case string:
		n := 0
		_, err := fmt.Sscanf(x, "v%d", &n)
		return n, err == nil
	case float64:
		return int(x), true
	case *int:
		return *x, true
	case []int:
		if len(x) != 1 {
			return 0, false
		}
		return x[0], true
	case boxed:
		return x.v, x.s == "b"
	case map[string]int:
		return x["n"], len(x) == 1
	}
	return 0, false
}
