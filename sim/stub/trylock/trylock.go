// Package trylock is the simulator's stand-in for github.com/lk4d4/trylock:
// same API, blocking and ownership decided by the seeded scheduler.
package trylock

import "simrt/ssync"

// Mutex is simple sync.Mutex + ability to try to Lock.
type Mutex struct{ in ssync.Mutex }

func (m *Mutex) Lock()         { m.in.Lock() }
func (m *Mutex) Unlock()       { m.in.Unlock() }
func (m *Mutex) TryLock() bool { return m.in.TryLock() }
