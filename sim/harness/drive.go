package main

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	"simreset"
)

const simGODEBUG = "GODEBUG=clobberfree=1,gcshrinkstackoff=1,invalidptr=0"

// child runs this program again with another command.  died is set when it was
// ended by a fatal error of the program rather than by us.
func child(timeout time.Duration, logf string, args ...string) (ok, died, timedOut bool) {
	exe, err := os.Executable()
	if err != nil {
		fatal("%v", err)
	}
	cmd := exec.Command(exe, args...)
	cmd.Env = append(os.Environ(), simGODEBUG, "GOMAXPROCS=1", "GOTRACEBACK=single")
	lf, err := os.Create(logf)
	if err != nil {
		fatal("%v", err)
	}
	defer lf.Close()
	cmd.Stderr = lf
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	if err := cmd.Start(); err != nil {
		fatal("%v", err)
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case err = <-done:
	case <-time.After(timeout):
		syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
		<-done
		return false, false, true
	}
	if err == nil {
		return true, false, false
	}
	if x, isExit := err.(*exec.ExitError); isExit {
		ws := x.Sys().(syscall.WaitStatus)
		if ws.Signaled() && ws.Signal() == syscall.SIGKILL {
			return false, false, false // memory guard or operator: no statement about the code
		}
		if ws.ExitStatus() == 3 {
			return false, false, false
		}
	}
	return false, true, false
}

func tail(path string, n int) string {
	b, _ := os.ReadFile(path)
	if len(b) > n {
		b = b[:n]
	}
	return strings.TrimSpace(string(b))
}

func fatalLine(path string) string {
	b, _ := os.ReadFile(path)
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "fatal error:") || strings.HasPrefix(l, "runtime:") || strings.HasPrefix(l, "SIGSEGV") || strings.HasPrefix(l, "panic:") {
			return clip(l, 200)
		}
	}
	return clip(strings.ReplaceAll(string(b), "\n", " "), 200)
}

// drive runs one check.  Exit status: 0 held, 1 violated, 3 no answer.
func drive(id, tier string, seed uint64, verif string, secs, groups int) int {
	t0 := time.Now()
	p := props[id]
	if p == nil {
		fatal("unknown property %q", id)
	}
	tmp, err := os.MkdirTemp("", "simdrive-")
	if err != nil {
		fatal("%v", err)
	}
	defer os.RemoveAll(tmp)
	const workers = 8
	type res struct {
		sum      *Sum
		crash    *Found
		noAnswer string
		resumed  int
	}
	rs := make([]res, workers)
	var wg sync.WaitGroup
	var mu sync.Mutex
	found := []*Found{}
	stop := false
	deadline := t0.Add(time.Duration(secs) * time.Second)
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			from := w
			for try := 0; ; try++ {
				left := time.Until(deadline)
				mu.Lock()
				s := stop
				mu.Unlock()
				if left < time.Second || from >= groups || s {
					return
				}
				out, st, lg := filepath.Join(tmp, fmt.Sprintf("w%d.json", w)), filepath.Join(tmp, fmt.Sprintf("w%d.st", w)), filepath.Join(tmp, fmt.Sprintf("w%d.log", w))
				os.Remove(out)
				ok, died, late := child(left+90*time.Second, lg, "work", "-prop", id, "-seed", fmt.Sprint(seed), "-from", fmt.Sprint(from), "-stride", fmt.Sprint(workers), "-to", fmt.Sprint(groups), "-secs", fmt.Sprint(int(left.Seconds())), "-out", out, "-status", st)
				if ok {
					s := &Sum{}
					if err := readJSON(out, s); err != nil {
						rs[w].noAnswer = err.Error()
						return
					}
					rs[w].sum = merge(rs[w].sum, s)
					if s.Found != nil {
						mu.Lock()
						found = append(found, s.Found)
						stop = true
						mu.Unlock()
					}
					return
				}
				var gi, v int
				fmt.Sscanf(tail(st, 40), "%d %d", &gi, &v)
				if late {
					rs[w].noAnswer = fmt.Sprintf("group %d variant %d did not end", gi, v)
					return
				}
				if !died {
					rs[w].noAnswer = "worker ended: " + tail(lg, 300)
					return
				}
				// the process died: does that execution kill a fresh one too?
				_, again, _ := child(120*time.Second, lg+"1", "one", "-prop", id, "-seed", fmt.Sprint(seed), "-from", fmt.Sprint(gi), "-variant", fmt.Sprint(v), "-out", out)
				if again {
					mu.Lock()
					found = append(found, &Found{Prop: id, Class: "crash", Msg: "the program died: " + fatalLine(lg+"1"), Seed: seed, Group: gi, Variant: v})
					stop = true
					mu.Unlock()
					return
				}
				if rs[w].resumed++; rs[w].resumed > 3 {
					rs[w].noAnswer = "crashes that do not repeat: " + fatalLine(lg)
					return
				}
				from = gi + workers
			}
		}()
	}
	wg.Wait()
	tot := &Sum{}
	noAnswer, resumed := "", 0
	for _, r := range rs {
		if r.sum != nil {
			tot = merge(tot, r.sum)
		}
		if r.noAnswer != "" {
			noAnswer = r.noAnswer
		}
		resumed += r.resumed
	}
	wallExplore := time.Since(t0)

	// a violation counts only if a fresh process repeats it
	sort.Slice(found, func(i, j int) bool { return found[i].Group < found[j].Group })
	var final *Found
	for _, f := range found {
		in, out, lg := filepath.Join(tmp, "f.json"), filepath.Join(tmp, "r.json"), filepath.Join(tmp, "r.log")
		if f.Class == "crash" {
			final = f
			break
		}
		// what a fresh process reports for a file; "" if it reports nothing
		rep := func(f *Found) (class, msg string) {
			writeJSON(in, f)
			os.Remove(out)
			var res Found
			ok, died, _ := child(120*time.Second, lg, "replay", "-in", in, "-out", out)
			if died {
				return "crash", "the program died: " + fatalLine(lg)
			}
			if ok && readJSON(out, &res) == nil {
				return res.Class, res.Msg
			}
			return "", ""
		}
		class, msg := rep(f)
		if class != "" && class != f.Class { // what the code does with stray memory may differ
			f.Class, f.Msg = class, msg
		}
		if class == "" {
			fmt.Fprintf(os.Stderr, "not repeated: %s group %d variant %d: %s: %s\n", id, f.Group, f.Variant, f.Class, clip(f.Msg, 200))
			noAnswer = "a failure did not repeat in a fresh process: " + f.Class
			continue
		}
		final = f
		if f.Class == "crash" {
			break
		}
		min := 40 * time.Second
		if tier == "thorough" {
			min = 150 * time.Second
		}
		writeJSON(in, f)
		if ok, _, _ := child(min+60*time.Second, lg, "min", "-in", in, "-secs", fmt.Sprint(int(min.Seconds())), "-out", out); ok {
			var m Found
			if readJSON(out, &m) == nil && m.Case != nil {
				if c, _ := rep(&m); c == m.Class {
					final = &m
				}
			}
		}
		break
	}
	viol := 0
	replay := ""
	if final != nil {
		viol = 1
		dir := filepath.Join(verif, "evidence", "replays")
		os.MkdirAll(dir, 0o755)
		replay = filepath.Join(dir, fmt.Sprintf("%s-%d-%d-%d.json", id, seed, final.Group, final.Variant))
		if err := writeJSON(replay, final); err != nil {
			fatal("%v", err)
		}
	}
	if err := evidence(p, tier, seed, verif, tot, wallExplore, time.Since(t0), viol, resumed, groups); err != nil {
		fatal("%v", err)
	}
	fmt.Printf("%s %s seed %d: %d runs of %d workloads, %d statements, %d distinct schedules, %d stalls, %d hangs, %d collections, %.0f s\n", id, tier, seed, tot.Runs, tot.Groups, tot.Steps, len(tot.Hashes), tot.Stalls, tot.Hangs, tot.GCs, time.Since(t0).Seconds())
	if final != nil {
		fmt.Printf("%s: %s\n", final.Class, clip(final.Msg, 1200))
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, replay)
		return 1
	}
	for k, n := range tot.Foreign {
		fmt.Printf("note: %d runs broke something that this property does not speak about: %s (%s)\n", n, k, clip(tot.ForeignEx[k], 240))
	}
	if noAnswer != "" {
		fmt.Fprintf(os.Stderr, "check error: %s\n", noAnswer)
		return 3
	}
	if tot.Runs == 0 {
		fmt.Fprintf(os.Stderr, "check error: nothing was executed\n")
		return 3
	}
	return 0
}

func union[T comparable](a, b []T) []T {
	m := map[T]bool{}
	for _, x := range a {
		m[x] = true
	}
	for _, x := range b {
		if !m[x] {
			m[x] = true
			a = append(a, x)
		}
	}
	return a
}

func merge(a, b *Sum) *Sum {
	if a == nil {
		return b
	}
	for _, f := range []struct{ d, s *int64 }{
		{&a.Runs, &b.Runs}, {&a.Groups, &b.Groups}, {&a.Steps, &b.Steps}, {&a.ConcSteps, &b.ConcSteps}, {&a.SimNanos, &b.SimNanos}, {&a.Switches, &b.Switches},
		{&a.Preempts, &b.Preempts}, {&a.Ops, &b.Ops}, {&a.Stalls, &b.Stalls}, {&a.Hangs, &b.Hangs}, {&a.GCs, &b.GCs}, {&a.Blocks, &b.Blocks}, {&a.Torn, &b.Torn}, {&a.Panics, &b.Panics}, {&a.Logs, &b.Logs},
		{&a.Concurrent, &b.Concurrent}, {&a.Rechecked, &b.Rechecked}, {&a.Diverged, &b.Diverged}} {
		*f.d += *f.s
	}
	mm := func(d *map[string]int64, s map[string]int64) {
		if *d == nil {
			*d = map[string]int64{}
		}
		for k, v := range s {
			(*d)[k] += v
		}
	}
	mm(&a.Modes, b.Modes)
	mm(&a.Kinds, b.Kinds)
	mm(&a.OpKinds, b.OpKinds)
	mm(&a.Foreign, b.Foreign)
	if a.ForeignEx == nil {
		a.ForeignEx = map[string]string{}
	}
	for k, v := range b.ForeignEx {
		a.ForeignEx[k] = v
	}
	a.Hashes = union(a.Hashes, b.Hashes)
	a.Pairs = union(a.Pairs, b.Pairs)
	a.SitesHit = union(a.SitesHit, b.SitesHit)
	a.Samples = append(a.Samples, b.Samples...)
	a.TimedOut = a.TimedOut || b.TimedOut
	return a
}

func evidence(p *Prop, tier string, seed uint64, verif string, s *Sum, explore, wall time.Duration, viol, resumed, groups int) error {
	own, ownHit := 0, 0
	for _, n := range simreset.Sites {
		if n[0] == '@' {
			own++
		}
	}
	for _, k := range s.SitesHit {
		if simreset.Sites[k][0] == '@' {
			ownHit++
		}
	}
	samples := s.Samples
	if len(samples) > 4 {
		samples = samples[:4]
	}
	if len(samples) == 0 {
		samples = []string{"none: no run of this kind was reached"}
	}
	hrs := explore.Hours()
	cov := map[string]any{
		"evaluations":         s.Runs,
		"distinct_nontrivial": len(s.Hashes),
		"rule":                "A run is one seeded execution of a generated workload (configuration, bucket size, key positions, preloaded keys, tasks, final reads) under one schedule. It counts as non-trivial if at least one operation was preempted between two of its statements by another task; runs are distinct if the hashes over their sequences of (task, statement) at every switch differ.",
		"samples":             samples,
		"workloads":           s.Groups, "workloads_planned": groups, "stopped_by_time": s.TimedOut,
		"runs_per_hour": int64(float64(s.Runs) / hrs), "seeds_per_hour": int64(float64(s.Groups) / hrs),
		"operations": s.Ops, "operations_by_kind": s.OpKinds, "statements": s.Steps, "statements_in_concurrent_phase": s.ConcSteps,
		"simulated_seconds": float64(s.SimNanos) / 1e9,
		"context_switches":  s.Switches, "preemptions_inside_operations": s.Preempts,
		"distinct_preemption_pairs":        len(s.Pairs),
		"faults":                           map[string]int64{"task stalled inside an operation": s.Stalls, "task suspended for good inside an operation": s.Hangs, "garbage collections": s.GCs, "tasks blocked on a primitive": s.Blocks, "stores of several words made in steps": s.Torn, "panics of the application": s.Panics, "lookups made by the log writer": s.Logs},
		"statements_of_repository_reached": fmt.Sprintf("%d of %d", ownHit, own),
		"runs_by_configuration":            s.Modes, "runs_by_schedule_kind": s.Kinds,
		"determinism_rechecks": s.Rechecked, "determinism_divergences": s.Diverged,
		"unrepeated_crashes":           resumed,
		"failures_of_other_properties": s.Foreign,
		"real_code":                    append([]string{}, simreset.Packages...),
		"stubbed":                      []string{"package sync (scheduler-controlled equivalents)", "package sync/atomic (real operation behind a preemption point)", "github.com/lk4d4/trylock", "runtime.memhash (chosen hash per key)", "go statements, channels, select, time, math/rand (simulated)"},
	}
	e := map[string]any{"property": p.ID, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov, "wall_s": wall.Seconds(), "violations": viol,
		"assumptions": []string{
			"preemption happens between statements, before atomic operations, and between computing and storing a value in shared memory; memory is sequentially consistent",
			"the Go runtime, compiler and collector are trusted; the collector runs only where the simulator asks",
		}}
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	return writeJSON(filepath.Join(verif, "evidence", p.ID+".json"), e)
}
