package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"strconv"
	"time"
)

func readJSON(path string, v any) error {
	b, err := os.ReadFile(path)
	if err != nil {
		return err
	}
	return json.Unmarshal(b, v)
}

func writeJSON(path string, v any) error {
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		return err
	}
	return os.WriteFile(path, append(b, '\n'), 0o644)
}

func fatal(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "check error: "+f+"\n", a...)
	os.Exit(3)
}

func main() {
	if len(os.Args) < 2 {
		fatal("usage: w drive|work|one|replay|min ...")
	}
	cmd := os.Args[1]
	fs := flag.NewFlagSet(cmd, flag.ExitOnError)
	prop := fs.String("prop", "", "")
	seed := fs.Uint64("seed", 1, "")
	from := fs.Int("from", 0, "")
	stride := fs.Int("stride", 1, "")
	to := fs.Int("to", 100, "")
	secs := fs.Int("secs", 60, "")
	out := fs.String("out", "", "")
	in := fs.String("in", "", "")
	statusP := fs.String("status", "", "")
	tier := fs.String("tier", "quick", "")
	verif := fs.String("verif", "/verif", "")
	strict := fs.Bool("strict", false, "exit 1 if the violation is repeated")
	variant := fs.Int("variant", 0, "")
	fs.Parse(os.Args[2:])

	if cmd == "drive" {
		os.Exit(drive(*prop, *tier, *seed, *verif, *secs, *to))
	}
	if cmd == "props" {
		for _, id := range propOrder {
			fmt.Println(id)
		}
		return
	}
	// everything below executes cases
	debug.SetGCPercent(-1)
	debug.SetMaxStack(128 << 20)
	debug.SetMemoryLimit(3 << 30)
	p := props[*prop]
	var found Found
	if *in != "" {
		if err := readJSON(*in, &found); err != nil {
			fatal("%v", err)
		}
		p = props[found.Prop]
	}
	if p == nil {
		fatal("unknown property %q", *prop)
	}
	switch cmd {
	case "work":
		var st *os.File
		if *statusP != "" {
			st, _ = os.Create(*statusP)
		}
		s := work(p, *seed, *from, *stride, *to, time.Now().Add(time.Duration(*secs)*time.Second), st)
		if *out == "" {
			s.Hashes, s.Pairs, s.SitesHit = nil, nil, nil
			j, _ := json.MarshalIndent(s, "", " ")
			os.Stderr.Write(append(j, '\n'))
			return
		}
		if err := writeJSON(*out, s); err != nil {
			fatal("%v", err)
		}
	case "one": // one variant of one group, in a process of its own
		gr := newGroup(p, *seed, *from)
		var c *Case
		var r *Run
		if *variant > 0 {
			gr.run(0)
		}
		c, r = gr.run(*variant)
		res := Found{}
		if f := r.Broken(p); f != nil {
			res = Found{Prop: p.ID, Class: f.Class, Msg: f.Msg, Seed: *seed, Group: *from, Variant: *variant, Case: c, History: r.HistString()}
		}
		if err := writeJSON(*out, res); err != nil {
			fatal("%v", err)
		}
	case "replay":
		var r *Run
		if found.Case == nil || found.Class == "crash" {
			// the process died: run the workload again as it was drawn
			gr := newGroup(p, found.Seed, found.Group)
			if found.Variant > 0 {
				gr.run(0)
			}
			_, r = gr.run(found.Variant)
		} else {
			c := *found.Case
			if len(c.Trace) > 0 || c.Sched.Kind == "" {
				c.Sched = SchedSpec{Kind: "trace"}
			}
			r, _ = Execute(&c, true)
		}
		res := Found{Prop: p.ID, History: r.HistString()}
		if f := r.Broken(p); f != nil {
			res.Class, res.Msg = f.Class, f.Msg
		}
		if *out != "" {
			writeJSON(*out, res)
		} else {
			fmt.Fprintf(os.Stderr, "%s%s: %s\n", res.History, res.Class, res.Msg)
		}
		if *strict && res.Class != "" {
			os.Exit(1)
		}
	case "min":
		c := minimise(p, found.Class, found.Case, time.Duration(*secs)*time.Second)
		r, _ := Execute(c, false)
		f := r.Broken(p)
		if f != nil && f.Class == found.Class {
			found.Case, found.Msg, found.History = c, f.Msg, r.HistString()
		}
		if err := writeJSON(*out, found); err != nil {
			fatal("%v", err)
		}
	default:
		fatal("unknown command %q", cmd)
	}
	_ = strconv.Itoa
}
