package main

import (
	"flag"
	"fmt"
	"os"
	"runtime/pprof"
	"strings"
	"time"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: govc prove|check ...")
		os.Exit(2)
	}
	if f := os.Getenv("GOVC_PROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		defer pprof.StopCPUProfile()
	}
	switch os.Args[1] {
	case "check":
		fs := flag.NewFlagSet("check", flag.ExitOnError)
		prop := fs.String("p", "", "")
		repo := fs.String("repo", "/repo", "")
		thorough := fs.Bool("thorough", false, "")
		seed := fs.Int64("seed", 1, "")
		fs.Parse(os.Args[2:])
		os.Exit(checkProp(*prop, *repo, *thorough, *seed))
	case "replay":
		fs := flag.NewFlagSet("replay", flag.ExitOnError)
		repo := fs.String("repo", "/repo", "")
		prop := fs.String("p", "", "")
		fs.Parse(os.Args[2:])
		os.Exit(replayProp(*prop, *repo))
	case "prove":
		fs := flag.NewFlagSet("prove", flag.ExitOnError)
		pat := fs.String("h", "", "")
		prop := fs.String("p", "", "")
		repo := fs.String("repo", "/repo", "")
		lim := fs.Int("t", 120, "")
		v := fs.Bool("v", false, "")
		fs.Parse(os.Args[2:])
		dir, _ := os.MkdirTemp("", "govc")
		defer os.RemoveAll(dir)
		t0 := time.Now()
		p, err := loadProg(*repo, dir)
		if err != nil {
			fmt.Println(err)
			os.Exit(1)
		}
		fmt.Printf("loaded %.1fs\n", time.Since(t0).Seconds())
		for _, h := range p.harness {
			if *pat != "" && !strings.Contains(h.Name+"$", *pat) {
				continue
			}
			if *prop != "" {
				ok := false
				for _, x := range h.Props {
					ok = ok || x == *prop
				}
				if !ok {
					continue
				}
			}
			for _, t := range tasksOf(h) {
				runTask(p, t, time.Duration(*lim)*time.Second)
				bad := 0
				for _, o := range t.obs {
					if o.Status != "proved" {
						bad++
					}
				}
				fmt.Printf("%-40s %v obligations=%d failed=%d panics=%d %.1fs queries=%d %s\n", h.Name, t.split, len(t.obs), bad, t.panics, t.dur.Seconds(), t.queries, t.failMsg)
				for _, o := range t.obs {
					if o.Status != "proved" || *v {
						fmt.Printf("   %s [%s] %s %s\n", o.Status, o.Name, o.Detail, o.By)
						if o.Status != "proved" {
							fmt.Printf("      cond %.4000s\n      model %.600s\n      trace %v\n", o.Cond, fmt.Sprint(o.Model), o.Trace)
						}
					}
				}
			}
		}
	}
}

func tasksOf(h *Harness) []*Task {
	ts := []*Task{{h: h, split: map[string]int{}}}
	for _, s := range h.Splits {
		var nx []*Task
		for _, t := range ts {
			for i := s.lo; i <= s.hi; i++ {
				m := map[string]int{}
				for k, v := range t.split {
					m[k] = v
				}
				m[s.param] = i
				nx = append(nx, &Task{h: h, split: m})
			}
		}
		ts = nx
	}
	return ts
}
