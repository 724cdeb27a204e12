package main

import (
	"fmt"
	"os"
	"runtime/debug"
	"sort"
	"strconv"
	"time"

	"golang.org/x/tools/go/ssa"
)

func newEng(p *Prog, t *Task, limit time.Duration) *Eng {
	tt := NewTT()
	e := &Eng{tt: tt, prog: p, task: t, arenas: map[string]int{}, shapes: map[string]int{}, mapInfo: map[string]bool{},
		globals: map[*ssa.Global]int{}, fns: map[*ssa.Function]*fnInfo{}, used: map[string]bool{}, assumed: map[string]bool{},
		calleeC: map[string]bool{}, lamFns: map[string]string{}, noContract: map[string]bool{}, loopsSeen: map[string]bool{}}
	e.sol = NewSolver(tt)
	e.deadline = time.Now().Add(limit)
	e.debugLoop = os.Getenv("GOVC_LOOP") != ""
	return e
}

// runTask discharges the obligations of one contract.
func runTask(p *Prog, t *Task, limit time.Duration) {
	start := time.Now()
	e := newEng(p, t, limit)
	defer e.sol.Close()
	func() {
		defer func() {
			if r := recover(); r != nil {
				switch x := r.(type) {
				case engineFail:
					t.failMsg = x.msg
				case loopUndecided:
					t.failMsg = "undecided loop"
				default:
					t.failMsg = fmt.Sprint("outside the verifier's reach: ", r)
					if os.Getenv("GOVC_DEBUG") != "" {
						t.failMsg += "\n" + string(debug.Stack())
					}
				}
				if os.Getenv("GOVC_STACK") != "" {
					fmt.Println(string(debug.Stack()))
				}
			}
		}()
		e.runHarness(t)
	}()
	t.dur = time.Since(start)
	t.queries, t.solveTime = e.sol.Queries, e.sol.Time
	t.by = e.sol.By
	t.used, t.assumed, t.calleeC, t.loops = e.used, e.assumed, e.calleeC, e.loopsSeen
	t.panics = e.panicsOK
	if e.sol.Queries > 0 && os.Getenv("GOVC_TIME") != "" {
		fmt.Printf("%s: %d queries, %.1fs solver, max query limit %ds, %.1fs total, %d steps\n", t.h.Name, t.queries, t.solveTime.Seconds(), e.sol.MaxSec, t.dur.Seconds(), e.steps)
	}
}

func (e *Eng) runHarness(t *Task) {
	h := t.h
	for i := 0; i+1 < len(h.Attr["shape"]); i += 2 {
		n, err := strconv.Atoi(h.Attr["shape"][i+1])
		if err != nil {
			fail("bad shape")
		}
		e.shapes[h.Attr["shape"][i]] = n
	}
	for _, c := range h.Attr["contract"] {
		e.noContract[c] = true
	}
	for k, s := range e.prog.specs {
		if s.OptIn {
			e.noContract[k] = true
		}
	}
	for _, c := range h.Attr["using"] {
		e.noContract[c] = false
	}
	for _, c := range h.Attr["inline"] {
		e.noContract[c] = true
	}
	if l := h.Attr["alloc"]; len(l) > 0 {
		n, err := strconv.ParseUint(l[0], 10, 64)
		if err != nil {
			fail("bad alloc limit")
		}
		t.allocLimit = n
	}
	st := e.newState()
	// package initialisation
	e.quiet++
	st = e.initPackages(st, h.Pkg)
	e.quiet--
	var args []Value
	for _, prm := range h.Fn.Params {
		if n, ok := t.split[prm.Name()]; ok {
			w := e.zero(prm.Type()).(*Term)
			args = append(args, e.tt.BV(w.S.W, uint64(n)))
			continue
		}
		n := -1
		if k, ok := e.shapes[prm.Name()]; ok {
			n = k
		}
		args = append(args, e.symV(st, prm.Type(), prm.Name(), nil, n, 0))
	}
	outs := e.callFn(st, h.Fn, args, nil)
	if len(outs) == 0 {
		fail("the precondition is unsatisfiable")
	}
	feas := false
	for _, o := range outs {
		if o.panic != "" {
			e.oblige(o.st, "no panic", o.panic+" at "+posStr(e.prog.fset, o.pos), e.tt.False)
			continue
		}
		feas = true
	}
	_ = feas
	// a contract whose conditions contradict each other proves nothing
	ok := false
	for _, o := range outs {
		r, _, _ := e.sol.coverable(o.st.pc)
		if r != RUnsat {
			ok = true
			break
		}
	}
	if !ok {
		fail("no execution meets the precondition")
	}
}

func (e *Eng) initPackages(st *State, pkg string) *State {
	for _, sp := range e.prog.order {
		if fn := sp.Func("init"); fn != nil {
			outs := e.initFn(st, fn)
			if len(outs) != 1 || outs[0].panic != "" {
				fail("initialisation of %s has %d outcomes", sp.Pkg.Name(), len(outs))
			}
			st = outs[0].st
		}
		if sp.Pkg.Name() == pkg {
			break
		}
	}
	return st
}

func (e *Eng) initFn(st *State, fn *ssa.Function) (outs []Outcome) {
	return e.callFn(st, fn, nil, nil)
}

func sortedSet(m map[string]bool) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
