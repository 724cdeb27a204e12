package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"strings"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Eng executes functions symbolically. One per task.
type Eng struct {
	slc        *slicer
	tt         *TT
	sol        *Solver
	prog       *Prog
	nobj       int
	arenas     map[string]int
	shapes     map[string]int
	mapInfo    map[string]bool
	globals    map[*ssa.Global]int
	trackW     map[int]bool
	noSolve    bool
	fns        map[*ssa.Function]*fnInfo
	depth      int
	steps      int
	maxStep    int
	deadline   time.Time
	task       *Task
	quiet      int             // >0: obligations are not recorded (trial runs)
	used       map[string]bool // functions executed
	assumed    map[string]bool // models used
	calleeC    map[string]bool // contracts used at call sites
	splitV     map[string]uint64
	lamFns     map[string]string
	inSpec     int
	noContract map[string]bool
	loopsSeen  map[string]bool
	panicsOK   int
	mg         *mergeCtx
	curSt      *State
	debugLoop  bool
}

type Frame struct {
	fi     *fnInfo
	regs   []Value
	defers []deferred
	caller *Frame
}

type deferred struct {
	common *ssa.CallCommon
	fn     Value
	args   []Value
	site   ssa.Instruction
}

type fnInfo struct {
	fn   *ssa.Function
	idx  map[ssa.Value]int
	n    int
	ipd  map[*ssa.BasicBlock]*ssa.BasicBlock
	loop map[*ssa.BasicBlock]*Loop // by header
	in   map[*ssa.BasicBlock][]*Loop
}

type Loop struct {
	head *ssa.BasicBlock
	body map[*ssa.BasicBlock]bool
}

type resKind int

const (
	rStop resKind = iota
	rRet
	rPanic
	rExit // left the loop being run
)

type Res struct {
	st   *State
	fr   *Frame
	k    resKind
	blk  *ssa.BasicBlock // rStop, rExit: target
	prev *ssa.BasicBlock
	val  Value
	msg  string
	pos  token.Pos
}

type ctx struct {
	up    *ctx
	stop  *ssa.BasicBlock
	loop  *Loop
	probe bool
}

func (c *ctx) find(from, to *ssa.BasicBlock) (stop bool, exit bool) {
	for x := c; x != nil; x = x.up {
		if x.stop == to {
			return true, false
		}
		if x.loop != nil && !x.loop.body[to] {
			return false, true
		}
	}
	return false, false
}

func (f *Frame) fork() *Frame {
	n := &Frame{fi: f.fi, caller: f.caller}
	n.regs = append([]Value{}, f.regs...)
	n.defers = f.defers[:len(f.defers):len(f.defers)]
	return n
}

func (e *Eng) info(fn *ssa.Function) *fnInfo {
	if fi, ok := e.fns[fn]; ok {
		return fi
	}
	fi := &fnInfo{fn: fn, idx: map[ssa.Value]int{}, ipd: map[*ssa.BasicBlock]*ssa.BasicBlock{}, loop: map[*ssa.BasicBlock]*Loop{}, in: map[*ssa.BasicBlock][]*Loop{}}
	add := func(v ssa.Value) { fi.idx[v] = fi.n; fi.n++ }
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
	}
	// natural loops
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := fi.loop[s]
				if l == nil {
					l = &Loop{head: s, body: map[*ssa.BasicBlock]bool{s: true}}
					fi.loop[s] = l
				}
				var work []*ssa.BasicBlock
				if !l.body[b] {
					l.body[b] = true
					work = append(work, b)
				}
				for len(work) > 0 {
					x := work[len(work)-1]
					work = work[:len(work)-1]
					for _, p := range x.Preds {
						if !l.body[p] {
							l.body[p] = true
							work = append(work, p)
						}
					}
				}
			}
		}
	}
	// post dominators, by iteration over the reverse graph
	n := len(fn.Blocks)
	pd := make([]map[int]bool, n)
	exit := map[int]bool{}
	for i, b := range fn.Blocks {
		if len(b.Succs) == 0 {
			exit[i] = true
		}
		pd[i] = nil // top
	}
	changed := true
	for changed {
		changed = false
		for i := n - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			var s map[int]bool
			if exit[i] {
				s = map[int]bool{}
			} else {
				first := true
				for _, x := range b.Succs {
					// panicking exits do not count
					if isPanicBlock(x) {
						continue
					}
					if pd[x.Index] == nil {
						continue
					}
					if first {
						s = map[int]bool{}
						for k := range pd[x.Index] {
							s[k] = true
						}
						first = false
					} else {
						for k := range s {
							if !pd[x.Index][k] {
								delete(s, k)
							}
						}
					}
				}
				if first {
					continue
				}
			}
			s[i] = true
			if pd[i] == nil || len(pd[i]) != len(s) {
				pd[i] = s
				changed = true
			}
		}
	}
	for i, b := range fn.Blocks {
		if pd[i] == nil {
			continue
		}
		var best *ssa.BasicBlock
		for k := range pd[i] {
			if k == i {
				continue
			}
			c := fn.Blocks[k]
			// the immediate one has the largest post dominator set
			if best == nil || len(pd[k]) > len(pd[best.Index]) {
				best = c
			}
		}
		fi.ipd[b] = best
	}
	e.fns[fn] = fi
	return fi
}

func isPanicBlock(b *ssa.BasicBlock) bool {
	if len(b.Instrs) == 0 {
		return false
	}
	_, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Panic)
	return ok
}

// ---------------------------------------------------------------------------

func (e *Eng) val(st *State, fr *Frame, v ssa.Value) Value {
	switch x := v.(type) {
	case *ssa.Const:
		return e.constV(x)
	case *ssa.Global:
		return Ptr{Obj: e.global(st, x)}
	case *ssa.Function:
		return FuncV{Fn: x}
	case *ssa.Builtin:
		return FuncV{Bi: "builtin." + x.Name()}
	}
	i, ok := fr.fi.idx[v]
	if !ok {
		fail("unknown value %s", v.Name())
	}
	return fr.regs[i]
}

func (e *Eng) constV(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return e.zero(t)
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return e.tt.Bool(constant.BoolVal(c.Value))
	case constant.String:
		return e.strRope(constant.StringVal(c.Value))
	case constant.Int, constant.Float:
		b, ok := t.Underlying().(*types.Basic)
		if !ok {
			fail("constant of type %s", t)
		}
		w := basicWidth(b)
		if w == 0 {
			return e.tt.App("float"+c.Value.ExactString(), SU)
		}
		v := constant.ToInt(c.Value)
		z, ok := new(big.Int).SetString(v.ExactString(), 10)
		if !ok {
			fail("constant %s", v)
		}
		m := new(big.Int).Lsh(big.NewInt(1), uint(w))
		z.Mod(z, m)
		return e.tt.BVBig(w, z)
	}
	fail("constant %s", c)
	return nil
}

func (e *Eng) global(st *State, g *ssa.Global) int {
	id, ok := e.globals[g]
	if !ok {
		e.nobj++
		id = e.nobj
		e.globals[g] = id
	}
	if _, ok := st.heap[id]; !ok {
		t := g.Type().(*types.Pointer).Elem()
		if e.prog.inRepo(g.Pkg) {
			st.heap[id] = e.zero(t)
		} else if types.IsInterface(t) {
			// an error variable of a dependency: a value of its own
			o := e.errObj(g.String())
			st.heap[o] = &ErrV{g.String()}
			st.heap[id] = IfaceV{e.prog.errType, Ptr{Obj: o}}
		} else {
			st.heap[id] = e.zero(t)
		}
	}
	return id
}

func (e *Eng) errObj(name string) int {
	k := "err:" + name
	id, ok := e.arenas[k]
	if !ok {
		e.nobj++
		id = e.nobj
		e.arenas[k] = id
	}
	return id
}

// newErr is a fresh non-nil error.
func (e *Eng) newErr(st *State, msg string) IfaceV {
	o := e.alloc(st, &ErrV{msg})
	return IfaceV{e.prog.errType, Ptr{Obj: o}}
}

// namedErr is the error held by a variable of a dependency.
func (e *Eng) namedErr(st *State, name string) IfaceV {
	o := e.errObj(name)
	if _, ok := st.heap[o]; !ok {
		st.heap[o] = &ErrV{name}
	}
	return IfaceV{e.prog.errType, Ptr{Obj: o}}
}

// ---------------------------------------------------------------------------

// Outcome of a call.
type Outcome struct {
	st    *State
	val   Value
	panic string // non-empty: the call panics
	pos   token.Pos
}

func (e *Eng) callFn(st *State, fn *ssa.Function, args []Value, bind []Value) []Outcome {
	if len(fn.Blocks) == 0 {
		return e.model(st, fn, args, nil)
	}
	if e.depth > 60 {
		fail("call depth at %s", fn)
	}
	e.depth++
	defer func() { e.depth-- }()
	if e.quiet == 0 && e.prog.inRepo(fn.Pkg) {
		e.used[fn.String()] = true
	}
	fi := e.info(fn)
	fr := &Frame{fi: fi, regs: make([]Value, fi.n)}
	for i, p := range fn.Params {
		fr.regs[fi.idx[p]] = args[i]
	}
	for i, p := range fn.FreeVars {
		fr.regs[fi.idx[p]] = bind[i]
	}
	rs := e.run(st, fr, fn.Blocks[0], nil, nil)
	var out []Outcome
	for _, r := range rs {
		switch r.k {
		case rRet:
			out = append(out, Outcome{st: r.st, val: r.val})
		case rPanic:
			// deferred calls run on the way out
			sts := []*State{r.st}
			for i := len(r.fr.defers) - 1; i >= 0; i-- {
				d := r.fr.defers[i]
				var nx []*State
				for _, s := range sts {
					for _, o := range e.callValue(s, r.fr, d.common, d.fn, d.args, d.site) {
						nx = append(nx, o.st)
					}
				}
				sts = nx
			}
			for _, s := range sts {
				out = append(out, Outcome{st: s, panic: r.msg, pos: r.pos})
			}
		default:
			fail("stray result from %s", fn)
		}
	}
	return out
}

// run executes from the start of a block until the function is left or a stop
// of the context is reached.
func (e *Eng) run(st *State, fr *Frame, blk, prev *ssa.BasicBlock, c *ctx) []Res {
	var out []Res
	for {
		e.tick()
		if l := fr.fi.loop[blk]; l != nil && (prev == nil || !l.body[prev]) {
			for _, r := range e.runLoop(st, fr, l, prev, c) {
				if r.k == rExit {
					stop, exit := c.find(r.prev, r.blk)
					if stop {
						r.k = rStop
						e.phis(r.st, r.fr, r.blk, r.prev)
						out = append(out, r)
					} else if exit {
						out = append(out, r)
					} else {
						out = append(out, e.run(r.st, r.fr, r.blk, r.prev, c)...)
					}
					continue
				}
				out = append(out, r)
			}
			return out
		}
		if prev != nil {
			e.phis(st, fr, blk, prev)
		}
		rs, next := e.block(st, fr, blk, c)
		if next == nil {
			return append(out, rs...)
		}
		stop, exit := c.find(blk, next)
		if stop {
			e.phis(st, fr, next, blk)
			return append(out, Res{st: st, fr: fr, k: rStop, blk: next, prev: blk})
		}
		if exit {
			return append(out, Res{st: st, fr: fr, k: rExit, blk: next, prev: blk})
		}
		blk, prev = next, blk
	}
}

// runAfterPhis is run for a block whose phis are already evaluated.
func (e *Eng) runAfterPhis(st *State, fr *Frame, blk *ssa.BasicBlock, c *ctx) []Res {
	rs, next := e.block(st, fr, blk, c)
	if next == nil {
		return rs
	}
	return e.goTo(st, fr, blk, next, c)
}

func (e *Eng) goTo(st *State, fr *Frame, blk, next *ssa.BasicBlock, c *ctx) []Res {
	stop, exit := c.find(blk, next)
	if stop {
		e.phis(st, fr, next, blk)
		return []Res{{st: st, fr: fr, k: rStop, blk: next, prev: blk}}
	}
	if exit {
		return []Res{{st: st, fr: fr, k: rExit, blk: next, prev: blk}}
	}
	return e.run(st, fr, next, blk, c)
}

func (e *Eng) tick() {
	e.steps++
	if e.steps&255 == 0 && !e.deadline.IsZero() && time.Now().After(e.deadline) {
		fail("time limit")
	}
	if atomic.LoadInt32(&stopProofs) != 0 {
		fail("stopped")
	}
}

func (e *Eng) phis(st *State, fr *Frame, blk, prev *ssa.BasicBlock) {
	pi := -1
	for i, p := range blk.Preds {
		if p == prev {
			pi = i
		}
	}
	if pi < 0 {
		return
	}
	type upd struct {
		i int
		v Value
	}
	var us []upd
	for _, in := range blk.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		us = append(us, upd{fr.fi.idx[ph], e.val(st, fr, ph.Edges[pi])})
	}
	for _, u := range us {
		fr.regs[u.i] = u.v
	}
}

// block executes the instructions of a block after its phis. It returns either
// the next block (single successor state) or final results.
func (e *Eng) block(st *State, fr *Frame, blk *ssa.BasicBlock, c *ctx) ([]Res, *ssa.BasicBlock) {
	return e.instrs(st, fr, blk, 0, c)
}

func (e *Eng) instrs(st *State, fr *Frame, blk *ssa.BasicBlock, from int, c *ctx) ([]Res, *ssa.BasicBlock) {
	for i := from; i < len(blk.Instrs); i++ {
		in := blk.Instrs[i]
		switch x := in.(type) {
		case *ssa.Phi:
			continue
		case *ssa.Jump:
			return nil, blk.Succs[0]
		case *ssa.If:
			cond := e.val(st, fr, x.Cond).(*Term)
			if v, k := st.quick(cond); k {
				if v {
					return nil, blk.Succs[0]
				}
				return nil, blk.Succs[1]
			}
			return e.branch(st, fr, blk, cond, c)
		case *ssa.Return:
			var v Value
			if len(x.Results) == 1 {
				v = e.val(st, fr, x.Results[0])
			} else {
				tv := TupleV{}
				for _, r := range x.Results {
					tv = append(tv, e.val(st, fr, r))
				}
				v = tv
			}
			return []Res{{st: st, fr: fr, k: rRet, val: v}}, nil
		case *ssa.Panic:
			return []Res{{st: st, fr: fr, k: rPanic, msg: "explicit panic", pos: x.Pos()}}, nil
		case *ssa.RunDefers:
			ds := fr.defers
			fr.defers = nil
			states := []*State{st}
			var out []Res
			for j := len(ds) - 1; j >= 0; j-- {
				var nx []*State
				for _, s := range states {
					for _, o := range e.callValue(s, fr, ds[j].common, ds[j].fn, ds[j].args, ds[j].site) {
						if o.panic != "" {
							out = append(out, Res{st: o.st, fr: fr, k: rPanic, msg: o.panic, pos: o.pos})
							continue
						}
						nx = append(nx, o.st)
					}
				}
				states = nx
			}
			if len(states) == 1 && len(out) == 0 {
				st = states[0]
				continue
			}
			for _, s := range states {
				f2 := fr.fork()
				rs, next := e.instrs(s, f2, blk, i+1, c)
				out = append(out, rs...)
				if next != nil {
					out = append(out, e.goTo(s, f2, blk, next, c)...)
				}
			}
			return out, nil
		case *ssa.Call:
			fv, args := e.callArgs(st, fr, &x.Call)
			outs := e.callValue(st, fr, &x.Call, fv, args, x)
			if len(outs) == 1 && outs[0].panic == "" && outs[0].st == st {
				fr.regs[fr.fi.idx[x]] = outs[0].val
				continue
			}
			var rs []Res
			live := 0
			for _, o := range outs {
				if o.panic != "" {
					rs = append(rs, Res{st: o.st, fr: fr, k: rPanic, msg: o.panic, pos: o.pos})
				} else {
					live++
				}
			}
			for _, o := range outs {
				if o.panic != "" {
					continue
				}
				f2 := fr
				if live > 1 {
					f2 = fr.fork()
				}
				f2.regs[fr.fi.idx[x]] = o.val
				r2, next := e.instrs(o.st, f2, blk, i+1, c)
				rs = append(rs, r2...)
				if next != nil {
					rs = append(rs, e.goTo(o.st, f2, blk, next, c)...)
				}
			}
			return rs, nil
		case *ssa.Go:
			fv, args := e.callArgs(st, fr, &x.Call)
			e.goStart(st, fr, &x.Call, fv, args, x)
			continue
		case *ssa.Defer:
			fv, args := e.callArgs(st, fr, &x.Call)
			fr.defers = append(fr.defers[:len(fr.defers):len(fr.defers)], deferred{&x.Call, fv, args, x})
			continue
		case *ssa.Select:
			rs := e.doSelect(st, fr, x)
			if len(rs) == 1 && rs[0].st == st {
				fr.regs[fr.fi.idx[x]] = rs[0].val
				continue
			}
			var out []Res
			for _, o := range rs {
				f2 := fr.fork()
				f2.regs[fr.fi.idx[x]] = o.val
				r2, next := e.instrs(o.st, f2, blk, i+1, c)
				out = append(out, r2...)
				if next != nil {
					out = append(out, e.goTo(o.st, f2, blk, next, c)...)
				}
			}
			return out, nil
		}
		// instructions that may panic or fork
		outs := e.simple(st, fr, in)
		if outs == nil {
			continue
		}
		var rs []Res
		for _, o := range outs {
			if o.panic != "" {
				rs = append(rs, Res{st: o.st, fr: fr, k: rPanic, msg: o.panic, pos: in.Pos()})
				continue
			}
			f2 := fr.fork()
			if v, ok := in.(ssa.Value); ok {
				f2.regs[fr.fi.idx[v]] = o.val
			}
			r2, next := e.instrs(o.st, f2, blk, i+1, c)
			rs = append(rs, r2...)
			if next != nil {
				rs = append(rs, e.goTo(o.st, f2, blk, next, c)...)
			}
		}
		return rs, nil
	}
	fail("block without terminator")
	return nil, nil
}

// branch explores both sides of a symbolic condition up to their meeting point
// and merges what can be merged.
func (e *Eng) branch(st *State, fr *Frame, blk *ssa.BasicBlock, cond *Term, c *ctx) ([]Res, *ssa.BasicBlock) {
	tt := e.tt
	// both sides of a bit test that only guards an assignment are explored
	// without asking whether they are possible
	cheap := false
	if _, k := st.quick(cond); !k && bitTest(cond) && diamond(blk) {
		cheap = true
	}
	tOK := cheap || st.feasible(cond)
	fOK := true
	if tOK && !cheap {
		fOK = st.feasible(tt.Not(cond))
	}
	if !tOK {
		st.assume(tt.Not(cond))
		return nil, blk.Succs[1]
	}
	if !fOK {
		st.assume(cond)
		return nil, blk.Succs[0]
	}
	ip := fr.fi.ipd[blk]
	for x := c; x != nil; x = x.up {
		if x.loop == nil {
			continue
		}
		if x.probe && x.loop.head == blk && (!x.loop.body[blk.Succs[0]] || !x.loop.body[blk.Succs[1]]) {
			panic(loopUndecided{x.loop})
		}
		break
	}
	// the meeting point must lie before any stop of the context
	if ip != nil && c != nil {
		if _, exit := c.find(blk, ip); exit {
			ip = nil
		}
	}
	npc := len(st.pc)
	s1, f1 := st, fr
	s2, f2 := st.fork(), fr.fork()
	s1.assume(cond)
	s2.assume(tt.Not(cond))
	c2 := c
	if ip != nil {
		if fr.fi.loop[ip] != nil && !fr.fi.loop[ip].body[blk] {
			// meeting at the entry of a later loop: continue separately
			ip = nil
		} else {
			c2 = &ctx{up: c, stop: ip}
		}
	}
	r1 := e.goTo(s1, f1, blk, blk.Succs[0], c2)
	r2 := e.goTo(s2, f2, blk, blk.Succs[1], c2)
	if ip == nil {
		return append(r1, r2...), nil
	}
	var out, atIP []Res
	for _, r := range append(r1, r2...) {
		if r.k == rStop && r.blk == ip {
			atIP = append(atIP, r)
		} else {
			out = append(out, r)
		}
	}
	atIP = e.mergeAll(atIP, ip, npc)
	stop, _ := c.find(blk, ip)
	for _, r := range atIP {
		if stop {
			out = append(out, r)
			continue
		}
		out = append(out, e.runAfterPhis(r.st, r.fr, ip, c)...)
	}
	return out, nil
}

func bitTest(t *Term) bool {
	if t.Op == ONot {
		t = t.Args[0]
	}
	return t.Op == OEq && t.Args[0].S.W == 1
}

// diamond: an if whose branch is a single block without calls that falls
// through to the other side.
func diamond(blk *ssa.BasicBlock) bool {
	plain := func(b, to *ssa.BasicBlock) bool {
		if len(b.Preds) != 1 || len(b.Succs) != 1 || b.Succs[0] != to || len(b.Instrs) > 16 {
			return false
		}
		for _, in := range b.Instrs {
			switch in.(type) {
			case *ssa.BinOp, *ssa.UnOp, *ssa.IndexAddr, *ssa.FieldAddr, *ssa.Store, *ssa.Convert, *ssa.Jump, *ssa.DebugRef:
			default:
				return false
			}
		}
		return true
	}
	return plain(blk.Succs[0], blk.Succs[1]) || plain(blk.Succs[1], blk.Succs[0])
}

func (e *Eng) mergeAll(rs []Res, blk *ssa.BasicBlock, npc int) []Res {
	for len(rs) > 1 {
		merged := false
		for i := 0; i < len(rs) && !merged; i++ {
			for j := i + 1; j < len(rs) && !merged; j++ {
				if m, ok := e.merge2(rs[i], rs[j], blk, npc); ok {
					rs[i] = m
					rs = append(rs[:j:j], rs[j+1:]...)
					merged = true
				}
			}
		}
		if !merged {
			return rs
		}
	}
	return rs
}

func (e *Eng) merge2(a, b Res, blk *ssa.BasicBlock, npc int) (Res, bool) {
	tt := e.tt
	for npc < len(a.st.pc) && npc < len(b.st.pc) && a.st.pc[npc] == b.st.pc[npc] {
		npc++
	}
	if npc >= len(a.st.pc) || npc >= len(b.st.pc) {
		if npc >= len(a.st.pc) && npc >= len(b.st.pc) && len(a.st.pc) == len(b.st.pc) {
			return Res{}, false
		}
		return Res{}, false
	}
	sa, sb := a.st.pc[npc:], b.st.pc[npc:]
	c := sa[0]
	if sb[0] != tt.Not(c) {
		c = tt.And(sa...)
		if v, k := b.st.quick(c); !(k && !v) && !tt.And(append([]*Term{c}, sb...)...).IsFalse() {
			return Res{}, false
		}
	}
	if len(a.fr.defers) != len(b.fr.defers) || len(a.st.gov) != len(b.st.gov) {
		return Res{}, false
	}
	// phis
	mg := &mergeCtx{a: a.st, b: b.st, pa: map[int]int{}, pb: map[int]int{}, out: map[int]Value{}}
	oldmg := e.mg
	e.mg = mg
	defer func() { e.mg = oldmg }()
	fr := a.fr.fork()
	for _, in := range blk.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		i := fr.fi.idx[ph]
		if a.fr.regs[i] == nil || b.fr.regs[i] == nil {
			if a.fr.regs[i] == nil && b.fr.regs[i] == nil {
				continue
			}
			return Res{}, false
		}
		v, ok := e.merge(c, a.fr.regs[i], b.fr.regs[i])
		if !ok {
			return Res{}, false
		}
		fr.regs[i] = v
	}
	st := e.newState()
	st.genk = a.st.genk
	st.seq = a.st.seq
	if x, y := a.st.now, b.st.now; x != nil && y != nil && x[0] == y[0] && x[1] == y[1] {
		st.now = x
	}
	if b.st.seq > st.seq {
		st.seq = b.st.seq
	}
	st.trace = a.st.trace
	st.gov = a.st.gov
	for id, v := range a.st.heap {
		w, ok := b.st.heap[id]
		if !ok || v == nil {
			st.heap[id] = v
			continue
		}
		if identical(v, w) {
			st.heap[id] = v
			continue
		}
		m, ok := e.merge(c, v, w)
		if !ok {
			return Res{}, false
		}
		st.heap[id] = m
	}
	for id, w := range b.st.heap {
		if _, ok := st.heap[id]; !ok {
			st.heap[id] = w
		}
	}
	for id, v := range mg.out {
		st.heap[id] = v
	}
	for _, p := range a.st.pc[:npc] {
		st.assume(p)
	}
	nc := tt.Not(c)
	for _, p := range sa {
		if p != c {
			st.assume(tt.Or(nc, p))
		}
	}
	for _, p := range sb {
		if p != nc {
			st.assume(tt.Or(c, p))
		}
	}
	if sb[0] != nc {
		// keep the disjunction of the suffixes
		st.assume(tt.Or(c, tt.And(sb...)))
	}
	return Res{st: st, fr: fr, k: rStop, blk: a.blk, prev: a.prev}, true
}

// identical: cheap identity of representation.
func identical(a, b Value) bool {
	switch x := a.(type) {
	case *Term, *StructV, *ArrV, *SymArr, *Rope, *MapC, *ChanC, *StreamC, *IterV, *RdrV, *ErrV, MapRef, ChanRef:
		return a == b
	case Ptr:
		y, ok := b.(Ptr)
		return ok && samePtr(x, y)
	}
	return false
}

// ---------------------------------------------------------------------------

// need records the condition under which an instruction does not panic. It
// returns nil when the condition always holds, else the outcomes.
func (e *Eng) need(st *State, c *Term, msg string) (panics *State) {
	if v, k := st.quick(c); k && v {
		if e.quiet == 0 && !c.IsTrue() {
			e.panicsOK++
		}
		return nil
	}
	nc := e.tt.Not(c)
	if !st.feasible(nc) {
		if e.quiet == 0 {
			e.panicsOK++
		}
		st.assume(c)
		return nil
	}
	p := st.fork()
	p.assume(nc)
	st.assume(c)
	return p
}

func (e *Eng) set(fr *Frame, in ssa.Instruction, v Value) {
	fr.regs[fr.fi.idx[in.(ssa.Value)]] = v
}

// simple executes one straight-line instruction. nil: done. Otherwise the
// outcomes, among them panics.
func (e *Eng) simple(st *State, fr *Frame, in ssa.Instruction) []Outcome {
	tt := e.tt
	withPanic := func(p *State, msg string, v Value) []Outcome {
		if p == nil {
			if v != nil {
				e.set(fr, in, v)
			}
			return nil
		}
		return []Outcome{{st: p, panic: msg}, {st: st, val: v}}
	}
	switch x := in.(type) {
	case *ssa.DebugRef:
		return nil
	case *ssa.Alloc:
		t := x.Type().(*types.Pointer).Elem()
		e.set(fr, in, Ptr{Obj: e.alloc(st, e.zero(t))})
		return nil
	case *ssa.BinOp:
		v, p, msg := e.binop(st, x, e.val(st, fr, x.X), e.val(st, fr, x.Y))
		return withPanic(p, msg, v)
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			p, ok := e.val(st, fr, x.X).(Ptr)
			if !ok {
				fail("load through %T", e.val(st, fr, x.X))
			}
			if p.Obj == 0 {
				return []Outcome{{st: st, panic: "nil pointer dereference"}}
			}
			e.set(fr, in, e.load(st, p))
			return nil
		case token.NOT:
			e.set(fr, in, tt.Not(e.val(st, fr, x.X).(*Term)))
			return nil
		case token.SUB:
			if t, ok := e.val(st, fr, x.X).(*Term); ok && t.S.K == KBV {
				e.set(fr, in, tt.Neg(t))
				return nil
			}
		case token.XOR:
			e.set(fr, in, tt.BVNot(e.val(st, fr, x.X).(*Term)))
			return nil
		case token.ARROW:
			e.set(fr, in, e.recv(st, e.val(st, fr, x.X), x))
			return nil
		}
		fail("unary %s", x.Op)
	case *ssa.ChangeType, *ssa.ChangeInterface:
		var o ssa.Value
		if ct, ok := x.(*ssa.ChangeType); ok {
			o = ct.X
		} else {
			o = x.(*ssa.ChangeInterface).X
		}
		v := e.val(st, fr, o)
		if s, ok := v.(*StructV); ok {
			v = &StructV{x.(ssa.Value).Type(), s.F}
		}
		e.set(fr, in, v)
		return nil
	case *ssa.Convert:
		e.set(fr, in, e.convert(st, e.val(st, fr, x.X), x.X.Type(), x.Type()))
		return nil
	case *ssa.Extract:
		tv, ok := e.val(st, fr, x.Tuple).(TupleV)
		if !ok {
			fail("extract from %T", e.val(st, fr, x.Tuple))
		}
		e.set(fr, in, tv[x.Index])
		return nil
	case *ssa.Field:
		s, ok := e.val(st, fr, x.X).(*StructV)
		if !ok {
			fail("field of %T", e.val(st, fr, x.X))
		}
		e.set(fr, in, s.F[x.Field])
		return nil
	case *ssa.FieldAddr:
		p := e.val(st, fr, x.X).(Ptr)
		if p.Obj == 0 {
			return []Outcome{{st: st, panic: "nil pointer dereference"}}
		}
		e.set(fr, in, p.at(PE{F: x.Field}))
		return nil
	case *ssa.Index:
		i := e.index64(e.val(st, fr, x.Index), x.Index.Type())
		switch b := e.val(st, fr, x.X).(type) {
		case *Rope:
			n := e.ropeLen(b)
			p := e.need(st, tt.Ult(i, n), "index")
			return withPanic(p, "index out of range", e.byteAt(st, b, i))
		case *ArrV:
			p := e.need(st, tt.Ult(i, tt.I(int64(len(b.E)))), "index")
			return withPanic(p, "index out of range", e.arrGet(st, b, i))
		}
		fail("index of %T", e.val(st, fr, x.X))
	case *ssa.IndexAddr:
		i := e.index64(e.val(st, fr, x.Index), x.Index.Type())
		switch b := e.val(st, fr, x.X).(type) {
		case SliceV:
			p := e.need(st, tt.Ult(i, b.Len), "index")
			if b.Base.Obj == 0 {
				return []Outcome{{st: st, panic: "index out of range"}}
			}
			return withPanic(p, "index out of range", b.Base.at(PE{Idx: tt.Add(b.Off, i)}))
		case Ptr:
			n := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
			p := e.need(st, tt.Ult(i, tt.I(n)), "index")
			return withPanic(p, "index out of range", b.at(PE{Idx: i}))
		}
		fail("index address of %T", e.val(st, fr, x.X))
	case *ssa.Lookup:
		if r, ok := e.val(st, fr, x.X).(*Rope); ok {
			i := e.index64(e.val(st, fr, x.Index), x.Index.Type())
			p := e.need(st, tt.Ult(i, e.ropeLen(r)), "index")
			return withPanic(p, "index out of range", e.byteAt(st, r, i))
		}
		return e.mapLookup(st, fr, x)
	case *ssa.MakeInterface:
		e.set(fr, in, IfaceV{x.X.Type(), e.val(st, fr, x.X)})
		return nil
	case *ssa.MakeClosure:
		f := FuncV{Fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			f.Bind = append(f.Bind, e.val(st, fr, b))
		}
		e.set(fr, in, f)
		return nil
	case *ssa.MakeMap:
		m := x.Type().Underlying().(*types.Map)
		e.set(fr, in, MapRef{e.alloc(st, &MapC{N: tt.I(0), Size: tt.I(0), KT: m.Key(), VT: m.Elem()})})
		return nil
	case *ssa.MakeChan:
		e.set(fr, in, ChanRef{e.alloc(st, &ChanC{Closed: tt.False})})
		return nil
	case *ssa.MakeSlice:
		return e.makeSlice(st, fr, x)
	case *ssa.MapUpdate:
		mr := e.val(st, fr, x.Map).(MapRef)
		if mr.Obj == 0 {
			return []Outcome{{st: st, panic: "assignment to entry in nil map"}}
		}
		e.mapSet(st, mr.Obj, e.val(st, fr, x.Key), e.val(st, fr, x.Value), true)
		return nil
	case *ssa.Range:
		switch m := e.val(st, fr, x.X).(type) {
		case MapRef:
			if m.Obj == 0 {
				e.set(fr, in, Ptr{Obj: e.alloc(st, &IterV{Map: &MapC{N: tt.I(0), Size: tt.I(0)}, Pos: tt.I(0)})})
				return nil
			}
			mc := st.heap[m.Obj].(*MapC)
			e.set(fr, in, Ptr{Obj: e.alloc(st, &IterV{Map: mc, Pos: tt.I(0)})})
			return nil
		}
		fail("range over a string")
	case *ssa.Next:
		e.set(fr, in, e.mapNext(st, e.val(st, fr, x.Iter).(Ptr), x))
		return nil
	case *ssa.Slice:
		return e.slice(st, fr, x)
	case *ssa.Store:
		p, ok := e.val(st, fr, x.Addr).(Ptr)
		if !ok {
			fail("store through %T", e.val(st, fr, x.Addr))
		}
		if p.Obj == 0 {
			return []Outcome{{st: st, panic: "nil pointer dereference"}}
		}
		e.store(st, p, e.val(st, fr, x.Val))
		return nil
	case *ssa.Send:
		e.send(st, e.val(st, fr, x.Chan), e.val(st, fr, x.X))
		return nil
	case *ssa.TypeAssert:
		return e.typeAssert(st, fr, x)
	case *ssa.SliceToArrayPointer:
		s := e.val(st, fr, x.X).(SliceV)
		if isZero(s.Off) {
			e.set(fr, in, s.Base)
			return nil
		}
	}
	fail("unsupported instruction %T %s", in, in)
	return nil
}

func (e *Eng) index64(v Value, t types.Type) *Term {
	x := v.(*Term)
	if x.S.W == 64 {
		return x
	}
	if isSigned(t) {
		return e.tt.Sext(64, x)
	}
	return e.tt.Zext(64, x)
}

func (e *Eng) typeAssert(st *State, fr *Frame, x *ssa.TypeAssert) []Outcome {
	tt := e.tt
	iv, ok := e.val(st, fr, x.X).(IfaceV)
	if !ok {
		fail("type assertion on %T", e.val(st, fr, x.X))
	}
	good := false
	var res Value
	if types.IsInterface(x.AssertedType) {
		if iv.T != nil {
			good = types.Implements(iv.T, x.AssertedType.Underlying().(*types.Interface))
		}
		res = iv
	} else {
		good = iv.T != nil && types.Identical(iv.T, x.AssertedType)
		res = iv.V
	}
	if x.CommaOk {
		if good {
			e.set(fr, x, TupleV{res, tt.True})
		} else {
			e.set(fr, x, TupleV{e.zero(x.AssertedType), tt.False})
		}
		return nil
	}
	if !good {
		return []Outcome{{st: st, panic: "failed type assertion"}}
	}
	e.set(fr, x, res)
	return nil
}

func (e *Eng) makeSlice(st *State, fr *Frame, x *ssa.MakeSlice) []Outcome {
	tt := e.tt
	n := e.index64(e.val(st, fr, x.Len), x.Len.Type())
	cp := e.index64(e.val(st, fr, x.Cap), x.Cap.Type())
	el := x.Type().Underlying().(*types.Slice).Elem()
	e.allocCheck(st, n, x)
	p := e.need(st, tt.Sle(tt.I(0), n), "make")
	var c Value
	if isByte(el) {
		if k, ok := st.constOf(n); ok {
			n = tt.I(int64(k))
		}
		c = e.zeroBytes(n)
		if !isZero(tt.Sub(cp, n)) {
			if pc, ok := cp.CU(); ok {
				c = e.zeroBytes(tt.I(int64(pc)))
			}
		}
	} else if k, ok := n.CU(); ok && k <= 512 {
		if kc, ok := cp.CU(); ok && kc > k && kc <= 512 {
			k = kc
		}
		a := &ArrV{}
		for i := uint64(0); i < k; i++ {
			a.E = append(a.E, e.zero(el))
		}
		c = a
	} else {
		c = &SymArr{Len: n, Base: &Lam{tt.Var("lk!0.64", S64), e.zero(el)}}
	}
	o := e.alloc(st, c)
	v := SliceV{Ptr{Obj: o}, tt.I(0), n, cp}
	if p != nil {
		return []Outcome{{st: p, panic: "makeslice: len out of range"}, {st: st, val: v}}
	}
	e.set(fr, x, v)
	return nil
}

func (e *Eng) slice(st *State, fr *Frame, x *ssa.Slice) []Outcome {
	tt := e.tt
	b := e.val(st, fr, x.X)
	var lo, hi *Term
	if x.Low != nil {
		lo = e.index64(e.val(st, fr, x.Low), x.Low.Type())
	} else {
		lo = tt.I(0)
	}
	if x.High != nil {
		hi = e.index64(e.val(st, fr, x.High), x.High.Type())
	}
	var v Value
	var bound *Term
	switch s := b.(type) {
	case *Rope: // string
		n := e.ropeLen(s)
		if hi == nil {
			hi = n
		}
		bound = tt.And(tt.Ule(lo, hi), tt.Ule(hi, n))
		p := e.need(st, bound, "slice")
		_, r, ok := e.split(st, s, lo)
		if !ok {
			fail("string slice")
		}
		a, _, ok := e.split(st, r, tt.Sub(hi, lo))
		if !ok {
			fail("string slice")
		}
		v = a
		if p != nil {
			return []Outcome{{st: p, panic: "slice bounds out of range"}, {st: st, val: v}}
		}
		e.set(fr, x, v)
		return nil
	case SliceV:
		if hi == nil {
			hi = s.Len
		}
		mx := s.Cap
		if x.Max != nil {
			fail("three-index slice")
		}
		bound = tt.And(tt.Ule(lo, hi), tt.Ule(hi, mx))
		v = SliceV{s.Base, tt.Add(s.Off, lo), tt.Sub(hi, lo), tt.Sub(mx, lo)}
	case Ptr: // array
		n := tt.I(x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		if s.Obj == 0 {
			return []Outcome{{st: st, panic: "nil pointer dereference"}}
		}
		if hi == nil {
			hi = n
		}
		bound = tt.And(tt.Ule(lo, hi), tt.Ule(hi, n))
		v = SliceV{s, lo, tt.Sub(hi, lo), tt.Sub(n, lo)}
	default:
		fail("slice of %T", b)
	}
	p := e.need(st, bound, "slice")
	if p != nil {
		return []Outcome{{st: p, panic: "slice bounds out of range"}, {st: st, val: v}}
	}
	e.set(fr, x, v)
	return nil
}

func (e *Eng) convert(st *State, v Value, from, to types.Type) Value {
	tt := e.tt
	fu, tu := from.Underlying(), to.Underlying()
	fb, fok := fu.(*types.Basic)
	tb, tok := tu.(*types.Basic)
	if fok && tok {
		if fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0 {
			x := v.(*Term)
			w := basicWidth(tb)
			switch {
			case w == x.S.W:
				return x
			case w < x.S.W:
				return tt.Extract(w-1, 0, x)
			case isSigned(from):
				return tt.Sext(w, x)
			default:
				return tt.Zext(w, x)
			}
		}
		if fb.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0 {
			return v
		}
		if tb.Info()&types.IsFloat != 0 {
			if x, ok := v.(*Term); ok && x.S.K == KBV {
				return tt.App("tofloat", SU, x)
			}
		}
	}
	if tok && tb.Info()&types.IsString != 0 {
		if _, ok := fu.(*types.Slice); ok {
			return e.bytesOf(st, v)
		}
	}
	if fok && fb.Info()&types.IsString != 0 {
		if s, ok := tu.(*types.Slice); ok && isByte(s.Elem()) {
			return e.newBytes(st, v.(*Rope))
		}
	}
	if types.Identical(fu, tu) {
		return v
	}
	if _, ok := fu.(*types.Pointer); ok {
		if _, ok := tu.(*types.Pointer); ok {
			return v
		}
	}
	fail("conversion from %s to %s", from, to)
	return nil
}

func (e *Eng) binop(st *State, x *ssa.BinOp, a, b Value) (Value, *State, string) {
	tt := e.tt
	t := x.X.Type()
	switch x.Op {
	case token.EQL, token.NEQ:
		c := e.equal(st, a, b, t)
		if x.Op == token.NEQ {
			c = tt.Not(c)
		}
		return c, nil, ""
	}
	if r, ok := a.(*Rope); ok {
		s := b.(*Rope)
		switch x.Op {
		case token.ADD:
			return e.cat(r, s), nil, ""
		case token.LSS:
			return e.lexLess(st, r, s), nil, ""
		case token.GTR:
			return e.lexLess(st, s, r), nil, ""
		case token.LEQ:
			return tt.Not(e.lexLess(st, s, r)), nil, ""
		case token.GEQ:
			return tt.Not(e.lexLess(st, r, s)), nil, ""
		}
	}
	p, ok := a.(*Term)
	if !ok {
		fail("%s on %T", x.Op, a)
	}
	q, ok := b.(*Term)
	if !ok {
		fail("%s on %T", x.Op, b)
	}
	if p.S.K == KU || q.S.K == KU {
		fail("arithmetic on opaque values")
	}
	sg := isSigned(t)
	switch x.Op {
	case token.ADD:
		return tt.Add(p, q), nil, ""
	case token.SUB:
		return tt.Sub(p, q), nil, ""
	case token.MUL:
		return tt.Mul(p, q), nil, ""
	case token.QUO, token.REM:
		pan := e.need(st, tt.Not(tt.Eq(q, tt.BV(q.S.W, 0))), "div")
		op := OUDiv
		if x.Op == token.REM {
			op = OURem
		}
		if sg {
			if x.Op == token.QUO {
				op = OSDiv
			} else {
				op = OSRem
			}
		}
		if c, ok := q.CU(); ok && op == OSDiv && p.S.W == 64 && c > 1 && c < 1<<40 {
			if b := tt.factor(p, c); b != nil && b != p {
				// a product that does not overflow
				lim := uint64(1<<62) / c
				if st.prove(tt.And(tt.Sle(b, tt.BV(64, lim)), tt.Sle(tt.Neg(tt.BV(64, lim)), b))) {
					return b, pan, "integer divide by zero"
				}
			}
		}
		return tt.Bin(op, p, q), pan, "integer divide by zero"
	case token.AND:
		if p.S.K == KBool {
			return tt.And(p, q), nil, ""
		}
		return tt.bitop(OBVAnd, p, q), nil, ""
	case token.OR:
		return tt.bitop(OBVOr, p, q), nil, ""
	case token.XOR:
		return tt.bitop(OBVXor, p, q), nil, ""
	case token.AND_NOT:
		return tt.bitop(OBVAnd, p, tt.BVNot(q)), nil, ""
	case token.SHL, token.SHR:
		// shift counts are unsigned or non-negative
		var pan *State
		if isSigned(x.Y.Type()) {
			pan = e.need(st, tt.Sle(tt.BV(q.S.W, 0), q), "shift")
		}
		w := p.S.W
		var cnt *Term
		var big *Term = tt.False
		if q.S.W > w {
			big = tt.Ule(tt.BV(q.S.W, uint64(w)), q)
			cnt = tt.Extract(w-1, 0, q)
		} else {
			cnt = tt.Zext(w, q)
		}
		op := OShl
		if x.Op == token.SHR {
			op = OLshr
			if sg {
				op = OAshr
			}
		}
		r := tt.Bin(op, p, cnt)
		over := tt.BV(w, 0)
		if op == OAshr {
			over = tt.Ite(tt.Slt(p, tt.BV(w, 0)), tt.BV(w, mask(w)), tt.BV(w, 0))
		}
		return tt.Ite(big, over, r), pan, "negative shift amount"
	case token.LSS:
		if sg {
			return tt.Slt(p, q), nil, ""
		}
		return tt.Ult(p, q), nil, ""
	case token.LEQ:
		if sg {
			return tt.Sle(p, q), nil, ""
		}
		return tt.Ule(p, q), nil, ""
	case token.GTR:
		if sg {
			return tt.Slt(q, p), nil, ""
		}
		return tt.Ult(q, p), nil, ""
	case token.GEQ:
		if sg {
			return tt.Sle(q, p), nil, ""
		}
		return tt.Ule(q, p), nil, ""
	}
	fail("operator %s", x.Op)
	return nil, nil, ""
}

// equal is Go's ==.
func (e *Eng) equal(st *State, a, b Value, t types.Type) *Term {
	tt := e.tt
	switch x := a.(type) {
	case *Term:
		return tt.Eq(x, b.(*Term))
	case *Rope:
		return e.ropeEq(st, x, b.(*Rope))
	case Ptr:
		y := b.(Ptr)
		if x.Obj == 0 || y.Obj == 0 {
			return tt.Bool(x.Obj == y.Obj)
		}
		if x.Obj != y.Obj || len(x.Path) != len(y.Path) {
			return tt.False
		}
		var cs []*Term
		for i := range x.Path {
			if x.Path[i].Idx != nil && y.Path[i].Idx != nil {
				cs = append(cs, tt.Eq(x.Path[i].Idx, y.Path[i].Idx))
			} else if x.Path[i].F != y.Path[i].F {
				return tt.False
			}
		}
		return tt.And(cs...)
	case SliceV: // only against nil
		y := b.(SliceV)
		if x.Base.Obj == 0 {
			return tt.Bool(y.Base.Obj == 0)
		}
		if y.Base.Obj == 0 {
			return tt.False
		}
	case MapRef:
		return tt.Bool(a == b)
	case ChanRef:
		return tt.Bool(a == b)
	case FuncV:
		y := b.(FuncV)
		return tt.Bool((x.Fn == nil && x.Bi == "") == (y.Fn == nil && y.Bi == ""))
	case IfaceV:
		y, ok := b.(IfaceV)
		if !ok {
			fail("comparison of an interface with %T", b)
		}
		if x.T == nil || y.T == nil {
			return tt.Bool(x.T == nil && y.T == nil)
		}
		if !types.Identical(x.T, y.T) {
			return tt.False
		}
		return e.equal(st, x.V, y.V, x.T)
	case *StructV:
		y := b.(*StructV)
		var cs []*Term
		for i := range x.F {
			cs = append(cs, e.equal(st, x.F[i], y.F[i], nil))
		}
		return tt.And(cs...)
	case *ArrV:
		y := b.(*ArrV)
		var cs []*Term
		for i := range x.E {
			cs = append(cs, e.equal(st, x.E[i], y.E[i], nil))
		}
		return tt.And(cs...)
	}
	fail("comparison of %T", a)
	return nil
}

// lexLess is the lexicographic order; an uninterpreted strict order unless both
// sides are words of the same size.
func (e *Eng) lexLess(st *State, a, b *Rope) *Term {
	tt := e.tt
	if len(a.P) == 1 && len(b.P) == 1 && a.P[0].K == 'W' && b.P[0].K == 'W' && a.P[0].T.S == b.P[0].T.S {
		x, y := a.P[0].T, b.P[0].T
		return tt.Ult(x, y)
	}
	return tt.App("lexless", SBool, e.seqU(st, a), e.seqU(st, b))
}

// ---------------------------------------------------------------------------
// Maps

func (e *Eng) keyTerm(st *State, k Value) *Term {
	switch x := k.(type) {
	case *Rope:
		return e.seqU(st, x)
	case *Term:
		return x
	}
	fail("map key %T", k)
	return nil
}

func (e *Eng) keyEq(st *State, a, b Value) *Term {
	switch x := a.(type) {
	case *Rope:
		return e.ropeEq(st, x, b.(*Rope))
	case *Term:
		return e.tt.Eq(x, b.(*Term))
	}
	fail("map key %T", a)
	return nil
}

// baseHas: membership in the map as it was given.
func (e *Eng) baseHas(m *MapC, k *Term) *Term {
	if m.Name == "" {
		return e.tt.False
	}
	return e.tt.App(m.Name+".has", SBool, k)
}

func (e *Eng) baseVal(st *State, m *MapC, k *Term) Value {
	return e.symV(st, m.VT, m.Name+".val", []*Term{k}, -1, 1)
}

// mapGet forks over the writes that may concern the key.
func (e *Eng) mapGet(st *State, m *MapC, k Value) []Outcome {
	tt := e.tt
	var out []Outcome
	cur := st
	for i := len(m.W) - 1; i >= 0; i-- {
		w := m.W[i]
		eq := e.keyEq(cur, k, w.Key)
		if v, kn := cur.quick(eq); kn && !v {
			continue
		}
		hit := !cur.feasible(tt.Not(eq))
		miss := !cur.feasible(eq)
		if miss {
			continue
		}
		s := cur
		if !hit {
			s = cur.fork()
			s.assume(eq)
		}
		if w.Pres {
			out = append(out, Outcome{st: s, val: TupleV{w.V, tt.True}})
		} else {
			out = append(out, Outcome{st: s, val: TupleV{e.zero(m.VT), tt.False}})
		}
		if hit {
			return out
		}
		cur.assume(tt.Not(eq))
	}
	if m.Name == "" {
		return append(out, Outcome{st: cur, val: TupleV{e.zero(m.VT), tt.False}})
	}
	kt := e.keyTerm(cur, k)
	has := e.baseHas(m, kt)
	if v, kn := cur.quick(has); !kn || v {
		if cur.feasible(has) {
			s := cur.fork()
			s.assume(has)
			s.assume(tt.Ult(tt.I(0), m.N))
			out = append(out, Outcome{st: s, val: TupleV{e.baseVal(s, m, kt), tt.True}})
		}
	}
	if v, kn := cur.quick(has); !kn || !v {
		if cur.feasible(tt.Not(has)) {
			cur.assume(tt.Not(has))
			out = append(out, Outcome{st: cur, val: TupleV{e.zero(m.VT), tt.False}})
		}
	}
	return out
}

func (e *Eng) mapLookup(st *State, fr *Frame, x *ssa.Lookup) []Outcome {
	mr, ok := e.val(st, fr, x.X).(MapRef)
	if !ok {
		fail("lookup in %T", e.val(st, fr, x.X))
	}
	k := e.val(st, fr, x.Index)
	vt := x.X.Type().Underlying().(*types.Map).Elem()
	fix := func(o *Outcome) {
		if !x.CommaOk {
			o.val = o.val.(TupleV)[0]
		}
	}
	if mr.Obj == 0 {
		o := Outcome{st: st, val: TupleV{e.zero(vt), e.tt.False}}
		fix(&o)
		e.set(fr, x, o.val)
		return nil
	}
	outs := e.mapGet(st, st.heap[mr.Obj].(*MapC), k)
	for i := range outs {
		fix(&outs[i])
	}
	if len(outs) == 1 && outs[0].st == st {
		e.set(fr, x, outs[0].val)
		return nil
	}
	// booleans only: merge
	if b, ok := vt.Underlying().(*types.Struct); ok && b.NumFields() == 0 && x.CommaOk && len(outs) == 2 {
		_ = b
	}
	return outs
}

// mapSet writes or deletes; the size follows from membership.
func (e *Eng) mapSet(st *State, obj int, k, v Value, pres bool) {
	tt := e.tt
	m := st.heap[obj].(*MapC)
	was := e.mapHas(st, m, k)
	n := *m
	n.W = append(append([]MapW{}, m.W...), MapW{k, pres, v})
	one := tt.I(1)
	if pres {
		n.Size = tt.Add(m.Size, tt.Ite(was, tt.I(0), one))
	} else {
		n.Size = tt.Sub(m.Size, tt.Ite(was, one, tt.I(0)))
	}
	if e.trackW != nil {
		e.trackW[obj] = true
	}
	st.heap[obj] = &n
}

// mapHas is membership as a condition.
func (e *Eng) mapHas(st *State, m *MapC, k Value) *Term {
	tt := e.tt
	res := e.baseHas(m, e.keyTerm(st, k))
	for _, w := range m.W {
		eq := e.keyEq(st, k, w.Key)
		if w.Pres {
			res = tt.Or(eq, res)
		} else {
			res = tt.And(tt.Not(eq), res)
		}
	}
	return res
}

// mapNext advances an iteration. Only maps without writes are enumerated: the
// entries come in an arbitrary order key(0), key(1), ...
func (e *Eng) mapNext(st *State, it Ptr, x *ssa.Next) Value {
	tt := e.tt
	iv := st.heap[it.Obj].(*IterV)
	m := iv.Map
	if m.Name == "" && len(m.W) == 0 {
		return TupleV{tt.False, e.zero(x.Type().(*types.Tuple).At(1).Type()), e.zero(x.Type().(*types.Tuple).At(2).Type())}
	}
	if len(m.W) > 0 {
		fail("range over a map that was written")
	}
	ok := tt.Ult(iv.Pos, m.N)
	kt := tt.App(m.Name+".key", SU, iv.Pos)
	var k Value
	if b, isB := m.KT.Underlying().(*types.Basic); isB && b.Info()&types.IsString != 0 {
		k = e.chunk(kt, tt.Zext(64, tt.App(m.Name+".keylen", SBV(30), kt)))
	} else {
		fail("range over a map with key %s", m.KT)
	}
	v := e.baseVal(st, m, kt)
	st.assume(tt.Or(tt.Not(ok), e.baseHas(m, kt)))
	st.heap[it.Obj] = &IterV{Map: m, Pos: tt.Add(iv.Pos, tt.I(1))}
	if e.trackW != nil {
		e.trackW[it.Obj] = true
	}
	return TupleV{ok, k, v}
}

// ---------------------------------------------------------------------------
// Channels and goroutines

func (e *Eng) send(st *State, c Value, v Value) {
	cr := c.(ChanRef)
	if cr.Obj == 0 {
		fail("send on nil channel")
	}
	ch := st.heap[cr.Obj].(*ChanC)
	n := *ch
	n.Sent = append(append([]Value{}, ch.Sent...), v)
	st.heap[cr.Obj] = &n
}

func (e *Eng) recv(st *State, c Value, x *ssa.UnOp) Value {
	fail("receive")
	return nil
}

// doSelect: a send that is possible is taken unless a closed channel can be
// received from; both are explored.
func (e *Eng) doSelect(st *State, fr *Frame, x *ssa.Select) []Outcome {
	var out []Outcome
	tt := e.tt
	for i, s := range x.States {
		cr := e.val(st, fr, s.Chan).(ChanRef)
		if cr.Obj == 0 {
			continue
		}
		ch := st.heap[cr.Obj].(*ChanC)
		mk := func(ns *State) {
			tv := TupleV{tt.I(int64(i)), tt.True}
			for _, s2 := range x.States {
				if s2.Dir == types.RecvOnly {
					tv = append(tv, e.zero(s2.Chan.Type().Underlying().(*types.Chan).Elem()))
				}
			}
			out = append(out, Outcome{st: ns, val: tv})
		}
		if s.Dir == types.SendOnly {
			ns := st.fork()
			e.send(ns, cr, e.val(st, fr, s.Send))
			mk(ns)
		} else if !ch.Closed.IsFalse() {
			ns := st.fork()
			ns.assume(ch.Closed)
			mk(ns)
		}
	}
	if !x.Blocking {
		fail("non-blocking select")
	}
	if len(out) == 0 {
		fail("select blocks forever")
	}
	return out
}

func (e *Eng) goStart(st *State, fr *Frame, cc *ssa.CallCommon, fv Value, args []Value, site ssa.Instruction) {
	st.gov = append(st.gov[:len(st.gov):len(st.gov)], TupleV{fv, TupleV(args)})
	// the body runs at once, in the same state: one schedule among all
	outs := e.callValue(st.fork(), fr, cc, fv, args, site)
	if len(outs) != 1 || outs[0].panic != "" {
		fail("goroutine body with several outcomes")
	}
	*st = *outs[0].st
}

// ---------------------------------------------------------------------------
// Calls

func (e *Eng) callArgs(st *State, fr *Frame, cc *ssa.CallCommon) (Value, []Value) {
	var args []Value
	var fv Value
	fv = e.val(st, fr, cc.Value)
	for _, a := range cc.Args {
		args = append(args, e.val(st, fr, a))
	}
	return fv, args
}

func (e *Eng) callValue(st *State, fr *Frame, cc *ssa.CallCommon, fv Value, args []Value, site ssa.Instruction) []Outcome {
	if cc.IsInvoke() {
		iv, ok := fv.(IfaceV)
		if !ok {
			fail("invoke on %T", fv)
		}
		if iv.T == nil {
			return []Outcome{{st: st, panic: "nil interface method call", pos: site.Pos()}}
		}
		return e.invoke(st, iv, cc.Method, args, site)
	}
	f, ok := fv.(FuncV)
	if !ok {
		fail("call of %T", fv)
	}
	if f.Bi != "" {
		if strings.HasPrefix(f.Bi, "builtin.") {
			return e.builtin(st, fr, f.Bi[8:], args, cc, site)
		}
	}
	if f.Fn == nil {
		return []Outcome{{st: st, panic: "call of nil function", pos: site.Pos()}}
	}
	return e.callStatic(st, f.Fn, args, f.Bind, site)
}

func (e *Eng) invoke(st *State, iv IfaceV, m *types.Func, args []Value, site ssa.Instruction) []Outcome {
	// models keyed by the dynamic type
	if iv.T == e.prog.errType {
		switch m.Name() {
		case "Error":
			return []Outcome{{st: st, val: e.chunk(e.tt.App("errmsg", SU), e.tt.I(8))}}
		}
	}
	if r, ok := e.rdrInvoke(st, iv, m, args, site); ok {
		return r
	}
	fn := e.prog.ssa.LookupMethod(iv.T, m.Pkg(), m.Name())
	if fn == nil {
		fail("method %s of %s", m.Name(), iv.T)
	}
	return e.callStatic(st, fn, append([]Value{iv.V}, args...), nil, site)
}

func (e *Eng) callStatic(st *State, fn *ssa.Function, args, bind []Value, site ssa.Instruction) []Outcome {
	if outs, ok := e.intrinsic(st, fn, args, site); ok {
		return outs
	}
	if outs, ok := e.byContract(st, fn, args, site); ok {
		return outs
	}
	if e.prog.inRepo(fn.Pkg) && len(fn.Blocks) > 0 || fn.Pkg == nil && len(fn.Blocks) > 0 || fn.Synthetic != "" && len(fn.Blocks) > 0 {
		if e.skipBody(fn) {
			return e.model(st, fn, args, site)
		}
		return e.callFn(st, fn, args, bind)
	}
	return e.model(st, fn, args, site)
}

// skipBody: String and formatting helpers are never needed.
func (e *Eng) skipBody(fn *ssa.Function) bool {
	return fn.Name() == "String" && fn.Signature.Results().Len() == 1
}

func (e *Eng) builtin(st *State, fr *Frame, name string, args []Value, cc *ssa.CallCommon, site ssa.Instruction) []Outcome {
	tt := e.tt
	one := func(v Value) []Outcome { return []Outcome{{st: st, val: v}} }
	switch name {
	case "len":
		switch x := args[0].(type) {
		case *Rope:
			return one(e.ropeLen(x))
		case SliceV:
			return one(x.Len)
		case MapRef:
			if x.Obj == 0 {
				return one(tt.I(0))
			}
			return one(st.heap[x.Obj].(*MapC).Size)
		case *ArrV:
			return one(tt.I(int64(len(x.E))))
		}
	case "cap":
		if x, ok := args[0].(SliceV); ok {
			return one(x.Cap)
		}
	case "append":
		return one(e.appendV(st, args[0].(SliceV), args[1], cc.Args[0].Type()))
	case "copy":
		return one(e.copyV(st, args[0].(SliceV), args[1]))
	case "delete":
		mr := args[0].(MapRef)
		if mr.Obj != 0 {
			e.mapSet(st, mr.Obj, args[1], nil, false)
		}
		return one(nil)
	case "close":
		cr := args[0].(ChanRef)
		ch := *st.heap[cr.Obj].(*ChanC)
		if !ch.Closed.IsFalse() {
			return []Outcome{{st: st, panic: "close of closed channel", pos: site.Pos()}}
		}
		ch.Closed = tt.True
		st.heap[cr.Obj] = &ch
		return one(nil)
	case "print", "println":
		return one(nil)
	case "ssa:wrapnilchk":
		p, ok := args[0].(Ptr)
		if ok && p.Obj == 0 {
			return []Outcome{{st: st, panic: "nil pointer in method value", pos: site.Pos()}}
		}
		return one(args[0])
	case "recover":
		return one(IfaceV{})
	}
	fail("builtin %s", name)
	return nil
}

// appendV always yields a new backing array: sharing of spare capacity is not
// relied upon.
func (e *Eng) appendV(st *State, s SliceV, more Value, t types.Type) Value {
	tt := e.tt
	el := t.Underlying().(*types.Slice).Elem()
	if isByte(el) {
		r := e.cat(e.bytesOf(st, s), e.bytesOf(st, more))
		if m, ok := more.(SliceV); ok && isZero(m.Len) && s.Base.Obj == 0 {
			return s
		}
		return e.newBytes(st, r)
	}
	m := more.(SliceV)
	if isZero(m.Len) {
		return s
	}
	k, ok := m.Len.CU()
	if !ok {
		return e.concatSym(st, s, m, el)
	}
	var vals []Value
	for i := uint64(0); i < k; i++ {
		vals = append(vals, e.elemAt(st, m, tt.I(int64(i))))
	}
	n := tt.Add(s.Len, m.Len)
	if c, ok := s.Len.CU(); ok && c+k <= 600 {
		a := &ArrV{}
		for i := uint64(0); i < c; i++ {
			a.E = append(a.E, e.elemAt(st, s, tt.I(int64(i))))
		}
		a.E = append(a.E, vals...)
		o := e.alloc(st, a)
		return SliceV{Ptr{Obj: o}, tt.I(0), n, n}
	}
	a := e.asSym(st, s, el)
	a.Len = n
	for i, v := range vals {
		a = e.symPut(st, a, tt.Add(s.Len, tt.I(int64(i))), v)
	}
	o := e.alloc(st, a)
	return SliceV{Ptr{Obj: o}, tt.I(0), n, n}
}

// asSym is the contents of a slice as a function of the index from 0 on.
func (e *Eng) asSym(st *State, s SliceV, el types.Type) *SymArr {
	tt := e.tt
	if s.Base.Obj == 0 {
		return &SymArr{Len: tt.I(0)}
	}
	c := e.contents(st, s)
	switch x := c.(type) {
	case *SymArr:
		if isZero(s.Off) {
			return &SymArr{s.Len, x.Base, x.Layers}
		}
		// shift the index
		r := &SymArr{Len: s.Len}
		sh := func(l *Lam) *Lam {
			if l == nil {
				return nil
			}
			return &Lam{l.K, e.subV(l.V, e.newSub(map[*Term]*Term{l.K: tt.Add(l.K, s.Off)}))}
		}
		r.Base = sh(x.Base)
		for _, l := range x.Layers {
			if l.Hi != nil {
				fail("segment of a shifted list")
			}
			r.Layers = append(r.Layers, Layer{Lo: tt.Sub(l.Lo, s.Off), V: l.V})
		}
		return r
	case *ArrV:
		r := &SymArr{Len: s.Len}
		off, ok := s.Off.CU()
		if !ok {
			fail("list at a symbolic offset")
		}
		for i := int(off); i < len(x.E); i++ {
			r.Layers = append(r.Layers, Layer{Lo: tt.I(int64(i - int(off))), V: x.E[i]})
		}
		return r
	}
	fail("list of %T", c)
	return nil
}

func (e *Eng) concatSym(st *State, s, m SliceV, el types.Type) Value {
	tt := e.tt
	if isZero(s.Len) {
		a := e.asSym(st, m, el)
		o := e.alloc(st, a)
		return SliceV{Ptr{Obj: o}, tt.I(0), m.Len, m.Len}
	}
	a := e.asSym(st, s, el)
	b := e.asSym(st, m, el)
	n := tt.Add(s.Len, m.Len)
	kv := tt.Var(tt.FreshName("av!"), S64)
	v := e.symGet(st, b, tt.Sub(kv, s.Len), nil)
	r := &SymArr{n, a.Base, append(append([]Layer{}, a.Layers...), Layer{Lo: s.Len, Hi: n, L: e.lam(v, kv)})}
	o := e.alloc(st, r)
	return SliceV{Ptr{Obj: o}, tt.I(0), n, n}
}

func (e *Eng) copyV(st *State, d SliceV, src Value) Value {
	tt := e.tt
	if d.Base.Obj == 0 {
		return tt.I(0)
	}
	if _, ok := e.contents(st, d).(*Rope); ok {
		b := e.bytesOf(st, src)
		n := e.ropeLen(b)
		// min
		var k *Term
		switch {
		case st.prove(tt.Ule(n, d.Len)):
			k = n
		case st.prove(tt.Ule(d.Len, n)):
			k = d.Len
		default:
			fail("copy of unrelated lengths")
		}
		a, _, ok := e.split(st, b, k)
		if !ok {
			fail("copy: cannot split")
		}
		old := e.contents(st, d).(*Rope)
		e.store(st, d.Base, e.setBytes(st, old, d.Off, a))
		return k
	}
	s := src.(SliceV)
	k, ok := s.Len.CU()
	if !ok {
		if st.prove(tt.Eq(s.Len, d.Len)) && isZero(d.Off) {
			if dc, ok := e.contents(st, d).(*SymArr); ok && st.prove(tt.Eq(dc.Len, d.Len)) {
				a := e.asSym(st, s, nil)
				e.store(st, d.Base, &SymArr{dc.Len, a.Base, a.Layers})
				return s.Len
			}
		}
		fail("copy of a symbolic list")
	}
	if dk, ok := d.Len.CU(); ok && dk < k {
		k = dk
	}
	var vals []Value
	for i := uint64(0); i < k; i++ {
		vals = append(vals, e.elemAt(st, s, tt.I(int64(i))))
	}
	for i := uint64(0); i < k; i++ {
		e.store(st, d.Base.at(PE{Idx: tt.Add(d.Off, tt.I(int64(i)))}), vals[i])
	}
	return tt.I(int64(k))
}

// allocCheck: memory requested from a length that input controls must be
// bounded by the protocol's limits.
func (e *Eng) allocCheck(st *State, n *Term, x *ssa.MakeSlice) {
	if e.task == nil || e.task.allocLimit == 0 || e.quiet > 0 {
		return
	}
	if c, ok := n.CU(); ok && c <= e.task.allocLimit {
		return
	}
	c := e.tt.Ule(n, e.tt.BV(64, e.task.allocLimit))
	e.oblige(st, "allocation bounded", fmt.Sprintf("make at %s", posStr(e.prog.fset, x.Pos())), c)
}
