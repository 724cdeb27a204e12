package main

import (
	"fmt"
	"go/types"
	"os"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Task: one contract (and one case of its splits) to discharge.
type Task struct {
	h          *Harness
	split      map[string]int
	allocLimit uint64
	obs        []*Obligation
	panics     int // panic conditions refuted on the way
	failMsg    string
	dur        time.Duration
	queries    int
	solveTime  time.Duration
	by         map[string]int
	used       map[string]bool
	assumed    map[string]bool
	calleeC    map[string]bool
	loops      map[string]bool
}

// Obligation: a condition generated from the source.
type Obligation struct {
	Name   string
	Detail string
	Status string // proved, refuted, unknown
	By     string
	Model  map[string]string
	Hints  map[string]string
	Cond   string
	Trace  []string
	pos    string
}

// oblige discharges a condition on a path.
func (e *Eng) oblige(st *State, name, detail string, c *Term) {
	if e.quiet > 0 || e.task == nil {
		return
	}
	o := &Obligation{Name: name, Detail: detail, Trace: st.trace}
	e.task.obs = append(e.task.obs, o)
	if v, k := st.quick(c); k && v {
		o.Status, o.By = "proved", "rewriting"
		return
	}
	// conjunct by conjunct
	parts := []*Term{c}
	if c.Op == OAnd {
		parts = c.Args
	}
	o.Status = "proved"
	for _, p := range parts {
		if v, k := st.quick(p); k && v {
			if o.By == "" {
				o.By = "rewriting"
			}
			continue
		}
		sp, q := st.pinned(p)
		if v, k := sp.quick(q); k && v {
			if o.By == "" {
				o.By = "rewriting"
			}
			continue
		}
		if sp != st && q != p {
			e.sol.brief = true
			r, _, by := e.sol.Check(append(e.near(sp.pc, q), e.tt.Not(q)), false)
			e.sol.brief = false
			if r == RUnsat {
				o.By = by
				continue
			}
		}
		if e.congruent(st, p, 0) || sp != st && e.congruent(sp, q, 0) {
			o.By = "z3"
			continue
		}
		e.oblige1(st, o, p)
		if o.Status != "proved" && sp != st {
			o2 := *o
			e.oblige1(sp, o, q)
			if o.Status != "proved" {
				*o = o2
			}
		}
		if o.Status != "proved" && os.Getenv("GOVC_PC") != "" {
			fmt.Printf("PC of %s\n", o.Name)
			for _, x := range st.pc {
				fmt.Printf("   %.600s\n", e.tt.Str(x))
			}
			fmt.Printf(" => %.3000s\n", e.tt.Str(p))
		}
		if o.Status != "proved" {
			return
		}
	}
}

// congruent proves an equation of two applications of a hard operation by
// the equality of their arguments.
func (e *Eng) congruent(st *State, c *Term, depth int) bool {
	if c.Op != OEq || depth > 3 {
		return false
	}
	a, b := c.Args[0], c.Args[1]
	if a == b {
		return true
	}
	if a.Op != b.Op || len(a.Args) != len(b.Args) || a.S != b.S || !hardArith(a) || !hardArith(b) {
		return false
	}
	for i := range a.Args {
		if a.Args[i] == b.Args[i] {
			continue
		}
		if a.Args[i].S != b.Args[i].S {
			return false
		}
		d := e.tt.Eq(a.Args[i], b.Args[i])
		if d.IsTrue() {
			continue
		}
		if !e.congruent(st, d, depth+1) && !st.prove(d) {
			return false
		}
	}
	return true
}

// pinned replaces what the path fixes to a constant, in the path too.
func (st *State) pinned(c *Term) (*State, *Term) {
	m := map[*Term]*Term{}
	for _, p := range st.pc {
		switch {
		case p.Op == OEq:
			a, b := p.Args[0], p.Args[1]
			if a.IsConst() {
				a, b = b, a
			}
			if b.IsConst() && !a.IsConst() {
				m[a] = b
			}
		case p.Op == OVar || p.Op == OApp || p.Op == OSlt || p.Op == OSle || p.Op == OUlt || p.Op == OUle:
			m[p] = st.e.tt.True
			if q := st.e.tt.opposite(p); q != nil {
				m[q] = st.e.tt.False
			}
		case p.Op == ONot && (p.Args[0].Op == OVar || p.Args[0].Op == OApp || p.Args[0].Op == OSlt || p.Args[0].Op == OSle || p.Args[0].Op == OUlt || p.Args[0].Op == OUle):
			m[p.Args[0]] = st.e.tt.False
		case p.Op == ONot && p.Args[0].Op == OEq && p.Args[0].Args[0].S.K == KBV && p.Args[0].Args[0].S.W == 1:
			a, b := p.Args[0].Args[0], p.Args[0].Args[1]
			if a.IsConst() {
				a, b = b, a
			}
			if v, ok := b.CU(); ok && !a.IsConst() {
				m[a] = st.e.tt.BV(1, 1-v)
			}
		case p.Op == ONot && (p.Args[0].Op == OVar || p.Args[0].Op == OApp):
			m[p.Args[0]] = st.e.tt.False
		}
	}
	if len(m) == 0 {
		return st, c
	}
	memo := map[*Term]*Term{}
	n := &State{e: st.e, pcs: map[*Term]bool{}}
	for _, p := range st.pc {
		q := st.e.tt.SubstC(p, m, memo)
		if q.IsTrue() {
			q = p // the pin itself
		}
		n.assume(q)
	}
	for i := 0; i < 3; i++ {
		d := st.e.tt.SubstC(c, m, memo)
		if d == c {
			break
		}
		c = d
	}
	return n, c
}

func (e *Eng) oblige1(st *State, o *Obligation, c *Term) {
	if os.Getenv("GOVC_SLOW") != "" {
		t0 := time.Now()
		defer func() {
			fmt.Fprintf(os.Stderr, "obligation %.40s %s %s %.1fs\n", e.tt.Str(c), o.Name, o.Status, time.Since(t0).Seconds())
		}()
	}
	if ds := e.tt.disjuncts(c); len(ds) > 2 {
		for _, d := range ds {
			e.sol.brief = true
			r, _, by := e.sol.Check(append(e.about(st.pc, d), e.tt.Not(d)), false)
			e.sol.brief = false
			if r == RUnsat {
				o.Status, o.By = "proved", by
				return
			}
		}
	}
	if near := e.near(st.pc, c); len(near) < len(st.pc) {
		if r, _, by := e.sol.Check(append(near, e.tt.Not(c)), false); r == RUnsat {
			o.Status, o.By = "proved", by
			return
		}
	}
	rel := e.relevant(st.pc, c)
	if gr := ground(rel); len(gr) < len(rel) {
		if r, _, by := e.sol.Check(append(gr, e.tt.Not(c)), false); r == RUnsat {
			o.Status, o.By = "proved", by
			return
		}
	}
	if r, _, by := e.sol.Check(append(rel, e.tt.Not(c)), false); r == RUnsat {
		o.Status, o.By = "proved", by
		return
	}
	as := append(append([]*Term{}, st.pc...), e.tt.Not(c))
	r, m, by := e.sol.Check(as, true)
	o.By = by
	switch r {
	case RUnsat:
		o.Status = "proved"
		return
	case RSat:
		o.Status = "refuted"
		o.Model = modelStrings(e, m)
		o.Hints = e.hintsOf(m)
	default:
		o.Status = "unknown"
	}
	o.Cond = e.tt.Str(c)
}

// ground are the facts without binders.
func ground(as []*Term) []*Term {
	var out []*Term
	for _, a := range as {
		m := map[*Term]bool{}
		collectBinders(a, map[*Term]bool{}, m)
		if len(m) == 0 {
			out = append(out, a)
		}
	}
	return out
}

func modelStrings(e *Eng, m *Model) map[string]string {
	out := map[string]string{}
	if m == nil {
		return out
	}
	for t, v := range m.Vals {
		out[e.tt.Str(t)] = v
	}
	return out
}

// reveal computes the bytes a specification piece stands for.
func (e *Eng) reveal(st *State, p Piece) *Rope {
	if p.Spec == nil {
		return nil
	}
	return nil
}

// byContract replaces a call by the callee's contract.
func (e *Eng) byContract(st *State, fn *ssa.Function, args []Value, site ssa.Instruction) ([]Outcome, bool) {
	if fn == nil || e.task == nil || !e.prog.inRepo(fn.Pkg) {
		return nil, false
	}
	k := shortName(fn.String())
	sp := e.prog.specs[k]
	if sp == nil || e.noContract[k] {
		return nil, false
	}
	if e.quiet == 0 {
		e.calleeC[k] = true
	}
	return e.callFn(st, sp.Fn, args, nil), true
}

func (e *Eng) boolArg(v Value) *Term { return v.(*Term) }

func (e *Eng) constStr(v Value) string {
	r, ok := v.(*Rope)
	if !ok {
		return "?"
	}
	var b []byte
	for _, p := range r.P {
		if p.K != 'W' || !p.T.IsConst() {
			return "?"
		}
		n := p.T.S.W / 8
		x := p.T.BigVal().Bytes()
		for i := len(x); i < n; i++ {
			b = append(b, 0)
		}
		b = append(b, x...)
	}
	return string(b)
}

// pure runs a closure of a specification at an index.
func (e *Eng) pure(st *State, f FuncV, args []Value, site ssa.Instruction) (*State, []Outcome) {
	base := st.fork()
	outs := e.callStatic(st.fork(), f.Fn, args, f.Bind, site)
	return base, outs
}

func (e *Eng) quantBody(st *State, n *Term, f FuncV, site ssa.Instruction) (*Term, *Term) {
	tt := e.tt
	k := tt.Var(tt.FreshName("q!"), S64)
	s := st.fork()
	s.assume(tt.Sle(tt.I(0), k))
	s.assume(tt.Slt(k, n))
	base, outs := e.pure(s, f, []Value{k}, site)
	b := e.boolOf(base, outs)
	if b.Op == OAnd {
		// the bounds of an element are met
		var keep []*Term
		for _, c := range b.Args {
			if (c.Op == OUlt || c.Op == OSlt || c.Op == OUle) && occurs(k, c) && len(b.Args) < 8 && s.prove(c) {
				continue
			}
			keep = append(keep, c)
		}
		b = tt.And(keep...)
	}
	return k, b
}

// intrinsic executes the functions of the specification language.
func (e *Eng) intrinsic(st *State, fn *ssa.Function, args []Value, site ssa.Instruction) ([]Outcome, bool) {
	if fn == nil || fn.Pkg == nil || !e.prog.inRepo(fn.Pkg) {
		return nil, false
	}
	if k := e.prog.abs[fn]; k != "" {
		return e.abstract(st, fn, k, args)
	}
	name := fn.Name()
	if len(name) < 2 || name[0] != 'v' || name[1] < 'A' || name[1] > 'Z' {
		if fn.Signature.Recv() != nil && strings.HasSuffix(fn.Signature.Recv().Type().String(), ".vReader") {
			return e.readerMethod(st, name, args, site)
		}
		return nil, false
	}
	tt := e.tt
	ret := func(v Value) ([]Outcome, bool) { return []Outcome{{st: st, val: v}}, true }
	switch name {
	case "vRequire":
		c := args[0].(*Term)
		if v, k := st.quick(c); k {
			if !v {
				return []Outcome{}, true
			}
			return ret(nil)
		}
		if !st.feasible(c) {
			return []Outcome{}, true
		}
		st.assume(c)
		return ret(nil)
	case "vEnsure":
		c := args[1].(*Term)
		e.oblige(st, e.constStr(args[0]), posStr(e.prog.fset, site.Pos()), c)
		if v, k := st.quick(c); !k || !v {
			st.assume(c)
		}
		return ret(nil)
	case "vLemma":
		// proved, then available
		c := args[1].(*Term)
		e.oblige(st, "lemma "+e.constStr(args[0]), posStr(e.prog.fset, site.Pos()), c)
		st.assume(c)
		return ret(nil)
	case "vSame":
		return ret(e.same(st, args[0], args[1]))
	case "vSnap":
		return ret(e.snap(st, args[0], map[int]int{}))
	case "vCat":
		r := &Rope{}
		for _, a := range e.variadic(st, args[0]) {
			r = e.cat(r, e.bytesOf(st, a))
		}
		return ret(e.newBytes(st, e.compactR(r)))
	case "vU8", "vU16", "vU32", "vU64":
		return ret(e.newBytes(st, e.W(args[0].(*Term))))
	case "vStr":
		return ret(e.newBytes(st, args[0].(*Rope)))
	case "vRep":
		n := args[0].(*Term)
		f := args[1].(FuncV)
		if c, ok := n.CU(); ok && c <= 64 {
			r := &Rope{}
			s := st
			for i := uint64(0); i < c; i++ {
				_, outs := e.pure(s, f, []Value{tt.BV(64, i)}, site)
				r = e.cat(r, e.ropeOf(s, outs))
			}
			return []Outcome{{st: s, val: e.newBytes(s, e.compactR(r))}}, true
		}
		k := tt.Var(tt.FreshName("q!"), S64)
		s := st.fork()
		s.assume(tt.Ult(k, n))
		_, outs := e.pure(s, f, []Value{k}, site)
		if len(outs) == 0 {
			return ret(e.newBytes(st, &Rope{}))
		}
		b := e.ropeOf(s, outs)
		bv := e.ropeVar(ropeDepth(b))
		body := e.subRope(b, e.newSub(map[*Term]*Term{k: bv}))
		return ret(e.newBytes(st, &Rope{[]Piece{{K: 'R', Lo: tt.I(0), Hi: n, BV: bv, Body: body}}}))
	case "vForall":
		n := args[0].(*Term)
		if c, ok := n.CU(); ok && c <= 64 {
			var ts []*Term
			for i := uint64(0); i < c; i++ {
				base, outs := e.pure(st.fork(), args[1].(FuncV), []Value{tt.BV(64, i)}, site)
				ts = append(ts, e.boolOf(base, outs))
			}
			return ret(tt.And(ts...))
		}
		k, b := e.quantBody(st, n, args[1].(FuncV), site)
		return ret(tt.Forall(e.clampN(st, n), k, b))
	case "vExists":
		n := args[0].(*Term)
		k, b := e.quantBody(st, n, args[1].(FuncV), site)
		return ret(tt.Not(tt.Forall(e.clampN(st, n), k, tt.Not(b))))
	case "vCount":
		n := args[0].(*Term)
		k, b := e.quantBody(st, n, args[1].(FuncV), site)
		return ret(tt.Count(e.clampN(st, n), k, b))
	case "vSum":
		n := args[0].(*Term)
		f := args[1].(FuncV)
		k := tt.Var(tt.FreshName("q!"), S64)
		s := st.fork()
		s.assume(tt.Ult(k, n))
		_, outs := e.pure(s, f, []Value{k}, site)
		if len(outs) != 1 || outs[0].panic != "" {
			fail("summand has several outcomes")
		}
		return ret(tt.SumT(e.clampN(st, n), k, outs[0].val.(*Term)))
	case "vImp":
		return ret(tt.Implies(args[0].(*Term), args[1].(*Term)))
	case "vIte":
		return ret(tt.Ite(args[0].(*Term), args[1].(*Term), args[2].(*Term)))
	case "vStream":
		return ret(Ptr{Obj: e.alloc(st, &StreamC{R: e.bytesOf(st, args[0]), Short: tt.False})})
	case "vArbitrary":
		left := tt.Zext(64, e.freshBV(st, "left", 40))
		return ret(Ptr{Obj: e.alloc(st, &StreamC{Any: true, Left: left, Pos: tt.I(0), Short: tt.False})})
	case "vPackBits":
		return ret(e.newBytes(st, e.packBits(st, args[0].(SliceV), args[1].(*Term))))
	case "vReadBits":
		return e.readBits(st, args[0].(IfaceV), args[1].(*Term), args[2].(*Term), site), true
	case "vAbsBool", "vAbsU64", "vAbsHash":
		key := "abs:" + e.constStr(args[0])
		var ts []*Term
		for _, a := range e.variadic(st, args[1]) {
			k, t := e.flat(st, a, 0)
			key += "|" + k
			ts = append(ts, t...)
		}
		switch name {
		case "vAbsBool":
			return ret(tt.App(key, SBool, ts...))
		case "vAbsU64":
			return ret(tt.App(key, S64, ts...))
		}
		return ret(e.W(tt.App(key, SBV(256), ts...)))
	case "vHavocU64":
		return ret(e.freshBV(st, "hv", 64))
	case "vHavocBool":
		return ret(e.freshBool(st, "hv"))
	case "vPanics":
		f := args[0].(FuncV)
		var out []Outcome
		for _, o := range e.callStatic(st, f.Fn, nil, f.Bind, site) {
			out = append(out, Outcome{st: o.st, val: tt.Bool(o.panic != "")})
		}
		return out, true
	case "vErr":
		return ret(e.newErr(st, "vErr"))
	case "vLocked":
		// state of a lock: true when it is held
		p := args[0].(IfaceV).V.(Ptr)
		return ret(tt.Not(tt.Eq(e.load(st, p).(*Term), tt.I(0))))
	}
	return nil, false
}

// abstract: a contract function is a function of its arguments, and nothing
// else is known of it.
func (e *Eng) abstract(st *State, fn *ssa.Function, key string, args []Value) ([]Outcome, bool) {
	key = "abs:" + key
	var ts []*Term
	for _, a := range args {
		k, t := e.flat(st, a, 0)
		key += "|" + k
		ts = append(ts, t...)
	}
	one := func(t types.Type, i int) Value {
		k := key
		if i > 0 {
			k += fmt.Sprintf("#%d", i)
		}
		switch z := e.zero(t).(type) {
		case *Term:
			return e.tt.App(k, z.S, ts...)
		case *Rope:
			if n, ok := e.ropeLen(z).CU(); ok && n > 0 && n <= 64 {
				if _, arr := t.Underlying().(*types.Array); arr {
					return e.W(e.tt.App(k, SBV(8*int(n)), ts...))
				}
			}
		}
		fail("result of an abstract function of type %s", t)
		return nil
	}
	res := fn.Signature.Results()
	if res.Len() == 1 {
		return []Outcome{{st: st, val: one(res.At(0).Type(), 0)}}, true
	}
	tup := TupleV{}
	for i := 0; i < res.Len(); i++ {
		tup = append(tup, one(res.At(i).Type(), i))
	}
	return []Outcome{{st: st, val: tup}}, true
}

// ropeOf: the outcomes of a pure computation of a byte string, as one.
func (e *Eng) ropeOf(base *State, outs []Outcome) *Rope {
	var r *Rope
	for i := len(outs) - 1; i >= 0; i-- {
		o := outs[i]
		if o.panic != "" {
			fail("a specification may panic: %s", o.panic)
		}
		b := e.compactR(e.bytesOf(o.st, o.val))
		if r == nil {
			r = b
			continue
		}
		m, ok := e.merge(e.tt.And(o.st.pc[len(base.pc):]...), b, r)
		if !ok {
			fail("a specification has several shapes")
		}
		r = m.(*Rope)
	}
	if r == nil {
		return &Rope{}
	}
	return r
}

// clampN: a negative bound means an empty range.
func (e *Eng) clampN(st *State, n *Term) *Term {
	if v, k := st.quick(e.tt.Slt(n, e.tt.I(0))); k && !v {
		return n
	}
	if n.Op == OConst {
		return n
	}
	if st.prove(e.tt.Sle(e.tt.I(0), n)) {
		return n
	}
	return e.tt.Ite(e.tt.Slt(n, e.tt.I(0)), e.tt.I(0), n)
}

func (e *Eng) readerMethod(st *State, name string, args []Value, site ssa.Instruction) ([]Outcome, bool) {
	tt := e.tt
	p := args[0].(Ptr)
	x, ok := e.load(st, p).(*StreamC)
	if !ok {
		fail("stream holds %T", e.load(st, p))
	}
	switch name {
	case "Rest":
		if x.Any {
			fail("rest of an arbitrary stream")
		}
		return one(st, e.newBytes(st, x.R)), true
	case "Left":
		if x.Any {
			return one(st, x.Left), true
		}
		return one(st, e.ropeLen(x.R)), true
	case "Used":
		if !x.Any {
			fail("use of a fixed stream")
		}
		return one(st, x.Pos), true
	case "Short":
		return one(st, x.Short), true
	case "Read":
		r, ok := e.rdrInvoke(st, IfaceV{e.prog.errType, p}, types.NewFunc(0, nil, "Read", nil), args[1:], site)
		return r, ok
	}
	_ = tt
	return nil, false
}

// ---------------------------------------------------------------------------

// same: equality by value, through pointers.
func (e *Eng) same(st *State, a, b Value) *Term {
	tt := e.tt
	if ia, ok := a.(IfaceV); ok {
		ib, ok := b.(IfaceV)
		if !ok {
			fail("comparison of an interface with %T", b)
		}
		if ia.T == nil || ib.T == nil {
			return tt.Bool(ia.T == nil && ib.T == nil)
		}
		if ia.T == e.prog.errType || ib.T == e.prog.errType {
			return tt.True
		}
		if types.Implements(ia.T, errorIface) && types.Implements(ib.T, errorIface) {
			return tt.True
		}
		return e.same(st, ia.V, ib.V)
	}
	switch x := a.(type) {
	case *Term:
		return tt.Eq(x, b.(*Term))
	case *Rope:
		return e.ropeEq(st, x, e.bytesOf(st, b))
	case *StructV:
		y := b.(*StructV)
		var cs []*Term
		for i := range x.F {
			c := e.same(st, x.F[i], y.F[i])
			if c.IsFalse() {
				return c
			}
			cs = append(cs, c)
		}
		return tt.And(cs...)
	case *ArrV:
		y, ok := b.(*ArrV)
		if !ok || len(x.E) != len(y.E) {
			fail("comparison of arrays")
		}
		var cs []*Term
		for i := range x.E {
			cs = append(cs, e.same(st, x.E[i], y.E[i]))
		}
		return tt.And(cs...)
	case Ptr:
		y := b.(Ptr)
		if x.Obj == 0 || y.Obj == 0 {
			return tt.Bool(x.Obj == y.Obj)
		}
		if samePtr(x, y) {
			return tt.True
		}
		return e.same(st, e.load(st, x), e.load(st, y))
	case SliceV:
		switch y := b.(type) {
		case *Rope:
			return e.ropeEq(st, e.bytesOf(st, x), y)
		case SliceV:
			return e.sameSlice(st, x, y)
		}
	case MapRef:
		y := b.(MapRef)
		if x.Obj == y.Obj {
			return tt.True
		}
		if x.Obj == 0 || y.Obj == 0 {
			return tt.False
		}
		if e.sameV(st.heap[x.Obj], st.heap[y.Obj]) {
			return tt.True
		}
		fail("comparison of maps")
	case ChanRef:
		return tt.Bool(x == b.(ChanRef))
	case FuncV:
		return tt.Bool(x.Fn == b.(FuncV).Fn)
	case nil:
		return tt.Bool(b == nil)
	}
	fail("comparison of %T and %T", a, b)
	return nil
}

var errorIface = types.Universe.Lookup("error").Type().Underlying().(*types.Interface)

func (e *Eng) isBytesContent(st *State, s SliceV) bool {
	if s.Base.Obj == 0 {
		return false
	}
	_, ok := e.contents(st, s).(*Rope)
	return ok
}

func (e *Eng) sameSlice(st *State, x, y SliceV) *Term {
	tt := e.tt
	if isZero(x.Len) || isZero(y.Len) {
		return tt.Eq(x.Len, y.Len)
	}
	if e.isBytesContent(st, x) || e.isBytesContent(st, y) {
		return e.ropeEq(st, e.bytesOf(st, x), e.bytesOf(st, y))
	}
	if samePtr(x.Base, y.Base) && x.Off == y.Off {
		return tt.Eq(x.Len, y.Len)
	}
	le := tt.Eq(x.Len, y.Len)
	if !st.feasible(le) {
		return tt.False
	}
	s := st.fork()
	s.assume(le)
	if n, ok := s.constOf(x.Len); ok && n <= 64 {
		cs := []*Term{le}
		for i := uint64(0); i < n; i++ {
			cs = append(cs, e.same(s, e.elemAt(s, x, tt.BV(64, i)), e.elemAt(s, y, tt.BV(64, i))))
		}
		return tt.And(cs...)
	}
	if n, ok := s.constOf(y.Len); ok && n <= 64 {
		cs := []*Term{le}
		for i := uint64(0); i < n; i++ {
			cs = append(cs, e.same(s, e.elemAt(s, x, tt.BV(64, i)), e.elemAt(s, y, tt.BV(64, i))))
		}
		return tt.And(cs...)
	}
	k := tt.Var(tt.FreshName("q!"), S64)
	s.assume(tt.Ult(k, x.Len))
	s.assume(tt.Ult(k, y.Len))
	c := e.same(s, e.elemAt(s, x, k), e.elemAt(s, y, k))
	return tt.And(le, tt.Forall(x.Len, k, c))
}

// snap copies a value so that later writes do not show.
func (e *Eng) snap(st *State, v Value, done map[int]int) Value {
	switch x := v.(type) {
	case *StructV:
		y := &StructV{T: x.T}
		for _, f := range x.F {
			y.F = append(y.F, e.snap(st, f, done))
		}
		return y
	case *ArrV:
		y := &ArrV{}
		for _, f := range x.E {
			y.E = append(y.E, e.snap(st, f, done))
		}
		return y
	case Ptr:
		if x.Obj == 0 {
			return x
		}
		if len(x.Path) > 0 {
			return Ptr{Obj: e.alloc(st, e.snap(st, e.load(st, x), done))}
		}
		if o, ok := done[x.Obj]; ok {
			return Ptr{Obj: o}
		}
		o := e.alloc(st, nil)
		done[x.Obj] = o
		c, ok := st.heap[x.Obj]
		if !ok {
			fail("snapshot of an unknown object")
		}
		st.heap[o] = e.snap(st, c, done)
		return Ptr{Obj: o}
	case SliceV:
		if x.Base.Obj == 0 {
			return x
		}
		y := x
		y.Base = Ptr{Obj: e.alloc(st, e.snap(st, e.load(st, x.Base), done))}
		return y
	case MapRef:
		if x.Obj == 0 {
			return x
		}
		if o, ok := done[x.Obj]; ok {
			return MapRef{o}
		}
		o := e.alloc(st, nil)
		done[x.Obj] = o
		m := *st.heap[x.Obj].(*MapC)
		m.W = append([]MapW{}, m.W...)
		for i := range m.W {
			if m.W[i].Pres {
				m.W[i].V = e.snap(st, m.W[i].V, done)
			}
		}
		st.heap[o] = &m
		return MapRef{o}
	case IfaceV:
		return IfaceV{x.T, e.snap(st, x.V, done)}
	}
	return v
}

// flat turns a value into the terms that determine it.
func (e *Eng) flat(st *State, v Value, depth int) (string, []*Term) {
	if depth > 12 {
		fail("value too deep to abstract")
	}
	switch x := v.(type) {
	case nil:
		return "_", nil
	case *Term:
		return "t", []*Term{x}
	case *Rope:
		return "r", []*Term{e.seqU(st, x)}
	case *StructV:
		k, ts := "{", []*Term{}
		for _, f := range x.F {
			a, b := e.flat(st, f, depth+1)
			k += a + ","
			ts = append(ts, b...)
		}
		return k + "}", ts
	case *ArrV:
		k, ts := "[", []*Term{}
		for _, f := range x.E {
			a, b := e.flat(st, f, depth+1)
			k += a + ","
			ts = append(ts, b...)
		}
		return k + "]", ts
	case Ptr:
		if x.Obj == 0 {
			return "nil", nil
		}
		if len(x.Path) > 0 && x.Path[0].Idx != nil {
			// an object of a family: named by its index, when it was never written
			k, ts := e.flat(st, e.load(st, x), depth+1)
			return "*" + k, ts
		}
		k, ts := e.flat(st, e.load(st, x), depth+1)
		return "*" + k, ts
	case SliceV:
		if x.Base.Obj == 0 || isZero(x.Len) {
			return "s0", nil
		}
		c := e.load(st, x.Base)
		switch c.(type) {
		case *Rope:
			return "b", []*Term{e.seqU(st, e.bytesOf(st, x))}
		}
		if n, ok := x.Len.CU(); ok && n <= 64 {
			k, ts := "[", []*Term{}
			for i := uint64(0); i < n; i++ {
				a, b := e.flat(st, e.elemAt(st, x, e.tt.BV(64, i)), depth+1)
				k += a + ","
				ts = append(ts, b...)
			}
			return k + "]", ts
		}
		// a list of symbolic length: its generic element with a marker index
		s := st.fork()
		kv := e.tt.Var(fmt.Sprintf("fl!%d", depth), S64)
		s.assume(e.tt.Ult(kv, x.Len))
		a, b := e.flat(s, e.elemAt(s, x, kv), depth+1)
		return "L(" + a + ")", append([]*Term{x.Len}, b...)
	case IfaceV:
		if x.T == nil {
			return "nil", nil
		}
		k, ts := e.flat(st, x.V, depth+1)
		return "i:" + x.T.String() + ":" + k, ts
	case MapRef, ChanRef, FuncV:
		return e.valKey(st, v), nil
	}
	fail("cannot abstract %T", v)
	return "", nil
}

// ---------------------------------------------------------------------------
// Packed bits: value i occupies the bits [i*w,(i+1)*w) of the byte string read
// as a little-endian number.

func (e *Eng) packBits(st *State, vals SliceV, w *Term) *Rope {
	tt := e.tt
	n, ok := vals.Len.CU()
	if !ok || n > 64 {
		fail("packed list of unknown length")
	}
	var vs []*Term
	for i := uint64(0); i < n; i++ {
		vs = append(vs, e.elemAt(st, vals, tt.BV(64, i)).(*Term))
	}
	if c, ok := st.constOf(w); ok && c >= 1 && c <= 64 {
		return e.packConst(vs, int(c))
	}
	ln := tt.Bin(OUDiv, tt.Add(tt.Mul(tt.BV(64, n), w), tt.I(7)), tt.I(8))
	return e.chunk(tt.App("packBits", SU, append([]*Term{w}, vs...)...), ln)
}

func (e *Eng) packConst(vs []*Term, w int) *Rope {
	tt := e.tt
	total := len(vs) * w
	pad := (8 - total%8) % 8
	var parts []*Term
	if pad > 0 {
		parts = append(parts, tt.BV(pad, 0))
	}
	for i := len(vs) - 1; i >= 0; i-- {
		v := vs[i]
		if v.S.W < w {
			v = tt.Zext(w, v)
		} else if v.S.W > w {
			v = tt.Extract(w-1, 0, v)
		}
		parts = append(parts, v)
	}
	little := tt.Concat(parts...)
	r := &Rope{}
	for i := 0; i < little.S.W/8; i++ {
		r.P = append(r.P, Piece{K: 'W', T: tt.Extract(8*i+7, 8*i, little), N: tt.I(1)})
	}
	return e.compactR(r)
}

func (e *Eng) readBits(st *State, rd IfaceV, n, w *Term, site ssa.Instruction) []Outcome {
	tt := e.tt
	c, ok := n.CU()
	if !ok || c > 64 {
		fail("packed list of unknown length")
	}
	ln := tt.Bin(OUDiv, tt.Add(tt.Mul(n, w), tt.I(7)), tt.I(8))
	var out []Outcome
	for _, o := range e.readN(st, rd, ln, site) {
		a := &ArrV{}
		if o.err != 0 {
			out = append(out, Outcome{st: o.st, val: TupleV{e.nilSlice(), e.readErr(o)}})
			continue
		}
		r := e.compactR(o.data)
		var u *Term
		if len(r.P) == 1 && r.P[0].K == 'C' {
			u = r.P[0].T
		} else {
			u = e.seqU(o.st, r)
		}
		if wc, ok := o.st.constOf(w); ok && wc >= 1 && wc <= 64 && len(r.P) == 1 && r.P[0].K == 'W' {
			// the bytes as a little-endian number
			t := r.P[0].T
			var ts []*Term
			for i := 0; i < t.S.W/8; i++ {
				ts = append(ts, tt.Extract(8*i+7, 8*i, t))
			}
			little := tt.Concat(ts...)
			for i := 0; i < int(c); i++ {
				x := tt.Extract((i+1)*int(wc)-1, i*int(wc), little)
				if wc < 32 {
					x = tt.Zext(32, x)
				} else if wc > 32 {
					x = tt.Extract(31, 0, x)
				}
				a.E = append(a.E, x)
			}
		} else if u.Op == OApp && u.Name == "packBits" && u.Args[0] == w && len(u.Args) == int(c)+1 {
			for i := 0; i < int(c); i++ {
				v := u.Args[i+1]
				m := tt.Sub(tt.Bin(OShl, tt.BV(64, 1), w), tt.BV(64, 1))
				a.E = append(a.E, tt.Ite(tt.Ule(tt.I(32), w), v, tt.bitop(OBVAnd, v, tt.Extract(31, 0, m))))
			}
		} else {
			for i := 0; i < int(c); i++ {
				a.E = append(a.E, tt.App("unpackBits", SBV(32), u, w, tt.I(int64(i))))
			}
		}
		obj := e.alloc(o.st, a)
		out = append(out, Outcome{st: o.st, val: TupleV{SliceV{Ptr{Obj: obj}, tt.I(0), n, n}, nilErr}})
	}
	return out
}
