package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Loops. A loop whose controlling condition is decided in every iteration is
// executed; any other is summarised: the state at the start of iteration k is
// described, for every k, by templates that are derived from one run of the
// body in an arbitrary iteration and checked to be inductive by that run.

type loopUndecided struct{ l *Loop }

// PoisonV is a value that must not be used.
type PoisonV struct{}

var poison = &PoisonV{}

const maxUnroll = 6000

func (l *Loop) headExits() bool {
	if len(l.head.Succs) != 2 {
		return false
	}
	return !l.body[l.head.Succs[0]] || !l.body[l.head.Succs[1]]
}

func (e *Eng) runLoop(st *State, fr *Frame, l *Loop, prev *ssa.BasicBlock, c *ctx) []Res {
	if prev != nil {
		e.phis(st, fr, l.head, prev)
	}
	if l.headExits() {
		if rs, ok := e.unroll(st.fork(), fr.fork(), l, c); ok {
			return rs
		}
	}
	return e.summarise(st, fr, l, c)
}

func (e *Eng) unroll(st *State, fr *Frame, l *Loop, c *ctx) (out []Res, ok bool) {
	depth, quiet, tw := e.depth, e.quiet, e.trackW
	ng := len(st.genk)
	defer func() {
		if x := recover(); x != nil {
			if lu, is := x.(loopUndecided); is && lu.l == l {
				e.depth, e.quiet, e.trackW = depth, quiet, tw
				out, ok = nil, false
				return
			}
			panic(x)
		}
	}()
	_ = ng
	npc := len(st.pc)
	live := []Res{{st: st, fr: fr}}
	for it := 0; len(live) > 0; it++ {
		if it > maxUnroll {
			fail("loop at %s does not end", posStr(e.prog.fset, l.head.Instrs[0].Pos()))
		}
		var next []Res
		for _, r := range live {
			for _, x := range e.runAfterPhis(r.st, r.fr, l.head, &ctx{up: c, stop: l.head, loop: l, probe: true}) {
				if x.k == rStop && x.blk == l.head {
					next = append(next, x)
				} else {
					out = append(out, x)
				}
			}
		}
		if len(next) > 1 {
			next = e.mergeAll(next, l.head, npc)
		}
		if len(next) > 64 {
			fail("too many paths in a loop")
		}
		live = next
	}
	return out, true
}

// ---------------------------------------------------------------------------
// Templates

type tnode struct {
	kind     byte // '=' same, 'S' parts, 't' term, 'r' rope, 'b' bytes slice, 'a' list contents, 'l' list slice, 's' stream, 'P' pointer, 'x' poison, 'm' map
	kids     []*tnode
	init     Value
	name     string
	idx      []*Term // outer indices
	sol      func(k *Term) Value
	lamV     *Lam // solved containers: element or body as a function of k
	lo       *Term
	rec      bool  // a recurrence
	reg      bool  // belongs to a register
	upd      *Term // recurrence: the value after iteration k
	obj      int   // list slices: the object that holds the contents
	cnd      *Term // filtered lists: the condition
	grow     *Term // elements per iteration are counted by this
	arenas   map[int]Value
	bytesP   bool
	prevBody Value
}

type summ struct {
	e        *Eng
	l        *Loop
	k        *Term
	name     string
	genk     []*Term
	base     *State
	fr       *Frame
	regs     map[int]*tnode
	objs     map[int]*tnode
	inv      []*Term // invariants at k
	cont     *Term
	ar       map[int]Value // arenas: per-iteration objects
	arN      map[string]int
	hvs      map[string]*tnode
	firstNew int
	seq0     int
	facts    []*Term
	hint     []*Term // assumed while the templates are being guessed, then dropped
	arC      map[int]Value
	arCond   *Term
	tent     []*Term // invariants assumed so far, checked at the end
}

func (s *summ) hv(n *tnode, w Sort, k *Term) *Term {
	return s.e.tt.App(n.name, w, append(append([]*Term{}, n.idx...), k)...)
}

func (e *Eng) loopName(st *State) string {
	if len(st.genk) > 0 {
		st.seq++
		return fmt.Sprintf("%s.L%d", strings.TrimPrefix(st.genk[len(st.genk)-1].Name, "k!"), st.seq)
	}
	return e.tt.FreshName("L")
}

func (e *Eng) summarise(st *State, fr *Frame, l *Loop, c *ctx) []Res {
	nm := e.loopName(st)
	s := &summ{e: e, l: l, name: nm, k: e.tt.Var("k!"+nm, S64), genk: st.genk, base: st, fr: fr, regs: map[int]*tnode{}, objs: map[int]*tnode{}, ar: map[int]Value{}, arN: map[string]int{}, hvs: map[string]*tnode{}}
	s.seq0 = st.seq
	s.cont = e.tt.True
	e.quiet++
	s.infer(c)
	e.quiet--
	if e.quiet == 0 {
		e.loopsSeen[s.pos()] = true
	}
	return s.final(c)
}

func sortedKeys(m map[int]Value) []int {
	var r []int
	for k := range m {
		r = append(r, k)
	}
	sort.Ints(r)
	return r
}

func sortedNodes(m map[int]*tnode) []int {
	var r []int
	for k := range m {
		r = append(r, k)
	}
	sort.Ints(r)
	return r
}

// build is the value of a location at the start of iteration k.
func (s *summ) build(st *State, n *tnode, k *Term) Value {
	e := s.e
	tt := e.tt
	if n.sol != nil {
		return n.sol(k)
	}
	switch n.kind {
	case '=':
		return n.init
	case 'S':
		switch x := n.init.(type) {
		case *StructV:
			f := make([]Value, len(x.F))
			for i := range f {
				f[i] = s.build(st, n.kids[i], k)
			}
			return &StructV{x.T, f}
		case *ArrV:
			f := make([]Value, len(x.E))
			for i := range f {
				f[i] = s.build(st, n.kids[i], k)
			}
			return &ArrV{f}
		case *StreamC:
			r := *x
			if n.kids[0] != nil {
				r.Left = s.build(st, n.kids[0], k).(*Term)
			}
			r.Pos = s.build(st, n.kids[1], k).(*Term)
			r.Short = s.build(st, n.kids[2], k).(*Term)
			return &r
		case *IterV:
			r := *x
			r.Pos = s.build(st, n.kids[0], k).(*Term)
			return &r
		case *RdrV:
			r := *x
			r.N = s.build(st, n.kids[0], k).(*Term)
			return &r
		}
	case 't':
		return s.hv(n, n.init.(*Term).S, k)
	case 'r':
		ix := append(append([]*Term{}, n.idx...), k)
		return e.cat(n.init.(*Rope), &Rope{[]Piece{{K: 'C', T: tt.App(n.name, SU, ix...), N: tt.Zext(64, tt.App(n.name+".len", SBV(32), ix...))}}})
	case 'w':
		// a byte array of fixed size with unknown contents
		ix := append(append([]*Term{}, n.idx...), k)
		r := n.init.(*Rope)
		return e.W(tt.App(n.name, SBV(r.P[0].T.S.W), ix...))
	case 'b':
		ix := append(append([]*Term{}, n.idx...), k)
		r := e.cat(e.bytesOf(s.base, n.init), &Rope{[]Piece{{K: 'C', T: tt.App(n.name, SU, ix...), N: tt.Zext(64, tt.App(n.name+".len", SBV(32), ix...))}}})
		st.heap[n.obj] = r
		ln := e.ropeLen(r)
		return SliceV{Ptr{Obj: n.obj}, tt.I(0), ln, ln}
	case 'l':
		ix := append(append([]*Term{}, n.idx...), k)
		ln := tt.Zext(64, tt.App(n.name+".len", SBV(32), ix...))
		st.heap[n.obj] = &SymArr{Len: ln}
		return SliceV{Ptr{Obj: n.obj}, tt.I(0), ln, ln}
	case 'a':
		return n.init
	case 's':
		x := n.init.(*StreamC)
		r := *x
		ps := append([]Piece{}, x.R.P...)
		if len(ps) > 0 && ps[0].K == 'R' {
			p := ps[0]
			p.Lo = tt.Add(p.Lo, k)
			ps[0] = p
		}
		r.R = &Rope{ps}
		return &r
	case 'P':
		p := n.init.(Ptr)
		q := Ptr{Obj: p.Obj}
		for i := range p.Path {
			pe := p.Path[i]
			if n.kids[i] != nil {
				pe.Idx = s.build(st, n.kids[i], k).(*Term)
			}
			q.Path = append(q.Path, pe)
		}
		return q
	case 'x':
		return poison
	}
	fail("template %c", n.kind)
	return nil
}

func (s *summ) node(kind byte, init Value, name string, reg bool) *tnode {
	return &tnode{kind: kind, init: init, name: "hv!" + s.name + "." + name, idx: s.genk, reg: reg}
}

// diff guesses the template of a location from its values at the start of the
// loop and after one iteration.
func (s *summ) diff(init, now Value, name string, reg bool) *tnode {
	e := s.e
	if e.sameV(init, now) {
		return s.node('=', init, name, reg)
	}
	switch x := init.(type) {
	case *Term:
		if y, ok := now.(*Term); ok && x.S == y.S {
			return s.node('t', init, name, reg)
		}
	case *StructV:
		if y, ok := now.(*StructV); ok && len(x.F) == len(y.F) {
			n := s.node('S', init, name, reg)
			for i := range x.F {
				n.kids = append(n.kids, s.diff(x.F[i], y.F[i], fmt.Sprintf("%s.%d", name, i), reg))
			}
			return n
		}
	case *ArrV:
		if y, ok := now.(*ArrV); ok && len(x.E) == len(y.E) {
			n := s.node('S', init, name, reg)
			for i := range x.E {
				n.kids = append(n.kids, s.diff(x.E[i], y.E[i], fmt.Sprintf("%s.%d", name, i), reg))
			}
			return n
		}
	case *Rope:
		if len(x.P) == 1 && x.P[0].K == 'W' {
			if y, ok := now.(*Rope); ok && len(y.P) == 1 && y.P[0].K == 'W' && y.P[0].T.S == x.P[0].T.S {
				return s.node('w', init, name, reg)
			}
		}
		return s.node('r', init, name, reg)
	case *SymArr:
		return s.node('a', init, name, reg)
	case SliceV:
		y, ok := now.(SliceV)
		if !ok {
			break
		}
		if samePtr(x.Base, y.Base) && x.Base.Obj != 0 {
			// the same array: parts are terms; not needed so far
			break
		}
		// only appended lists, recognised when solved
		kind := byte('l')
		if y.Base.Obj != 0 {
			if _, isR := e.curSt.heap[y.Base.Obj].(*Rope); isR {
				kind = 'b'
			}
		}
		n := s.node(kind, init, name, reg)
		e.nobj++
		n.obj = e.nobj
		return n
	case Ptr:
		if y, ok := now.(Ptr); ok && x.Obj == y.Obj && len(x.Path) == len(y.Path) && x.Obj != 0 {
			n := s.node('P', init, name, reg)
			for i := range x.Path {
				a, b := x.Path[i], y.Path[i]
				if a == b {
					n.kids = append(n.kids, nil)
					continue
				}
				if a.Idx == nil || b.Idx == nil || a.Idx.S != b.Idx.S {
					return s.node('x', init, name, reg)
				}
				n.kids = append(n.kids, s.node('t', a.Idx, fmt.Sprintf("%s.p%d", name, i), reg))
			}
			return n
		}
	case *StreamC:
		if y, ok := now.(*StreamC); ok {
			if x.Any {
				n := s.node('S', init, name, reg)
				if x.Left == nil {
					n.kids = append(n.kids, nil)
				} else {
					n.kids = append(n.kids, s.diff(x.Left, y.Left, name+".left", reg))
				}
				n.kids = append(n.kids, s.diff(x.Pos, y.Pos, name+".pos", reg), s.diff(x.Short, y.Short, name+".short", reg))
				return n
			}
			n := s.node('s', init, name, reg)
			if len(x.R.P) > 0 && x.R.P[0].K == 'R' {
				// elements are taken one by one while there are any (checked
				// to be inductive like everything else)
				p := x.R.P[0]
				if s.base.prove(e.tt.Ule(p.Lo, p.Hi)) {
					f := e.tt.Ule(e.tt.Add(p.Lo, s.k), p.Hi)
					s.inv = append(s.inv, f)
					s.tent = append(s.tent, f)
					s.hint = append(s.hint, e.tt.Ult(e.tt.Add(p.Lo, s.k), p.Hi))
				}
			}
			return n
		}
	case *IterV:
		if y, ok := now.(*IterV); ok && x.Map == y.Map {
			n := s.node('S', init, name, reg)
			n.kids = append(n.kids, s.diff(x.Pos, y.Pos, name+".pos", reg))
			return n
		}
	case *RdrV:
		if y, ok := now.(*RdrV); ok && x.Kind == y.Kind && (x.Buf == nil || e.sameV(x.Buf, y.Buf)) {
			n := s.node('S', init, name, reg)
			n.kids = append(n.kids, s.diff(x.N, y.N, name+".n", reg))
			return n
		}
	}
	return s.node('x', init, name, reg)
}

type solveCtx struct {
	backs  []Res // states at the end of the iteration
	conds  []*Term
	terms  bool // only terms are solved in this round
	force  bool
	solved bool
	open   int
	failed string
}

// hasHV: mentions of unsolved templates other than own.
func (s *summ) unsolvedIn(t *Term, own string) bool {
	seen := map[*Term]bool{}
	var w func(t *Term) bool
	w = func(t *Term) bool {
		if seen[t] {
			return false
		}
		seen[t] = true
		if t.Op == OApp && strings.HasPrefix(t.Name, "hv!"+s.name+".") && t.Name != own {
			if n := s.hvs[strings.TrimSuffix(t.Name, ".len")]; n == nil || n.sol == nil && !n.rec {
				return true
			}
		}
		for _, a := range t.Args {
			if w(a) {
				return true
			}
		}
		return false
	}
	return w(t)
}

func mentions(t *Term, name string) bool {
	seen := map[*Term]bool{}
	var w func(t *Term) bool
	w = func(t *Term) bool {
		if seen[t] {
			return false
		}
		seen[t] = true
		if t.Op == OApp && t.Name == name {
			return true
		}
		for _, a := range t.Args {
			if w(a) {
				return true
			}
		}
		return false
	}
	return w(t)
}

func (e *Eng) delta(now, was *Term) *Term {
	tt := e.tt
	if now == was {
		return tt.BV(was.S.W, 0)
	}
	if now.Op == OIte {
		return tt.Ite(now.Args[0], e.delta(now.Args[1], was), e.delta(now.Args[2], was))
	}
	return tt.Sub(now, was)
}

// register notes the names of all template terms.
func (s *summ) register(n *tnode) {
	s.hvs[n.name] = n
	for _, c := range n.kids {
		if c != nil {
			s.register(c)
		}
	}
}

// merged value of a location over the back edges.
func (s *summ) mergeVals(vals []Value, conds []*Term) (Value, bool) {
	v := vals[len(vals)-1]
	for i := len(vals) - 2; i >= 0; i-- {
		if s.e.sameV(vals[i], v) {
			continue
		}
		m, ok := s.e.merge(conds[i], vals[i], v)
		if !ok {
			return nil, false
		}
		v = m
	}
	return v, true
}

// solve tries to determine a template from the values after the iteration.
func (s *summ) solve(n *tnode, cur Value, vals []Value, sc *solveCtx) {
	e := s.e
	tt := e.tt
	k1 := tt.Add(s.k, tt.I(1))
	switch n.kind {
	case '=':
		for _, v := range vals {
			if !e.sameV(v, n.init) {
				sc.failed = "unexpected change"
			}
		}
		return
	case 'x':
		n.rec = true
		return
	case 'S':
		for i, kid := range n.kids {
			if kid == nil {
				continue
			}
			var kv []Value
			for _, v := range vals {
				p, ok := partOf(v, i)
				if !ok {
					sc.failed = "shape changed"
					return
				}
				kv = append(kv, p)
			}
			cp, _ := partOf(cur, i)
			if kid.kind == '=' {
				same := true
				for _, v := range kv {
					if !e.sameV(v, kid.init) {
						same = false
					}
				}
				if !same {
					m, ok := s.mergeVals(kv, sc.conds)
					if !ok {
						m = kv[0]
						if e.sameV(m, kid.init) {
							m = kv[len(kv)-1]
						}
					}
					nk := s.diff(kid.init, m, strings.TrimPrefix(kid.name, "hv!"+s.name+"."), kid.reg)
					n.kids[i] = nk
					s.register(nk)
					sc.solved = true
				}
				continue
			}
			s.solve(kid, cp, kv, sc)
		}
		return
	case 'P':
		for i, kid := range n.kids {
			var kv []Value
			for _, v := range vals {
				p, ok := v.(Ptr)
				if !ok || p.Obj != n.init.(Ptr).Obj || len(p.Path) != len(n.kids) {
					sc.failed = "pointer shape"
					return
				}
				if kid == nil {
					if p.Path[i] != n.init.(Ptr).Path[i] {
						sc.failed = "pointer shape"
						return
					}
					continue
				}
				kv = append(kv, p.Path[i].Idx)
			}
			if kid != nil {
				s.solve(kid, cur.(Ptr).Path[i].Idx, kv, sc)
			}
		}
		return
	case 't':
		m, ok := s.mergeVals(vals, sc.conds)
		if !ok {
			sc.failed = "terms"
			return
		}
		now := m.(*Term)
		x := cur.(*Term)
		init := n.init.(*Term)
		if n.rec {
			n.upd = now
			return
		}
		if n.sol != nil {
			// check
			want := n.sol(k1).(*Term)
			if want == now {
				return
			}
			for _, b := range sc.backs {
				if !b.st.prove(tt.Eq(want, now)) {
					n.sol = nil
					n.rec = true
					sc.solved = true
					return
				}
			}
			return
		}
		if s.unsolvedIn(now, n.name) && !sc.force {
			sc.open++
			return
		}
		if init.S.K == KBV {
			d := e.delta(now, x)
			if !mentions(d, n.name) {
				if d.IsConst() {
					w := init.S.W
					n.sol = func(k *Term) Value {
						kk := k
						if w < 64 {
							kk = tt.Extract(w-1, 0, k)
						} else if w > 64 {
							kk = tt.Zext(w, k)
						}
						return tt.Add(init, tt.Mul(d, kk))
					}
					sc.solved = true
					return
				}
				if sc.terms {
					sc.open++
					return
				}
				if init.S.W == 64 {
					if d.Op == OIte && isOne(d.Args[1]) && isZero(d.Args[2]) {
						c := d.Args[0]
						n.sol = func(k *Term) Value { return tt.Add(init, tt.Count(k, s.k, c)) }
						sc.solved = true
						return
					}
					if d.Op == OIte && isOne(d.Args[2]) && isZero(d.Args[1]) {
						c := tt.Not(d.Args[0])
						n.sol = func(k *Term) Value { return tt.Add(init, tt.Count(k, s.k, c)) }
						sc.solved = true
						return
					}
					n.sol = func(k *Term) Value { return tt.Add(init, tt.SumT(k, s.k, d)) }
					sc.solved = true
					return
				}
			}
		}
		if init.S.K == KBool && !sc.terms {
			a := tt.Subst(now, map[*Term]*Term{x: tt.True})
			b := tt.Subst(now, map[*Term]*Term{x: tt.False})
			if !mentions(a, n.name) && !mentions(b, n.name) {
				if b.IsFalse() {
					n.sol = func(k *Term) Value { return tt.And(init, tt.Forall(k, s.k, a)) }
					sc.solved = true
					return
				}
				if a.IsTrue() {
					n.sol = func(k *Term) Value { return tt.Or(init, tt.Not(tt.Forall(k, s.k, tt.Not(b)))) }
					sc.solved = true
					return
				}
			}
		}
		if sc.terms {
			sc.open++
			return
		}
		n.rec = true
		n.upd = now
		sc.solved = true
		return
	case 'w':
		n.rec = true
		return
	}
	if sc.terms {
		if n.sol == nil && !n.rec {
			sc.open++
		}
		if n.sol == nil || n.kind == 's' {
			return
		}
	}
	switch n.kind {
	case 'r', 'b':
		var cr *Rope
		if n.kind == 'b' {
			cr = sc.backs[0].st.heap[n.obj].(*Rope)
		} else {
			cr = cur.(*Rope)
		}
		var bodies []*Rope
		for i, v := range vals {
			var r *Rope
			if n.kind == 'b' {
				sv, ok := v.(SliceV)
				if !ok {
					sc.failed = "bytes"
					return
				}
				r = e.bytesOf(sc.backs[i].st, sv)
			} else {
				r = v.(*Rope)
			}
			b, ok := e.afterPrefix(r, cr)
			if !ok {
				// rewritten as a whole: not used across iterations
				n.kind, n.rec, n.sol = 'x', true, nil
				sc.solved = true
				return
			}
			bodies = append(bodies, b)
		}
		body := bodies[len(bodies)-1]
		for i := len(bodies) - 2; i >= 0; i-- {
			if sameRopeRaw(bodies[i], body) {
				continue
			}
			m, ok := e.merge(sc.conds[i], e.compactR(bodies[i]), e.compactR(body))
			if !ok {
				sc.failed = "different extensions"
				return
			}
			body = m.(*Rope)
		}
		if n.sol != nil {
			if !sameRopeRaw(body, n.prevBody.(*Rope)) && len(body.P) > 0 {
				if e.ropeEq(sc.backs[0].st, body, n.prevBody.(*Rope)).IsTrue() {
					return
				}
				n.sol = nil
				sc.solved = true
				sc.open++
			}
			return
		}
		n.prevBody = body
		if body.mentions(n.name) {
			sc.failed = "extension depends on itself"
			return
		}
		bv := e.ropeVar(ropeDepth(body))
		lb := e.subRope(body, e.newSub(map[*Term]*Term{s.k: bv}))
		var init *Rope
		if n.kind == 'b' {
			init = e.bytesOf(s.base, n.init)
		} else {
			init = n.init.(*Rope)
		}
		mk := func(k *Term) *Rope {
			if isZero(k) {
				return init
			}
			return e.cat(init, &Rope{[]Piece{{K: 'R', Lo: tt.I(0), Hi: k, BV: bv, Body: lb}}})
		}
		if len(body.P) == 0 {
			mk = func(k *Term) *Rope { return init }
		}
		if n.kind == 'b' {
			n.sol = func(k *Term) Value {
				r := mk(k)
				e.curSt.heap[n.obj] = r
				ln := e.ropeLen(r)
				return SliceV{Ptr{Obj: n.obj}, tt.I(0), ln, ln}
			}
		} else {
			n.sol = func(k *Term) Value { return mk(k) }
		}
		sc.solved = true
	case 's':
		// check the guess
		for _, v := range vals {
			want := s.build(sc.backs[0].st, n, k1)
			if !e.sameV(e.compactStream(v.(*StreamC)), e.compactStream(want.(*StreamC))) {
				sc.failed = "stream is not consumed piece by piece: " + e.ropeStr(v.(*StreamC).R) + " expected " + e.ropeStr(want.(*StreamC).R)
				return
			}
		}
		n.rec = true
	case 'a':
		s.solveArr(n, cur.(*SymArr), vals, sc)
	case 'l':
		s.solveList(n, cur.(SliceV), vals, sc)
	default:
		sc.failed = fmt.Sprintf("template %c", n.kind)
	}
}

func (e *Eng) compactStream(x *StreamC) *StreamC {
	r := *x
	if r.R != nil {
		var ps []Piece
		for _, p := range r.R.P {
			if p.K == 'R' && p.Lo == p.Hi {
				continue
			}
			ps = append(ps, p)
		}
		r.R = &Rope{ps}
	}
	return &r
}

func isOne(t *Term) bool { c, ok := t.CU(); return ok && c == 1 }

func partOf(v Value, i int) (Value, bool) {
	switch x := v.(type) {
	case *StructV:
		return x.F[i], true
	case *ArrV:
		return x.E[i], true
	case *StreamC:
		return []Value{x.Left, x.Pos, x.Short}[i], true
	case *IterV:
		return x.Pos, true
	case *RdrV:
		return x.N, true
	}
	return nil, false
}

func (r *Rope) mentions(name string) bool {
	for _, p := range r.P {
		for _, t := range []*Term{p.T, p.N, p.Lo, p.Hi} {
			if t != nil && (mentions(t, name) || mentions(t, name+".len")) {
				return true
			}
		}
		if p.Body != nil && p.Body.mentions(name) {
			return true
		}
	}
	return false
}

// afterPrefix: what follows a prefix, allowing the last words to be merged.
func (e *Eng) afterPrefix(r, pre *Rope) (*Rope, bool) {
	if len(pre.P) == 0 {
		return r, true
	}
	return e.stripPrefix(r, pre)
}

// closeOver replaces objects created in the iteration by objects indexed by
// the iteration.
func (s *summ) closeOver(st *State, v Value, hint string, seen map[int]Ptr) Value {
	e := s.e
	obj := func(id int) (Ptr, bool) {
		if id == 0 || id <= s.firstNew {
			return Ptr{}, false
		}
		if _, ok := s.base.heap[id]; ok {
			return Ptr{}, false
		}
		if _, ok := s.ar[id]; ok {
			return Ptr{}, false
		}
		if p, ok := seen[id]; ok {
			return p, true
		}
		for _, k := range e.arenaIDs() {
			if k == id {
				return Ptr{}, false
			}
		}
		nm := fmt.Sprintf("ar!%s.%s.%d", s.name, hint, len(seen))
		aid, ok := e.arenas[nm]
		if !ok {
			e.nobj++
			aid = e.nobj
			e.arenas[nm] = aid
		}
		var path []PE
		for _, g := range s.genk {
			path = append(path, PE{Idx: g})
		}
		path = append(path, PE{Idx: s.k})
		p := Ptr{Obj: aid, Path: path}
		seen[id] = p
		c := s.closeOver(st, st.heap[id], hint, seen)
		if old, ok := s.arC[aid]; ok && s.arCond != nil && !e.sameV(old, c) {
			m, ok := e.merge(s.arCond, c, old)
			if !ok {
				fail("loop at %s: objects of different shape", s.pos())
			}
			c = m
		}
		s.arC[aid] = c
		// contents as a function of all the indices
		idx := append(append([]*Term{}, s.genk...), s.k)
		for i := len(idx) - 1; i >= 0; i-- {
			c = &SymArr{Len: e.tt.BV(64, 1<<40), Base: e.lam(c, idx[i])}
		}
		s.ar[aid] = c
		return p, true
	}
	switch x := v.(type) {
	case Ptr:
		if p, ok := obj(x.Obj); ok {
			return Ptr{p.Obj, append(append([]PE{}, p.Path...), x.Path...)}
		}
		return x
	case SliceV:
		if p, ok := obj(x.Base.Obj); ok {
			return SliceV{Ptr{p.Obj, append(append([]PE{}, p.Path...), x.Base.Path...)}, x.Off, x.Len, x.Cap}
		}
		return x
	case MapRef, ChanRef, FuncV:
		return x
	case IfaceV:
		return IfaceV{x.T, s.closeOver(st, x.V, hint, seen)}
	case *StructV:
		f := make([]Value, len(x.F))
		for i := range f {
			f[i] = s.closeOver(st, x.F[i], hint, seen)
		}
		return &StructV{x.T, f}
	case *ArrV:
		f := make([]Value, len(x.E))
		for i := range f {
			f[i] = s.closeOver(st, x.E[i], hint, seen)
		}
		return &ArrV{f}
	case *SymArr:
		r := &SymArr{Len: x.Len}
		if x.Base != nil {
			r.Base = &Lam{x.Base.K, s.closeOver(st, x.Base.V, hint, seen)}
		}
		for _, l := range x.Layers {
			m := l
			if l.L != nil {
				m.L = &Lam{l.L.K, s.closeOver(st, l.L.V, hint, seen)}
			}
			if l.V != nil {
				m.V = s.closeOver(st, l.V, hint, seen)
			}
			r.Layers = append(r.Layers, m)
		}
		return r
	}
	return v
}

func (e *Eng) arenaIDs() []int {
	var r []int
	for _, v := range e.arenas {
		r = append(r, v)
	}
	return r
}

func (s *summ) valMentions(v Value, name string) bool {
	switch x := v.(type) {
	case *Term:
		return mentions(x, name)
	case *StructV:
		for _, f := range x.F {
			if s.valMentions(f, name) {
				return true
			}
		}
	case *Rope:
		return x.mentions(name)
	case SliceV:
		return mentions(x.Len, name)
	}
	return false
}

// solveArr: a list whose elements are written one per iteration, in order.
func (s *summ) solveArr(n *tnode, cur *SymArr, vals []Value, sc *solveCtx) {
	e := s.e
	tt := e.tt
	same := true
	for _, v := range vals[1:] {
		same = same && e.sameV(v, vals[0])
	}
	now, ok := vals[0].(*SymArr)
	if !ok {
		sc.failed = "list shape"
		return
	}
	init := n.init.(*SymArr)
	if n.sol != nil && same && e.sameV(now, n.sol(tt.Add(s.k, tt.I(1)))) {
		return
	}
	nl := len(cur.Layers)
	var w Layer
	var v Value
	for i := range vals {
		now, ok := vals[i].(*SymArr)
		if !ok || len(now.Layers) != nl+1 || now.Layers[nl].Hi != nil {
			sc.failed = "list is not written once per iteration"
			return
		}
		x := now.Layers[nl]
		if i == 0 {
			w = x
			s.arC, s.arCond = map[int]Value{}, nil
			v = s.closeOver(sc.backs[0].st, w.V, n.name, map[int]Ptr{})
			if same {
				break
			}
			continue
		}
		if x.Lo != w.Lo {
			sc.failed = "list written at different places on several paths"
			return
		}
		s.arCond = sc.conds[i]
		y := s.closeOver(sc.backs[i].st, x.V, n.name, map[int]Ptr{})
		if !e.sameV(v, y) {
			m, ok := e.merge(sc.conds[i], y, v)
			if !ok {
				sc.failed = "list written differently on several paths"
				return
			}
			v = m
		}
	}
	lo := tt.Subst(w.Lo, map[*Term]*Term{s.k: tt.I(0)})
	if tt.Add(lo, s.k) != w.Lo {
		if s.unsolvedIn(w.Lo, "") {
			sc.open++
			return
		}
		for _, b := range sc.backs {
			if !b.st.prove(tt.Eq(w.Lo, tt.Add(lo, s.k))) {
				sc.failed = "list index " + tt.Str(w.Lo)
				return
			}
		}
	}
	lam := e.lam(e.subV(v, e.newSub(map[*Term]*Term{s.k: tt.Sub(s.k, lo)})), s.k)
	if n.sol != nil {
		if e.sameLam(n.lamV, lam) {
			return
		}
	}
	n.lamV = lam
	n.sol = func(k *Term) Value {
		r := &SymArr{Len: init.Len, Base: init.Base, Layers: append([]Layer{}, init.Layers...)}
		if isZero(k) {
			return r
		}
		r.Layers = append(r.Layers, Layer{Lo: lo, Hi: tt.Add(lo, k), L: lam})
		return r
	}
	sc.solved = true
}

// solveList: a list that is appended to, in every iteration or in those that
// meet a condition.
func (s *summ) solveList(n *tnode, cur SliceV, vals []Value, sc *solveCtx) {
	e := s.e
	tt := e.tt
	var c *Term = tt.False
	var elem Value
	var est *State
	for i, v := range vals {
		sv, ok := v.(SliceV)
		if !ok {
			sc.failed = "list"
			return
		}
		if samePtr(sv.Base, cur.Base) && sv.Len == cur.Len {
			continue // not extended on this path
		}
		now, ok := sc.backs[i].st.heap[sv.Base.Obj].(*SymArr)
		was, ok2 := sc.backs[i].st.heap[n.obj].(*SymArr)
		if !ok || !ok2 || !isZero(sv.Off) || sv.Len != tt.Add(cur.Len, tt.I(1)) {
			// replaced as a whole: not used across iterations
			n.kind, n.rec, n.sol = 'x', true, nil
			sc.solved = true
			return
		}
		var el Value
		nl := len(was.Layers)
		if len(now.Layers) == nl+1 && now.Layers[nl].Hi == nil && now.Layers[nl].Lo == cur.Len {
			el = now.Layers[nl].V
		} else if len(now.Layers) == nl && nl > 0 && now.Layers[nl-1].Hi == sv.Len && n.lamV != nil {
			el = e.apply(n.lamV, s.k) // folded: the same function
			if n.cnd != nil {
				sc.failed = "list folded"
				return
			}
		} else {
			sc.failed = "list is not appended to"
			return
		}
		if elem == nil {
			s.arC, s.arCond = map[int]Value{}, nil
		} else {
			s.arCond = sc.conds[i]
		}
		el = s.closeOver(sc.backs[i].st, el, n.name, map[int]Ptr{})
		if elem != nil && !e.sameV(elem, el) {
			m, ok := e.merge(sc.conds[i], el, elem)
			if !ok {
				sc.failed = "different elements"
				return
			}
			el = m
		}
		elem = el
		est = sc.backs[i].st
		c = tt.Or(c, sc.conds[i])
	}
	_ = est
	if elem == nil {
		sc.failed = "list not extended"
		return
	}
	every := true
	for _, v := range vals {
		sv := v.(SliceV)
		if samePtr(sv.Base, cur.Base) && sv.Len == cur.Len {
			every = false
		}
	}
	if n.sol != nil {
		if e.sameV(e.apply(n.lamV, s.k), elem) {
			return
		}
	}
	init := n.init.(SliceV)
	ia := e.asSym(s.base, init, nil)
	lo := init.Len
	n.lamV = e.lam(elem, s.k)
	if every {
		body := e.lam(e.subV(elem, e.newSub(map[*Term]*Term{s.k: tt.Sub(s.k, lo)})), s.k)
		n.cnd = nil
		n.sol = func(k *Term) Value {
			ln := tt.Add(lo, k)
			a := &SymArr{Len: ln, Base: ia.Base, Layers: append([]Layer{}, ia.Layers...)}
			if !isZero(k) {
				a.Layers = append(a.Layers, Layer{Lo: lo, Hi: ln, L: body})
			}
			e.curSt.heap[n.obj] = a
			return SliceV{Ptr{Obj: n.obj}, tt.I(0), ln, ln}
		}
		sc.solved = true
		return
	}
	n.cnd = c
	sel := func(i *Term) *Term {
		return tt.App("sel"+n.name, S64, append(append([]*Term{}, n.idx...), i)...)
	}
	iv := tt.Var("k!sel"+s.name, S64)
	body := e.lam(e.subV(elem, e.newSub(map[*Term]*Term{s.k: sel(tt.Sub(iv, lo))})), iv)
	n.sol = func(k *Term) Value {
		cnt := tt.Count(k, s.k, c)
		ln := tt.Add(lo, cnt)
		a := &SymArr{Len: ln, Base: ia.Base, Layers: append([]Layer{}, ia.Layers...)}
		if !isZero(k) {
			a.Layers = append(a.Layers, Layer{Lo: lo, Hi: ln, L: body})
		}
		e.curSt.heap[n.obj] = a
		si := sel(iv)
		f := tt.And(tt.Ult(si, k), tt.Subst(c, map[*Term]*Term{s.k: si}))
		e.curSt.assume(tt.Forall(cnt, iv, f))
		e.curSt.assume(tt.Ule(cnt, k))
		return SliceV{Ptr{Obj: n.obj}, tt.I(0), ln, ln}
	}
	sc.solved = true
}

func (s *summ) infer(c *ctx) {
	e := s.e
	tt := e.tt
	force := false
	for round := 0; ; round++ {
		if round > 24 {
			fail("no invariant found for the loop at %s", s.pos())
		}
		s.firstNew = e.nobj
		st, fr := s.startAt()
		for _, h := range s.hint {
			st.assume(h)
		}
		npc := len(st.pc)
		nregs := map[int]Value{}
		for i := range s.regs {
			nregs[i] = fr.regs[i]
		}
		curH := map[int]Value{}
		for o := range s.objs {
			curH[o] = st.heap[o]
		}
		if round == 0 {
			// the first iteration, to see what changes at all
			st = s.base.fork()
			st.genk = append(append([]*Term{}, s.genk...), s.k)
			st.seq = 0
			fr = s.fr.fork()
			npc = len(st.pc)
		}
		var backs []Res
		for _, r := range e.runAfterPhis(st, fr, s.l.head, &ctx{up: c, stop: s.l.head, loop: s.l}) {
			if r.k == rStop && r.blk == s.l.head {
				backs = append(backs, r)
			}
		}
		backs = e.mergeAll(backs, s.l.head, npc)
		if len(backs) == 0 {
			if round == 0 {
				continue
			}
			// the loop is never repeated
			s.cont = tt.False
			return
		}
		sc := &solveCtx{backs: backs, force: force}
		cont := tt.False
		for _, b := range backs {
			d := tt.And(b.st.pc[npc:]...)
			sc.conds = append(sc.conds, d)
			cont = tt.Or(cont, d)
		}
		s.cont = cont
		if e.debugLoop {
			fmt.Printf("loop %s %s round %d: %d back edges\n", s.name, s.pos(), round, len(backs))
		}
		// new locations
		fresh := false
		for _, in := range s.l.head.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			i := fr.fi.idx[ph]
			if s.regs[i] != nil {
				continue
			}
			for _, b := range backs {
				if !e.sameV(b.fr.regs[i], s.fr.regs[i]) {
					e.curSt = b.st
					n := s.diff(s.fr.regs[i], b.fr.regs[i], ph.Name()+"r", true)
					s.regs[i] = n
					s.register(n)
					fresh = true
					break
				}
			}
		}
		for _, b := range backs {
			var ids []int
			for id := range b.st.heap {
				ids = append(ids, id)
			}
			sort.Ints(ids)
			for _, id := range ids {
				was, ok := s.base.heap[id]
				if !ok || s.objs[id] != nil {
					continue
				}
				v := b.st.heap[id]
				if identical(was, v) || e.sameV(was, v) {
					continue
				}
				e.curSt = b.st
				n := s.diff(was, v, fmt.Sprintf("o%d", id), false)
				s.objs[id] = n
				s.register(n)
				fresh = true
			}
		}
		if fresh {
			force = false
			continue
		}
		if round == 0 {
			continue
		}
		// terms first
		run := func(terms bool) {
			sc.terms = terms
			sc.open = 0
			for _, i := range sortedNodes(s.regs) {
				n := s.regs[i]
				var vals []Value
				for _, b := range backs {
					vals = append(vals, b.fr.regs[i])
				}
				e.curSt = backs[0].st
				s.solve(n, nregs[i], vals, sc)
				if n.kind == 'x' && false {
					return
				}
			}
			for _, o := range sortedNodes(s.objs) {
				var vals []Value
				for _, b := range backs {
					vals = append(vals, b.st.heap[o])
				}
				e.curSt = backs[0].st
				s.solve(s.objs[o], curH[o], vals, sc)
			}
		}
		run(true)
		if sc.failed != "" {
			fail("loop at %s: %s", s.pos(), sc.failed)
		}
		inv := s.houdini(backs, npc)
		if sc.solved || inv {
			force = false
			continue
		}
		if len(s.hint) > 0 {
			s.hint = nil
			continue
		}
		run(false)
		if sc.failed != "" {
			fail("loop at %s: %s", s.pos(), sc.failed)
		}
		if sc.solved {
			force = false
			continue
		}
		if sc.open > 0 {
			if force {
				fail("loop at %s: unresolved locations", s.pos())
			}
			force = true
			continue
		}
		for _, f := range s.tent {
			f1 := tt.Subst(f, map[*Term]*Term{s.k: tt.Add(s.k, tt.I(1))})
			for _, b := range backs {
				if !b.st.prove(f1) {
					fail("loop at %s: more elements may be taken than there are", s.pos())
				}
			}
		}
		return
	}
}

func (s *summ) pos() string {
	for _, b := range s.l.head.Parent().Blocks {
		if !s.l.body[b] {
			continue
		}
		for _, in := range b.Instrs {
			if in.Pos().IsValid() {
				return posStr(s.e.prog.fset, in.Pos())
			}
		}
	}
	return s.l.head.Parent().String()
}

func (s *summ) startAt() (*State, *Frame) {
	st := s.base.fork()
	s.e.curSt = st
	fr := s.fr.fork()
	st.genk = append(append([]*Term{}, s.genk...), s.k)
	st.seq = 0
	for _, id := range sortedKeys(s.ar) {
		st.heap[id] = s.ar[id]
	}
	for _, i := range sortedNodes(s.regs) {
		fr.regs[i] = s.build(st, s.regs[i], s.k)
	}
	for _, o := range sortedNodes(s.objs) {
		st.heap[o] = s.build(st, s.objs[o], s.k)
	}
	for _, f := range s.inv {
		st.assume(f)
	}
	return st, fr
}

// houdini looks for bounds on the iteration that are inductive.
func (s *summ) houdini(backs []Res, npc int) bool {
	e := s.e
	tt := e.tt
	cands := map[*Term]bool{}
	add := func(a, b *Term, signed bool) {
		if !occurs(s.k, a) || occurs(s.k, b) || s.unsolvedIn(a, "") || s.unsolvedIn(b, "") {
			return
		}
		for _, n := range s.hvs {
			if n.sol == nil && (mentions(a, n.name) || mentions(b, n.name)) {
				return
			}
		}
		if signed {
			cands[tt.Sle(a, b)] = true
		} else {
			cands[tt.Ule(a, b)] = true
		}
		if b.S.W <= 64 {
			cands[tt.Ule(s.k, tt.Zext(64, b))] = true
		}
	}
	for _, b := range backs {
		for _, p := range b.st.pc[npc:] {
			q, neg := p, false
			if q.Op == ONot {
				q, neg = q.Args[0], true
			}
			switch q.Op {
			case OUlt, OSlt, OUle, OSle:
				x, y := q.Args[0], q.Args[1]
				sg := q.Op == OSlt || q.Op == OSle
				if neg {
					x, y = y, x
				}
				add(x, y, sg)
			}
		}
	}
	found := false
	var cs []*Term
	for c := range cands {
		cs = append(cs, c)
	}
	sort.Slice(cs, func(i, j int) bool { return cs[i].ID < cs[j].ID })
	for _, c := range cs {
		known := c.IsTrue()
		for _, f := range s.inv {
			if f == c {
				known = true
			}
		}
		if known {
			continue
		}
		c0 := tt.Subst(c, map[*Term]*Term{s.k: tt.I(0)})
		if !s.base.prove(c0) {
			continue
		}
		c1 := tt.Subst(c, map[*Term]*Term{s.k: tt.Add(s.k, tt.I(1))})
		ok := true
		for _, b := range backs {
			if !b.st.proveIn([]*Term{c}, c1) {
				ok = false
				break
			}
		}
		if ok {
			s.inv = append(s.inv, c)
			found = true
		}
	}
	return found
}

// final runs the body once more in an arbitrary iteration, with everything
// that is known about the earlier ones, and keeps the ways out.
func (s *summ) final(c *ctx) []Res {
	e := s.e
	tt := e.tt
	st, fr := s.startAt()
	cont := s.cont
	var facts []*Term
	var recs func(n *tnode)
	k1 := tt.Add(s.k, tt.I(1))
	recs = func(n *tnode) {
		if n.kind == 't' && n.rec && n.upd != nil && (n.reg || mentions(n.upd, n.name)) {
			facts = append(facts, tt.Eq(s.hv(n, n.upd.S, k1), n.upd))
			st.assume(tt.Eq(s.hv(n, n.upd.S, tt.I(0)), n.init.(*Term)))
			// the last step, for the solver
			z := tt.Eq(s.k, tt.I(0))
			m := tt.Sub(s.k, tt.I(1))
			st.assume(tt.Or(z, tt.Eq(s.hv(n, n.upd.S, s.k), tt.Subst(n.upd, map[*Term]*Term{s.k: m}))))
		}
		for _, x := range n.kids {
			if x != nil {
				recs(x)
			}
		}
	}
	for _, i := range sortedNodes(s.regs) {
		recs(s.regs[i])
	}
	for _, o := range sortedNodes(s.objs) {
		recs(s.objs[o])
	}
	cont = tt.And(append(facts, cont)...)
	if cont.IsFalse() {
		st.assume(tt.Eq(s.k, tt.I(0)))
	} else {
		st.assume(tt.Forall(s.k, s.k, cont))
		z := tt.Eq(s.k, tt.I(0))
		pm := tt.Subst(cont, map[*Term]*Term{s.k: tt.Sub(s.k, tt.I(1))})
		st.assume(tt.Or(z, pm))
	}
	npc := len(st.pc)
	_ = npc
	var out []Res
	for _, r := range e.runAfterPhis(st, fr, s.l.head, &ctx{up: c, stop: s.l.head, loop: s.l}) {
		if r.k == rStop && r.blk == s.l.head {
			continue
		}
		r.st.genk = s.genk
		r.st.seq = s.base.seq
		if r.k != rPanic {
			s.normalise(&r)
		}
		out = append(out, r)
	}
	return out
}

// normalise replaces the number of the last iteration by the term it is known
// to equal.
func (s *summ) normalise(r *Res) {
	e := s.e
	tt := e.tt
	var cands []*Term
	seen := map[*Term]bool{}
	add := func(t *Term) {
		if t.S == S64 && !seen[t] && !occurs(s.k, t) {
			seen[t] = true
			cands = append(cands, t)
		} else if t.S.K == KBV && t.S.W < 64 && !occurs(s.k, t) && !seen[t] {
			seen[t] = true
			cands = append(cands, tt.Zext(64, t))
		}
	}
	for _, p := range r.st.pc {
		q := p
		if q.Op == ONot {
			q = q.Args[0]
		}
		switch q.Op {
		case OUlt, OSlt, OUle, OSle, OEq:
			if len(q.Args) == 2 && q.Args[0].S.K == KBV {
				if occurs(s.k, q.Args[0]) != occurs(s.k, q.Args[1]) {
					add(q.Args[0])
					add(q.Args[1])
				}
			}
		}
	}
	var to *Term
	for _, t := range cands {
		if t.fb {
			continue
		}
		if r.st.prove(tt.Eq(s.k, t)) {
			to = t
			break
		}
	}
	if to == nil && len(s.genk) > 0 {
		to = tt.App("N!"+s.name, S64, s.genk...)
	}
	if to == nil {
		return
	}
	sub := e.newSub(map[*Term]*Term{s.k: to})
	n := e.subState(r.st, sub)
	n.genk, n.seq, n.trace, n.gov = r.st.genk, r.st.seq, r.st.trace, r.st.gov
	r.st = n
	f := r.fr.fork()
	for i, v := range f.regs {
		if v != nil {
			f.regs[i] = e.subV(v, sub)
		}
	}
	for i := range f.defers {
		_ = i
	}
	r.fr = f
	if r.val != nil {
		r.val = e.subV(r.val, sub)
	}
}

var _ = types.Identical
