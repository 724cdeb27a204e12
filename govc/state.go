package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// State: the heap and the path condition of one path.
type State struct {
	e    *Eng
	heap map[int]Value
	pc   []*Term
	pcs  map[*Term]bool
	seq  int
	// deferred effects
	genk   []*Term  // indices of the generic iterations being run
	trace  []string // forks taken, for reports
	gov    []Value  // goroutine bodies started, when recorded
	shared bool
	now    []*Term // the last reading of the clock
}

func (e *Eng) newState() *State {
	return &State{e: e, heap: map[int]Value{}, pcs: map[*Term]bool{}}
}

func (st *State) fork() *State {
	n := &State{e: st.e, genk: st.genk, seq: st.seq, now: st.now}
	n.heap = make(map[int]Value, len(st.heap)+8)
	for k, v := range st.heap {
		n.heap[k] = v
	}
	n.pc = append([]*Term{}, st.pc...)
	n.pcs = make(map[*Term]bool, len(st.pcs)+4)
	for k := range st.pcs {
		n.pcs[k] = true
	}
	n.trace = st.trace[:len(st.trace):len(st.trace)]
	n.gov = st.gov[:len(st.gov):len(st.gov)]
	return n
}

func (st *State) note(f string, a ...interface{}) {
	st.trace = append(st.trace[:len(st.trace):len(st.trace)], fmt.Sprintf(f, a...))
}

func (st *State) assume(c *Term) {
	if c.IsTrue() || st.pcs[c] {
		return
	}
	if c.Op == OAnd {
		for _, x := range c.Args {
			st.assume(x)
		}
		return
	}
	if cs := st.e.tt.clauses(c); len(cs) > 1 {
		st.pcs[c] = true
		for _, x := range cs {
			st.assume(x)
		}
		return
	}
	st.pc = append(st.pc, c)
	st.pcs[c] = true
}

// implied: syntactic knowledge only.
func (st *State) quick(c *Term) (val, known bool) {
	if c.IsTrue() {
		return true, true
	}
	if c.IsFalse() {
		return false, true
	}
	if st.pcs[c] {
		return true, true
	}
	if st.pcs[st.e.tt.Not(c)] {
		return false, true
	}
	if c.Op == OAnd {
		all := true
		for _, a := range c.Args {
			v, k := st.quick(a)
			if k && !v {
				return false, true
			}
			if !k {
				all = false
			}
		}
		if all {
			return true, true
		}
	}
	if c.Op == OOr {
		all := true
		for _, a := range c.Args {
			v, k := st.quick(a)
			if k && v {
				return true, true
			}
			if !k {
				all = false
			}
		}
		if all {
			return false, true
		}
	}
	return false, false
}

func (st *State) prove(c *Term) bool {
	if v, k := st.quick(c); k {
		return v
	}
	if st.e.noSolve {
		return false
	}
	return st.e.decide(st.pc, st.e.tt.Not(c)) == RUnsat
}

// decide looks at the closest facts first.
func (e *Eng) decide(pc []*Term, c *Term) Result {
	rel := e.relevant(pc, c)
	nr := e.near(rel, c)
	e.sol.brief = true
	defer func() { e.sol.brief = false }()
	if len(nr) < len(rel) {
		if r, _, _ := e.sol.Check(append(nr, c), false); r == RUnsat {
			return r
		}
	}
	r, _, _ := e.sol.Check(append(rel, c), false)
	return r
}

func (st *State) proveIn(cs []*Term, c *Term) bool {
	if v, k := st.quick(c); k && v {
		return true
	}
	if len(cs) == 0 {
		return st.prove(c)
	}
	s2 := st.fork()
	for _, x := range cs {
		s2.assume(x)
	}
	return s2.prove(c)
}

// feasible: false only when the solver refutes it.
func (st *State) feasible(c *Term) bool {
	if v, k := st.quick(c); k {
		return v
	}
	return st.e.decide(st.pc, c) != RUnsat
}

// constOf finds the constant a term is known to equal.
func (st *State) constOf(t *Term) (uint64, bool) {
	if c, ok := t.CU(); ok {
		return c, true
	}
	for _, p := range st.pc {
		if p.Op == OEq {
			if p.Args[0] == t {
				if c, ok := p.Args[1].CU(); ok {
					return c, true
				}
			}
			if p.Args[1] == t {
				if c, ok := p.Args[0].CU(); ok {
					return c, true
				}
			}
		}
	}
	if t.Op == OConcat && len(t.Args) == 2 && t.S.W <= 64 {
		if h, ok := t.Args[0].CU(); ok {
			if l, ok := st.constOf(t.Args[1]); ok {
				return h<<uint(t.Args[1].S.W) | l, true
			}
		}
	}
	return 0, false
}

// pinOf finds the constant a term must equal on this path, among those it is
// compared with.
func (st *State) pinOf(t *Term) (uint64, bool) {
	if c, ok := st.constOf(t); ok {
		return c, true
	}
	base := t
	if t.Op == OConcat && len(t.Args) == 2 {
		if h, ok := t.Args[0].CU(); ok && h == 0 {
			base = t.Args[1]
		}
	}
	cand := map[uint64]bool{}
	seen := map[*Term]bool{}
	var walk func(x *Term)
	walk = func(x *Term) {
		if seen[x] {
			return
		}
		seen[x] = true
		if x.Op == OEq {
			for i := 0; i < 2; i++ {
				if y := x.Args[i]; y == t || y == base || y.Op == OApp && base.Op == OApp && y.Name == base.Name {
					if c, ok := x.Args[1-i].CU(); ok {
						cand[c] = true
					}
				}
			}
		}
		for _, a := range x.Args {
			walk(a)
		}
	}
	for _, p := range st.pc {
		walk(p)
	}
	if os.Getenv("GOVC_PIN") != "" {
		fmt.Println("pin", st.e.tt.Str(t), cand)
		for _, p := range st.pc {
			fmt.Println("   ", st.e.tt.Str(p))
		}
	}
	if len(cand) > 8 {
		return 0, false
	}
	for c := range cand {
		if st.prove(st.e.tt.Eq(t, st.e.tt.BV(t.S.W, c))) {
			return c, true
		}
	}
	return 0, false
}

func (e *Eng) subState(st *State, s *substCtx) *State {
	n := e.newState()
	n.genk = st.genk
	n.now = st.now
	for k, v := range st.heap {
		n.heap[k] = e.subV(v, s)
	}
	for _, p := range st.pc {
		n.assume(e.st(p, s))
	}
	return n
}

// ---------------------------------------------------------------------------
// Heap

func (e *Eng) alloc(st *State, v Value) int {
	e.nobj++
	st.heap[e.nobj] = v
	return e.nobj
}

func (e *Eng) get(st *State, v Value, path []PE) Value {
	for i, p := range path {
		switch x := v.(type) {
		case *StructV:
			if p.Idx != nil {
				fail("index into a struct")
			}
			v = x.F[p.F]
		case *ArrV:
			v = e.arrGet(st, x, p.Idx)
		case *SymArr:
			v = e.symGet(st, x, p.Idx, path[i+1:])
			return v
		case *Rope:
			return e.byteAt(st, x, p.Idx)
		default:
			fail("path into %T", v)
		}
	}
	return v
}

func (e *Eng) arrGet(st *State, a *ArrV, i *Term) Value {
	if c, ok := i.CU(); ok {
		if c >= uint64(len(a.E)) {
			fail("array index out of range")
		}
		return a.E[c]
	}
	if len(a.E) == 0 {
		fail("index into an empty array")
	}
	res := a.E[len(a.E)-1]
	for j := len(a.E) - 2; j >= 0; j-- {
		m, ok := e.merge(e.tt.Eq(i, e.tt.I(int64(j))), a.E[j], res)
		if !ok {
			fail("symbolic index into values that cannot be merged")
		}
		res = m
	}
	return res
}

func (e *Eng) symGet(st *State, a *SymArr, i *Term, rest []PE) Value {
	tt := e.tt
	for li := len(a.Layers) - 1; li >= 0; li-- {
		l := a.Layers[li]
		var in *Term
		if l.Hi == nil {
			in = tt.Eq(i, l.Lo)
		} else {
			in = tt.And(tt.Ule(l.Lo, i), tt.Ult(i, l.Hi))
		}
		val := func() Value {
			if l.Hi == nil {
				return e.get(st, l.V, rest)
			}
			return e.get(st, e.apply(l.L, i), rest)
		}
		if v, k := st.quick(in); k {
			if v {
				return val()
			}
			continue
		}
		if st.prove(in) {
			return val()
		}
		if st.prove(tt.Not(in)) {
			continue
		}
		below := e.symGet(st, &SymArr{a.Len, a.Base, a.Layers[:li]}, i, rest)
		m, ok := e.merge(in, val(), below)
		if !ok {
			fail("symbolic element access cannot be merged")
		}
		return m
	}
	if a.Base == nil {
		fail("read of an unspecified element")
	}
	return e.get(st, e.apply(a.Base, i), rest)
}

func (e *Eng) put(st *State, v Value, path []PE, w Value) Value {
	if len(path) == 0 {
		return w
	}
	p := path[0]
	switch x := v.(type) {
	case *StructV:
		f := append([]Value{}, x.F...)
		f[p.F] = e.put(st, f[p.F], path[1:], w)
		return &StructV{x.T, f}
	case *ArrV:
		el := append([]Value{}, x.E...)
		if c, ok := p.Idx.CU(); ok {
			if c >= uint64(len(el)) {
				fail("array index out of range")
			}
			el[c] = e.put(st, el[c], path[1:], w)
			return &ArrV{el}
		}
		for j := range el {
			m, ok := e.merge(e.tt.Eq(p.Idx, e.tt.I(int64(j))), e.put(st, el[j], path[1:], w), el[j])
			if !ok {
				fail("symbolic store cannot be merged")
			}
			el[j] = m
		}
		return &ArrV{el}
	case *SymArr:
		old := Value(nil)
		if len(path) > 1 {
			old = e.symGet(st, x, p.Idx, nil)
		}
		nv := e.put(st, old, path[1:], w)
		return e.symPut(st, x, p.Idx, nv)
	case *Rope:
		return e.setBytes(st, x, p.Idx, e.W(w.(*Term)))
	}
	fail("store into %T", v)
	return nil
}

func (e *Eng) symPut(st *State, x *SymArr, i *Term, nv Value) *SymArr {
	r := &SymArr{Len: x.Len, Base: x.Base}
	ls := x.Layers
	// replace an earlier write to the same index
	for li := len(ls) - 1; li >= 0; li-- {
		if ls[li].Hi == nil && ls[li].Lo == i {
			r.Layers = append(append([]Layer{}, ls[:li]...), Layer{Lo: i, V: nv})
			r.Layers = append(r.Layers, ls[li+1:]...)
			return e.foldLayers(r)
		}
		if ls[li].Hi == nil {
			d := e.tt.Sub(ls[li].Lo, i)
			if _, ok := d.CU(); ok {
				continue // another index
			}
		}
		break
	}
	r.Layers = append(append([]Layer{}, ls...), Layer{Lo: i, V: nv})
	return e.foldLayers(r)
}

// foldLayers merges a point write at the end of a segment into it when the
// written value is the segment's own function of the index.
func (e *Eng) foldLayers(a *SymArr) *SymArr {
	n := len(a.Layers)
	if n < 2 {
		return a
	}
	l, s := a.Layers[n-1], a.Layers[n-2]
	if l.Hi == nil && s.Hi == l.Lo && s.L != nil && e.sameV(e.apply(s.L, l.Lo), l.V) {
		s.Hi = e.tt.Add(s.Hi, e.tt.I(1))
		return &SymArr{a.Len, a.Base, append(append([]Layer{}, a.Layers[:n-2]...), s)}
	}
	return a
}

func (e *Eng) load(st *State, p Ptr) Value {
	if p.Obj == 0 {
		fail("load through nil")
	}
	v, ok := st.heap[p.Obj]
	if !ok {
		fail("load from unknown object %d", p.Obj)
	}
	return e.get(st, v, p.Path)
}

func (e *Eng) store(st *State, p Ptr, v Value) {
	if p.Obj == 0 {
		fail("store through nil")
	}
	old, ok := st.heap[p.Obj]
	if !ok {
		fail("store to unknown object %d", p.Obj)
	}
	if e.trackW != nil {
		e.trackW[p.Obj] = true
	}
	st.heap[p.Obj] = e.put(st, old, p.Path, v)
}

func (p Ptr) at(x ...PE) Ptr {
	return Ptr{p.Obj, append(append([]PE{}, p.Path...), x...)}
}

// ---------------------------------------------------------------------------
// Slices

func (e *Eng) contents(st *State, s SliceV) Value {
	if s.Base.Obj == 0 {
		return nil
	}
	return e.load(st, s.Base)
}

// bytesOf is the byte sequence of a []byte value.
func (e *Eng) bytesOf(st *State, v Value) *Rope {
	switch x := v.(type) {
	case *Rope:
		return x
	case SliceV:
		if x.Base.Obj == 0 || isZero(x.Len) {
			return &Rope{}
		}
		r, ok := e.contents(st, x).(*Rope)
		if !ok {
			fail("bytes of a slice of %T", e.contents(st, x))
		}
		_, rest, ok := e.split(st, r, x.Off)
		if !ok {
			fail("cannot slice %s at %s", e.ropeStr(r), e.tt.Str(x.Off))
		}
		a, _, ok := e.split(st, rest, x.Len)
		if !ok {
			if e.eqLen(st, e.ropeLen(rest), x.Len) {
				return rest
			}
			// an unknown part of known length
			u := e.tt.App("sub", SU, e.seqU(st, rest), x.Len)
			return e.chunk(u, x.Len)
		}
		return e.fixChunks(st, a)
	}
	fail("bytes of %T", v)
	return nil
}

// fixChunks gives the chunks whose length the path fixes their value as a word.
func (e *Eng) fixChunks(st *State, r *Rope) *Rope {
	var out *Rope
	for i, p := range r.P {
		if p.K == 'C' {
			if c, ok := st.constOf(p.N); ok && c <= 4096 {
				if out == nil {
					out = &Rope{P: append([]Piece{}, r.P[:i]...)}
				}
				if c > 0 {
					out.P = append(out.P, e.W(e.chunkWord(p.T, int(c))).P...)
				}
				continue
			}
		}
		if out != nil {
			out.P = append(out.P, p)
		}
	}
	if out != nil {
		return out
	}
	return r
}

func (e *Eng) newBytes(st *State, r *Rope) SliceV {
	n := e.ropeLen(r)
	o := e.alloc(st, r)
	return SliceV{Ptr{Obj: o}, e.tt.I(0), n, n}
}

// elemAt reads element i of a slice.
func (e *Eng) elemAt(st *State, s SliceV, i *Term) Value {
	return e.load(st, s.Base.at(PE{Idx: e.tt.Add(s.Off, i)}))
}

// ---------------------------------------------------------------------------
// Symbolic inputs

func (e *Eng) symBV(name string, w int, idx []*Term) *Term {
	if len(idx) == 0 {
		return e.tt.Var(name, SBV(w))
	}
	return e.tt.App(name, SBV(w), idx...)
}

func (e *Eng) symU(name string, idx []*Term) *Term { return e.tt.App(name, SU, idx...) }

func (e *Eng) symBool(name string, idx []*Term) *Term {
	if len(idx) == 0 {
		return e.tt.Var(name, SBool)
	}
	return e.tt.App(name, SBool, idx...)
}

// symLen: lengths are below 2^30.
func (e *Eng) symLen(name string, idx []*Term) *Term {
	return e.tt.Zext(64, e.symBV(name+".len", 30, idx))
}

// arena returns a pointer to an object that exists once per index tuple.
func (e *Eng) arena(st *State, name string, idx []*Term, mkv func(idx []*Term) Value) Ptr {
	key := name + "#" + fmt.Sprint(len(idx))
	id, ok := e.arenas[key]
	if !ok {
		e.nobj++
		id = e.nobj
		e.arenas[key] = id
	}
	if _, ok := st.heap[id]; !ok {
		var vs []*Term
		for i := range idx {
			vs = append(vs, e.tt.Var(e.tt.FreshName("av!"), idx[i].S))
		}
		v := mkv(vs)
		for i := len(vs) - 1; i >= 0; i-- {
			v = &SymArr{Len: e.tt.BV(64, 1<<40), Base: e.lam(v, vs[i])}
		}
		st.heap[id] = v
	}
	p := Ptr{Obj: id}
	for _, i := range idx {
		p.Path = append(p.Path, PE{Idx: i})
	}
	return p
}

func (e *Eng) shape(t types.Type, field string) (int, bool) {
	n, ok := e.shapes[namedPath(t)+"."+field]
	return n, ok
}

func (e *Eng) symV(st *State, t types.Type, name string, idx []*Term, n int, depth int) Value {
	tt := e.tt
	if depth > 7 {
		return e.zero(t)
	}
	switch special(t) {
	case "time":
		return &StructV{t, []Value{e.symBV(name+".sec", 64, idx), tt.Zext(64, e.symBV(name+".nsec", 29, idx))}}
	case "big", "bp":
		return e.symU(name, idx)
	case "buffer", "mutex", "opaque", "stream":
		return e.zero(t)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsBoolean != 0 {
			return e.symBool(name, idx)
		}
		if u.Info()&types.IsString != 0 {
			return e.chunk(e.symU(name, idx), e.symLen(name, idx))
		}
		if w := basicWidth(u); w > 0 {
			return e.symBV(name, w, idx)
		}
	case *types.Struct:
		s := &StructV{T: t}
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			fn := -1
			if k, ok := e.shape(t, f.Name()); ok {
				fn = k
			}
			s.F = append(s.F, e.symV(st, f.Type(), name+"."+f.Name(), idx, fn, depth+1))
		}
		return s
	case *types.Array:
		if isByte(u.Elem()) {
			if u.Len() == 0 {
				return &Rope{}
			}
			return e.W(e.symBV(name, int(8*u.Len()), idx))
		}
		a := &ArrV{}
		for i := int64(0); i < u.Len(); i++ {
			a.E = append(a.E, e.symV(st, u.Elem(), fmt.Sprintf("%s[%d]", name, i), idx, -1, depth+1))
		}
		return a
	case *types.Pointer:
		return e.arena(st, name+"*", idx, func(ix []*Term) Value {
			return e.symV(st, u.Elem(), name, ix, -1, depth+1)
		})
	case *types.Slice:
		var ln *Term
		if n < 0 {
			if k, ok := e.shapes["type "+namedPath(t)]; ok {
				n = k
			}
		}
		if n >= 0 {
			ln = tt.I(int64(n))
		} else {
			ln = e.symLen(name, idx)
		}
		base := e.arena(st, name+"[]", idx, func(ix []*Term) Value {
			l := ln
			if n < 0 {
				l = e.symLen(name, ix)
			}
			if isByte(u.Elem()) {
				if n == 0 {
					return &Rope{}
				}
				if n > 0 && n <= 256 {
					return e.W(e.symBV(name, 8*n, ix))
				}
				return e.chunk(e.symU(name, ix), l)
			}
			if n >= 0 && n <= 256 {
				a := &ArrV{}
				for i := 0; i < n; i++ {
					a.E = append(a.E, e.symV(st, u.Elem(), fmt.Sprintf("%s[%d]", name, i), ix, -1, depth+1))
				}
				return a
			}
			kv := tt.Var(tt.FreshName("av!"), S64)
			el := e.symV(st, u.Elem(), name, append(append([]*Term{}, ix...), kv), -1, depth+1)
			return &SymArr{Len: l, Base: e.lam(el, kv)}
		})
		return SliceV{base, tt.I(0), ln, ln}
	case *types.Map:
		nn := e.symLen(name, idx)
		e.mapInfo[name] = true
		o := e.alloc(st, &MapC{Name: name, N: nn, Size: nn, KT: u.Key(), VT: u.Elem()})
		return MapRef{o}
	case *types.Interface:
		return IfaceV{}
	case *types.Signature:
		return FuncV{}
	case *types.Chan:
		return ChanRef{}
	}
	fail("symbolic value of %s", t)
	return nil
}

// fresh values drawn during execution; inside a generic iteration they are
// functions of the iteration.
func (e *Eng) freshIdx(st *State) []*Term {
	return st.genk
}

func (e *Eng) freshBV(st *State, p string, w int) *Term {
	return e.symBV(e.freshName(st, p), w, e.freshIdx(st))
}
func (e *Eng) freshBool(st *State, p string) *Term {
	return e.symBool(e.freshName(st, p), e.freshIdx(st))
}
func (e *Eng) freshU(st *State, p string) *Term { return e.symU(e.freshName(st, p), e.freshIdx(st)) }

// freshName: deterministic inside generic iterations so that repeated runs of
// the same body draw the same names.
func (e *Eng) freshName(st *State, p string) string {
	if n := len(st.genk); n > 0 {
		st.seq++
		return fmt.Sprintf("fr!%s.%s.%d", st.genk[n-1].Name, p, st.seq)
	}
	return e.tt.FreshName("fr!" + p)
}

func posStr(fset *token.FileSet, p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	q := fset.Position(p)
	f := q.Filename
	if i := strings.LastIndex(f, "/repo/"); i >= 0 {
		f = f[i+6:]
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

func fnName(f *ssa.Function) string {
	if f == nil {
		return "?"
	}
	return f.String()
}
