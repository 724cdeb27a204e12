package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------------------
// Symbolic values. All of them are immutable; states share them.

type Value interface{}

type StructV struct {
	T types.Type
	F []Value
}

// ArrV: the contents of an array of known length whose elements are not bytes.
type ArrV struct{ E []Value }

// Lam is a function of an index: V with the variable K replaced.
type Lam struct {
	K *Term
	V Value
}

type Layer struct {
	Lo, Hi *Term // segment [Lo,Hi); a point write when Hi == nil
	L      *Lam  // segment contents as a function of the absolute index
	V      Value // point contents
}

// SymArr: the contents of an array of symbolic length.
type SymArr struct {
	Len    *Term
	Base   *Lam // nil: unspecified
	Layers []Layer
}

type PE struct {
	F   int // field, when Idx is nil
	Idx *Term
}

// Ptr: the object and the path inside it; Obj 0 is nil.
type Ptr struct {
	Obj  int
	Path []PE
}

type SliceV struct {
	Base          Ptr // to the backing array; Obj 0 is nil
	Off, Len, Cap *Term
}

type IfaceV struct {
	T types.Type // nil: nil interface
	V Value
}

type FuncV struct {
	Fn   *ssa.Function
	Bind []Value
	Bi   string // model function
}

type TupleV []Value

// MapW: one write of a map; Pres false is a deletion.
type MapW struct {
	Key  Value
	Pres bool
	V    Value
}

// MapC: the contents of a map.
type MapC struct {
	Name string // "" : empty base
	N    *Term  // number of entries of the base
	W    []MapW
	Size *Term // current len
	KT   types.Type
	VT   types.Type
}

type MapRef struct{ Obj int } // 0: nil map
type ChanRef struct{ Obj int }

// ChanC: the contents of a channel: what was sent to it.
type ChanC struct {
	Sent   []Value
	Closed *Term
	Avail  int
}

// Piece of a byte sequence.
type Piece struct {
	K      byte  // 'W' word, 'C' chunk, 'R' repetition
	T      *Term // W: bit vector, first byte most significant. C: term of sort U
	N      *Term // length in bytes (64 bits); nil for R
	Lo, Hi *Term // R
	BV     *Term // R: bound variable
	Body   *Rope // R
	Spec   *SpecRef
}

type SpecRef struct {
	Fn   *ssa.Function
	Args []Value
	St   *State // where the arguments live
}

type Rope struct{ P []Piece }

// StreamC: an input stream.
type StreamC struct {
	Any   bool
	R     *Rope // what is left (not Any)
	Short *Term // some read went beyond the end
	Left  *Term // bytes left (Any)
	Pos   *Term // bytes consumed (Any)
}

// ---------------------------------------------------------------------------

type engineFail struct{ msg string }

func fail(format string, a ...interface{}) {
	panic(engineFail{fmt.Sprintf(format, a...)})
}

func typeKey(t types.Type) string { return types.TypeString(t, nil) }

func namedPath(t types.Type) string {
	if n, ok := t.(*types.Named); ok {
		if n.Obj().Pkg() != nil {
			return n.Obj().Pkg().Path() + "." + n.Obj().Name()
		}
		return n.Obj().Name()
	}
	if a, ok := t.(*types.Alias); ok {
		return namedPath(types.Unalias(a))
	}
	return ""
}

// special returns how a named struct type is represented, "" for a plain one.
func special(t types.Type) string {
	switch n := namedPath(t); n {
	case "time.Time":
		return "time"
	case "math/big.Int":
		return "big"
	case "bytes.Buffer":
		return "buffer"
	case "sync.Mutex", "sync.RWMutex":
		return "mutex"
	case "sync.WaitGroup", "sync.Once":
		return "opaque"
	case "github.com/yoss22/bulletproofs.BulletProof":
		return "bp"
	default:
		if strings.HasSuffix(n, ".vReader") {
			return "stream"
		}
	}
	return ""
}

func isByte(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && (b.Kind() == types.Uint8 || b.Kind() == types.Int8)
}

func basicWidth(b *types.Basic) int {
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32, types.UntypedRune:
		return 32
	case types.Int, types.Uint, types.Int64, types.Uint64, types.Uintptr, types.UntypedInt:
		return 64
	}
	return 0
}

func isSigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0 && b.Info()&types.IsUnsigned == 0
}

func (e *Eng) zero(t types.Type) Value {
	tt := e.tt
	switch special(t) {
	case "time":
		// seconds since the Unix epoch and nanoseconds of January 1, year 1
		return &StructV{t, []Value{tt.BV(64, uint64(0xfffffff1886e0900)), tt.BV(64, 0)}}
	case "big":
		return tt.App("big0", SU)
	case "buffer":
		return &Rope{}
	case "mutex":
		return tt.BV(64, 0)
	case "opaque":
		return tt.BV(64, 0)
	case "bp":
		return tt.App("bp0", SU)
	case "stream":
		return &StreamC{R: &Rope{}, Short: tt.False}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsBoolean != 0 {
			return tt.False
		}
		if u.Info()&types.IsString != 0 {
			return &Rope{}
		}
		if w := basicWidth(u); w > 0 {
			return tt.BV(w, 0)
		}
		if u.Kind() == types.UnsafePointer || u.Kind() == types.UntypedNil {
			return Ptr{}
		}
		if u.Info()&types.IsFloat != 0 {
			return tt.App("float0", SU)
		}
	case *types.Struct:
		s := &StructV{T: t}
		for i := 0; i < u.NumFields(); i++ {
			s.F = append(s.F, e.zero(u.Field(i).Type()))
		}
		return s
	case *types.Array:
		if isByte(u.Elem()) {
			return e.zeroBytes(tt.I(u.Len()))
		}
		a := &ArrV{}
		for i := int64(0); i < u.Len(); i++ {
			a.E = append(a.E, e.zero(u.Elem()))
		}
		return a
	case *types.Pointer:
		return Ptr{}
	case *types.Slice:
		return e.nilSlice()
	case *types.Interface:
		return IfaceV{}
	case *types.Map:
		return MapRef{}
	case *types.Chan:
		return ChanRef{}
	case *types.Signature:
		return FuncV{}
	case *types.Tuple:
		var tv TupleV
		for i := 0; i < u.Len(); i++ {
			tv = append(tv, e.zero(u.At(i).Type()))
		}
		return tv
	}
	fail("zero value of %s", t)
	return nil
}

func (e *Eng) nilSlice() SliceV {
	z := e.tt.I(0)
	return SliceV{Ptr{}, z, z, z}
}

func (e *Eng) zeroBytes(n *Term) *Rope {
	tt := e.tt
	if c, ok := n.CU(); ok {
		if c == 0 {
			return &Rope{}
		}
		if c <= 4096 {
			return &Rope{[]Piece{{K: 'W', T: tt.BV(int(8*c), 0), N: n}}}
		}
	}
	bv := e.ropeVar(0)
	return &Rope{[]Piece{{K: 'R', Lo: tt.I(0), Hi: n, BV: bv, Body: &Rope{[]Piece{{K: 'W', T: tt.BV(8, 0), N: tt.I(1)}}}}}}
}

// ---------------------------------------------------------------------------
// Substitution

type substCtx struct {
	m    map[*Term]*Term
	memo map[*Term]*Term
}

func (e *Eng) newSub(m map[*Term]*Term) *substCtx {
	return &substCtx{m, map[*Term]*Term{}}
}

func (e *Eng) st(t *Term, s *substCtx) *Term {
	if t == nil {
		return nil
	}
	return e.tt.SubstC(t, s.m, s.memo)
}

func (e *Eng) subPath(p []PE, s *substCtx) []PE {
	ch := false
	for _, x := range p {
		if x.Idx != nil && e.st(x.Idx, s) != x.Idx {
			ch = true
		}
	}
	if !ch {
		return p
	}
	r := make([]PE, len(p))
	for i, x := range p {
		r[i] = x
		if x.Idx != nil {
			r[i].Idx = e.st(x.Idx, s)
		}
	}
	return r
}

func (e *Eng) subV(v Value, s *substCtx) Value {
	switch x := v.(type) {
	case nil:
		return nil
	case *PoisonV:
		return x
	case *Term:
		return e.st(x, s)
	case *StructV:
		f := make([]Value, len(x.F))
		for i := range f {
			f[i] = e.subV(x.F[i], s)
		}
		return &StructV{x.T, f}
	case *ArrV:
		f := make([]Value, len(x.E))
		for i := range f {
			f[i] = e.subV(x.E[i], s)
		}
		return &ArrV{f}
	case *Rope:
		return e.subRope(x, s)
	case *SymArr:
		r := &SymArr{Len: e.st(x.Len, s), Base: e.subLam(x.Base, s)}
		for _, l := range x.Layers {
			r.Layers = append(r.Layers, Layer{e.st(l.Lo, s), e.st(l.Hi, s), e.subLam(l.L, s), e.subV(l.V, s)})
		}
		return r
	case Ptr:
		x.Path = e.subPath(x.Path, s)
		return x
	case SliceV:
		return SliceV{Ptr{x.Base.Obj, e.subPath(x.Base.Path, s)}, e.st(x.Off, s), e.st(x.Len, s), e.st(x.Cap, s)}
	case IfaceV:
		return IfaceV{x.T, e.subV(x.V, s)}
	case FuncV:
		if len(x.Bind) == 0 {
			return x
		}
		b := make([]Value, len(x.Bind))
		for i := range b {
			b[i] = e.subV(x.Bind[i], s)
		}
		return FuncV{x.Fn, b, x.Bi}
	case TupleV:
		r := make(TupleV, len(x))
		for i := range x {
			r[i] = e.subV(x[i], s)
		}
		return r
	case *MapC:
		r := *x
		r.N, r.Size = e.st(x.N, s), e.st(x.Size, s)
		r.W = nil
		for _, w := range x.W {
			r.W = append(r.W, MapW{e.subV(w.Key, s), w.Pres, e.subV(w.V, s)})
		}
		return &r
	case MapRef, ChanRef:
		return x
	case *ChanC:
		r := *x
		r.Closed = e.st(x.Closed, s)
		r.Sent = nil
		for _, w := range x.Sent {
			r.Sent = append(r.Sent, e.subV(w, s))
		}
		return &r
	case *StreamC:
		r := *x
		if x.R != nil {
			r.R = e.subRope(x.R, s)
		}
		r.Short, r.Left, r.Pos = e.st(x.Short, s), e.st(x.Left, s), e.st(x.Pos, s)
		return &r
	case *IterV:
		r := *x
		r.Pos = e.st(x.Pos, s)
		return &r
	case *RdrV:
		r := *x
		r.N = e.st(x.N, s)
		r.Under = e.subV(x.Under, s)
		return &r
	case *ErrV:
		return x
	}
	fail("subst of %T", v)
	return nil
}

// IterV: position of a range loop over a map.
type IterV struct {
	Map *MapC
	Pos *Term
	Str *Rope
}

// RdrV: a reader or writer built by the standard library around another one.
type RdrV struct {
	Kind  string // limit, bufr, bufw
	Under Value  // IfaceV
	N     *Term
	Buf   *Rope
}

// ErrV: contents of an error object.
type ErrV struct{ Msg string }

func (e *Eng) subLam(l *Lam, s *substCtx) *Lam {
	if l == nil {
		return nil
	}
	// the canonical variables of lambdas are never substituted from outside
	return &Lam{l.K, e.subV(l.V, s)}
}

// apply instantiates a lambda.
func (e *Eng) apply(l *Lam, i *Term) Value {
	return e.subV(l.V, e.newSub(map[*Term]*Term{l.K: i}))
}

// lam abstracts a variable. Nested lambdas use variables of a higher level.
func (e *Eng) lam(v Value, k *Term) *Lam {
	d := lamDepth(v)
	nk := e.tt.Var(fmt.Sprintf("lk!%d.%d", d, k.S.W), k.S)
	return &Lam{nk, e.subV(v, e.newSub(map[*Term]*Term{k: nk}))}
}

func lamDepth(v Value) int {
	d := 0
	up := func(x int) {
		if x > d {
			d = x
		}
	}
	switch x := v.(type) {
	case *StructV:
		for _, f := range x.F {
			up(lamDepth(f))
		}
	case *ArrV:
		for _, f := range x.E {
			up(lamDepth(f))
		}
	case *SymArr:
		if x.Base != nil {
			up(1 + lamDepth(x.Base.V))
		}
		for _, l := range x.Layers {
			if l.L != nil {
				up(1 + lamDepth(l.L.V))
			}
			up(lamDepth(l.V))
		}
	case IfaceV:
		up(lamDepth(x.V))
	}
	return d
}

func (e *Eng) ropeVar(d int) *Term { return e.tt.Var(fmt.Sprintf("rk!%d", d), S64) }

func ropeDepth(r *Rope) int {
	d := 0
	for _, p := range r.P {
		if p.K == 'R' {
			if x := 1 + ropeDepth(p.Body); x > d {
				d = x
			}
		}
	}
	return d
}

func (e *Eng) subRope(r *Rope, s *substCtx) *Rope {
	ch := false
	out := make([]Piece, 0, len(r.P))
	for _, p := range r.P {
		q := p
		q.T, q.N, q.Lo, q.Hi = e.st(p.T, s), e.st(p.N, s), e.st(p.Lo, s), e.st(p.Hi, s)
		if p.Body != nil {
			q.Body = e.subRope(p.Body, s)
			if q.Body != p.Body {
				ch = true
			}
		}
		if q.T != p.T || q.N != p.N || q.Lo != p.Lo || q.Hi != p.Hi {
			ch = true
		}
		if p.Spec != nil {
			sa := make([]Value, len(p.Spec.Args))
			for j, a := range p.Spec.Args {
				sa[j] = e.subV(a, s)
			}
			q.Spec = &SpecRef{p.Spec.Fn, sa, p.Spec.St}
			if q.T != p.T {
				// the state the arguments live in is substituted when revealed
				q.Spec.St = e.subState(p.Spec.St, s)
			}
		}
		if q.K == 'R' && q.Lo == q.Hi {
			ch = true
			continue
		}
		out = append(out, q)
	}
	if !ch {
		return r
	}
	return &Rope{out}
}

// ---------------------------------------------------------------------------
// Byte sequences

func (e *Eng) W(t *Term) *Rope {
	if t.S.W == 0 || t.S.W%8 != 0 {
		fail("word of %d bits", t.S.W)
	}
	return &Rope{[]Piece{{K: 'W', T: t, N: e.tt.I(int64(t.S.W / 8))}}}
}

func (e *Eng) strRope(s string) *Rope {
	if s == "" {
		return &Rope{}
	}
	var ts []*Term
	for i := 0; i < len(s); i++ {
		ts = append(ts, e.tt.BV(8, uint64(s[i])))
	}
	return e.W(e.tt.Concat(ts...))
}

func (e *Eng) chunk(u, n *Term) *Rope {
	if isZero(n) {
		return &Rope{}
	}
	if c, ok := n.CU(); ok && c <= 512 {
		return e.W(e.chunkWord(u, int(c)))
	}
	return &Rope{[]Piece{{K: 'C', T: u, N: n}}}
}

// chunkWord is the value of a chunk of c bytes.
func (e *Eng) chunkWord(u *Term, c int) *Term {
	return e.tt.App("word", SBV(8*c), u)
}

func (e *Eng) pieceLen(p Piece) *Term {
	if p.K != 'R' {
		return p.N
	}
	bl := e.ropeLen(p.Body)
	if !occurs(p.BV, bl) {
		return e.tt.Mul(bl, e.tt.Sub(p.Hi, p.Lo))
	}
	return e.tt.Sub(e.tt.SumT(p.Hi, p.BV, bl), e.tt.SumT(p.Lo, p.BV, bl))
}

func (e *Eng) ropeLen(r *Rope) *Term {
	n := e.tt.I(0)
	for _, p := range r.P {
		n = e.tt.Add(n, e.pieceLen(p))
	}
	return n
}

func (e *Eng) cat(rs ...*Rope) *Rope {
	out := &Rope{}
	for _, r := range rs {
		for _, p := range r.P {
			out.P = e.push(out.P, p)
		}
	}
	return out
}

// push appends a piece, merging neighbours.
func (e *Eng) push(ps []Piece, p Piece) []Piece {
	if p.K == 'R' && p.Lo == p.Hi {
		return ps
	}
	if p.K != 'R' && isZero(p.N) {
		return ps
	}
	if n := len(ps); n > 0 {
		q := ps[n-1]
		if q.K == 'W' && p.K == 'W' && q.T.S.W+p.T.S.W <= 8*4096 {
			r := append([]Piece{}, ps[:n-1]...)
			t := e.tt.Concat(q.T, p.T)
			return append(r, Piece{K: 'W', T: t, N: e.tt.I(int64(t.S.W / 8))})
		}
		if q.K == 'R' && p.K == 'R' && q.Hi == p.Lo && e.sameRope(q.Body, p.Body) {
			r := append([]Piece{}, ps[:n-1]...)
			q.Hi = p.Hi
			return append(r, q)
		}
		// R{lo,k,body} ++ body(k) = R{lo,k+1,body}, one piece bodies
		if q.K == 'R' && len(q.Body.P) == 1 {
			b := e.subRope(q.Body, e.newSub(map[*Term]*Term{q.BV: q.Hi}))
			if samePiece(b.P[0], p) {
				r := append([]Piece{}, ps[:n-1]...)
				q.Hi = e.tt.Add(q.Hi, e.tt.I(1))
				return append(r, q)
			}
		}
	}
	return append(append([]Piece{}, ps...), p)
}

func samePiece(a, b Piece) bool {
	return a.K == b.K && a.T == b.T && a.N == b.N && a.Lo == b.Lo && a.Hi == b.Hi && a.BV == b.BV && (a.Body == b.Body || a.Body != nil && b.Body != nil && sameRopeRaw(a.Body, b.Body))
}

func sameRopeRaw(a, b *Rope) bool {
	if a == b {
		return true
	}
	if len(a.P) != len(b.P) {
		return false
	}
	for i := range a.P {
		if !samePiece(a.P[i], b.P[i]) {
			return false
		}
	}
	return true
}

func (e *Eng) sameRope(a, b *Rope) bool { return sameRopeRaw(a, b) }

// compactR folds body(k) after R{lo,k,body} for bodies of several pieces.
func (e *Eng) compactR(r *Rope) *Rope {
	for i := 0; i < len(r.P); i++ {
		q := r.P[i]
		if q.K != 'R' {
			continue
		}
		b := e.cat(e.subRope(q.Body, e.newSub(map[*Term]*Term{q.BV: q.Hi})))
		// the body's last word may have been merged with what follows
		rest := &Rope{r.P[i+1:]}
		if tail, ok := e.stripPrefix(rest, b); ok {
			q.Hi = e.tt.Add(q.Hi, e.tt.I(1))
			np := append(append([]Piece{}, r.P[:i]...), q)
			out := &Rope{np}
			for _, p := range tail.P {
				out.P = e.push(out.P, p)
			}
			return e.compactR(out)
		}
	}
	return r
}

// stripPrefix removes a syntactic prefix.
func (e *Eng) stripPrefix(r, pre *Rope) (*Rope, bool) {
	rp := append([]Piece{}, r.P...)
	for _, p := range pre.P {
		if len(rp) == 0 {
			return nil, false
		}
		q := rp[0]
		if samePiece(p, q) {
			rp = rp[1:]
			continue
		}
		if p.K == 'W' && q.K == 'W' && q.T.S.W > p.T.S.W {
			w, x := q.T.S.W, p.T.S.W
			if e.tt.Extract(w-1, w-x, q.T) == p.T {
				t := e.tt.Extract(w-x-1, 0, q.T)
				rp[0] = Piece{K: 'W', T: t, N: e.tt.I(int64(t.S.W / 8))}
				continue
			}
		}
		if p.K == 'R' && q.K == 'R' && p.Lo == q.Lo && e.sameRope(p.Body, q.Body) && p.Hi != q.Hi {
			q.Lo = p.Hi
			rp[0] = q
			continue
		}
		return nil, false
	}
	return &Rope{rp}, true
}

// split cuts a sequence after n bytes; it may need facts of the state.
func (e *Eng) split(st *State, r *Rope, n *Term) (*Rope, *Rope, bool) {
	tt := e.tt
	a := &Rope{}
	ps := append([]Piece{}, r.P...)
	for guard := 0; guard < 3000; guard++ {
		if isZero(n) {
			return a, &Rope{ps}, true
		}
		if len(ps) == 0 {
			return nil, nil, false
		}
		p := ps[0]
		if x, ok := e.settle(st, p); ok {
			ps = append(append([]Piece{}, x...), ps[1:]...)
			continue
		}
		pl := e.pieceLen(p)
		if pl == n || (p.K == 'C' && e.eqLen(st, pl, n)) {
			a.P = e.push(a.P, p)
			return a, &Rope{ps[1:]}, true
		}
		nc, nok := n.CU()
		pc, pok := pl.CU()
		if pok && nok {
			if pc <= nc {
				a.P = e.push(a.P, p)
				ps = ps[1:]
				n = tt.Sub(n, pl)
				continue
			}
			switch p.K {
			case 'W':
				w := p.T.S.W
				h := tt.Extract(w-1, w-8*int(nc), p.T)
				l := tt.Extract(w-8*int(nc)-1, 0, p.T)
				a.P = e.push(a.P, e.W(h).P[0])
				ps[0] = e.W(l).P[0]
				return a, &Rope{ps}, true
			case 'C':
				if p.Spec != nil {
					rv := e.reveal(st, p)
					if rv == nil {
						return nil, nil, false
					}
					ps = append(append([]Piece{}, rv.P...), ps[1:]...)
					continue
				}
				return nil, nil, false
			}
		}
		if p.K == 'R' {
			// take one element when there is one
			if st.prove(tt.Ult(p.Lo, p.Hi)) {
				b := e.subRope(p.Body, e.newSub(map[*Term]*Term{p.BV: p.Lo}))
				q := p
				q.Lo = tt.Add(p.Lo, tt.I(1))
				np := append([]Piece{}, b.P...)
				if q.Lo != q.Hi {
					np = append(np, q)
				}
				ps = append(np, ps[1:]...)
				continue
			}
			if st.prove(tt.Eq(p.Lo, p.Hi)) {
				ps = ps[1:]
				continue
			}
			return nil, nil, false
		}
		if p.K == 'C' && p.Spec != nil {
			rv := e.reveal(st, p)
			if rv != nil {
				ps = append(append([]Piece{}, rv.P...), ps[1:]...)
				continue
			}
			return nil, nil, false
		}
		if p.K == 'C' && nok && !pok {
			// the length of the chunk may be known from the path
			if c, ok := st.constOf(pl); ok && c <= 512 {
				if c == 0 {
					ps = ps[1:]
					continue
				}
				ps[0] = e.W(e.chunkWord(p.T, int(c))).P[0]
				continue
			}
		}
		// the piece may lie wholly before the cut
		if st.prove(tt.Ule(pl, n)) {
			a.P = e.push(a.P, p)
			ps = ps[1:]
			n = tt.Sub(n, pl)
			continue
		}
		if p.K == 'C' && nok && !pok {
			if c, ok := st.pinOf(pl); ok && c <= 512 {
				if c == 0 {
					ps = ps[1:]
					continue
				}
				ps[0] = e.W(e.chunkWord(p.T, int(c))).P[0]
				continue
			}
		}
		if p.K == 'W' && !nok {
			p = Piece{K: 'C', T: e.seqU(st, &Rope{[]Piece{p}}), N: pl}
		}
		if p.K == 'C' && !(pok && nok) && st.prove(tt.Ule(n, pl)) {
			// an opaque part of it
			a.P = e.push(a.P, e.chunk(tt.App("seqtake", SU, p.T, n), n).P[0])
			ps[0] = e.chunk(tt.App("seqdrop", SU, p.T, n), tt.Sub(pl, n)).P[0]
			return a, &Rope{ps}, true
		}
		return nil, nil, false
	}
	return nil, nil, false
}

func (e *Eng) eqLen(st *State, a, b *Term) bool {
	if a == b {
		return true
	}
	if _, ok := a.CU(); ok {
		if _, ok := b.CU(); ok {
			return false
		}
	}
	return st.prove(e.tt.Eq(a, b))
}

// seqU is the canonical term of sort U of a sequence.
func (e *Eng) seqU(st *State, r *Rope) *Term {
	tt := e.tt
	r = e.compactR(e.cat(r))
	if len(r.P) == 1 && r.P[0].K == 'C' {
		return r.P[0].T
	}
	if len(r.P) == 1 && r.P[0].K == 'W' {
		w := r.P[0].T
		if w.Op == OApp && w.Name == "word" {
			return w.Args[0]
		}
	}
	name := "seq"
	var args []*Term
	for _, p := range r.P {
		n, as := e.pieceKey(st, p)
		name += n
		args = append(args, as...)
	}
	return tt.App(name, SU, args...)
}

func (e *Eng) pieceKey(st *State, p Piece) (string, []*Term) {
	switch p.K {
	case 'W':
		return fmt.Sprintf(":W%d", p.T.S.W), []*Term{p.T}
	case 'C':
		return ":C", []*Term{p.T, p.N}
	}
	// the body is named by its closed text; outer index variables are arguments
	var free []*Term
	seen := map[*Term]bool{}
	var fv func(t *Term)
	vis := map[*Term]bool{}
	fv = func(t *Term) {
		if vis[t] {
			return
		}
		vis[t] = true
		if t.Op == OVar && t != p.BV && (strings.HasPrefix(t.Name, "k!") || strings.HasPrefix(t.Name, "lk!") || strings.HasPrefix(t.Name, "N!") || strings.HasPrefix(t.Name, "rk!") || strings.HasPrefix(t.Name, "q!")) && !seen[t] {
			seen[t] = true
			free = append(free, t)
		}
		for _, a := range t.Args {
			fv(a)
		}
	}
	var walk func(r *Rope)
	walk = func(r *Rope) {
		for _, q := range r.P {
			for _, t := range []*Term{q.T, q.N, q.Lo, q.Hi} {
				if t != nil {
					fv(t)
				}
			}
			if q.Body != nil {
				walk(q.Body)
			}
		}
	}
	walk(p.Body)
	sort.Slice(free, func(i, j int) bool { return free[i].ID < free[j].ID })
	m := map[*Term]*Term{p.BV: e.tt.Var("cb!", S64)}
	for i, f := range free {
		m[f] = e.tt.Var(fmt.Sprintf("cf!%d.%d", i, f.S.W), f.S)
	}
	b := e.subRope(p.Body, e.newSub(m))
	key := ":R{"
	for _, q := range b.P {
		n, as := e.pieceKey(st, q)
		key += n
		for _, a := range as {
			key += fmt.Sprintf(".%d", a.ID)
		}
	}
	return key + "}", append([]*Term{p.Lo, p.Hi}, free...)
}

// ropeEq is the condition under which two sequences are equal. Positions are
// aligned piece by piece; what cannot be aligned is an unprovable condition.
func (e *Eng) ropeEq(st *State, a, b *Rope) *Term {
	tt := e.tt
	pa := append([]Piece{}, e.compactR(e.cat(a)).P...)
	pb := append([]Piece{}, e.compactR(e.cat(b)).P...)
	var cs []*Term
	for guard := 0; guard < 5000; guard++ {
		// empty repetitions
		for len(pa) > 0 && pa[0].K == 'R' && pa[0].Lo == pa[0].Hi {
			pa = pa[1:]
		}
		for len(pb) > 0 && pb[0].K == 'R' && pb[0].Lo == pb[0].Hi {
			pb = pb[1:]
		}
		if len(pa) == 0 && len(pb) == 0 {
			return tt.And(cs...)
		}
		if len(pa) == 0 || len(pb) == 0 {
			rest := pa
			if len(pa) == 0 {
				rest = pb
			}
			cs = append(cs, tt.Eq(e.ropeLen(&Rope{rest}), tt.I(0)))
			return tt.And(cs...)
		}
		p, q := pa[0], pb[0]
		if samePiece(p, q) {
			pa, pb = pa[1:], pb[1:]
			continue
		}
		if x, ok := e.settle(st, p); ok {
			pa = append(append([]Piece{}, x...), pa[1:]...)
			continue
		}
		if x, ok := e.settle(st, q); ok {
			pb = append(append([]Piece{}, x...), pb[1:]...)
			continue
		}
		if cd := condOf(p); cd != nil || condOf(q) != nil {
			if cd == nil {
				cd = condOf(q)
			}
			// by cases
			s1, s2 := st.fork(), st.fork()
			for _, x := range cs {
				s1.assume(x)
				s2.assume(x)
			}
			s1.assume(cd)
			s2.assume(tt.Not(cd))
			c1 := e.ropeEq(s1, &Rope{pa}, &Rope{pb})
			c2 := e.ropeEq(s2, &Rope{pa}, &Rope{pb})
			return tt.And(append(cs, tt.Or(tt.Not(cd), c1), tt.Or(cd, c2))...)
		}
		if p.K == 'W' && q.K == 'W' {
			w := p.T.S.W
			if q.T.S.W < w {
				w = q.T.S.W
			}
			wp, wq := p.T.S.W, q.T.S.W
			cs = append(cs, tt.Eq(tt.Extract(wp-1, wp-w, p.T), tt.Extract(wq-1, wq-w, q.T)))
			pa, pb = pa[1:], pb[1:]
			if wp > w {
				pa = append(e.W(tt.Extract(wp-w-1, 0, p.T)).P, pa...)
			}
			if wq > w {
				pb = append(e.W(tt.Extract(wq-w-1, 0, q.T)).P, pb...)
			}
			continue
		}
		if p.K == 'C' && q.K == 'C' {
			if p.T == q.T && e.eqLen(st, p.N, q.N) {
				pa, pb = pa[1:], pb[1:]
				continue
			}
			if st.proveIn(cs, tt.Eq(p.N, q.N)) {
				if p.Spec == nil || q.Spec == nil || p.Spec.Fn == q.Spec.Fn {
					c := tt.Eq(p.T, q.T)
					if p.Spec == nil && q.Spec == nil || st.proveIn(cs, c) {
						cs = append(cs, c)
						pa, pb = pa[1:], pb[1:]
						continue
					}
				}
			}
			if p.Spec != nil {
				if r := e.reveal(st, p); r != nil {
					pa = append(append([]Piece{}, r.P...), pa[1:]...)
					continue
				}
			}
			if q.Spec != nil {
				if r := e.reveal(st, q); r != nil {
					pb = append(append([]Piece{}, r.P...), pb[1:]...)
					continue
				}
			}
			if len(pa) == 1 && len(pb) == 1 {
				cs = append(cs, tt.Eq(p.N, q.N), tt.Eq(p.T, q.T))
				return tt.And(cs...)
			}
			return tt.And(append(cs, e.unknownBool("chunks"))...)
		}
		if p.K == 'R' && q.K == 'R' && p.Lo == q.Lo {
			if p.Hi == q.Hi || st.proveIn(cs, tt.Eq(p.Hi, q.Hi)) {
				kv := tt.Var(tt.FreshName("q!"), S64)
				ba := e.subRope(p.Body, e.newSub(map[*Term]*Term{p.BV: kv}))
				bb := e.subRope(q.Body, e.newSub(map[*Term]*Term{q.BV: kv}))
				st2 := st.fork()
				st2.assume(tt.Ule(p.Lo, kv))
				st2.assume(tt.Ult(kv, p.Hi))
				c := e.ropeEq(st2, ba, bb)
				if !c.IsTrue() {
					cs = append(cs, tt.Forall(p.Hi, kv, tt.Or(tt.Ult(kv, p.Lo), c)))
				}
				pa, pb = pa[1:], pb[1:]
				continue
			}
		}
		if p.K == 'W' && q.K != 'W' {
			p, q, pa, pb = q, p, pb, pa
		}
		// p is not a word
		if p.K == 'C' {
			if p.Spec != nil {
				if r := e.reveal(st, p); r != nil {
					pa = append(append([]Piece{}, r.P...), pa[1:]...)
					continue
				}
			}
			if q.K == 'C' && q.Spec != nil {
				if r := e.reveal(st, q); r != nil {
					pb = append(append([]Piece{}, r.P...), pb[1:]...)
					continue
				}
			}
			if c, ok := st.pinOf(p.N); ok && c <= 512 {
				if c == 0 {
					pa = pa[1:]
					continue
				}
				pa = append(e.W(e.chunkWord(p.T, int(c))).P, pa[1:]...)
				continue
			}
			if q.K == 'W' && len(pa) == 1 && len(pb) == 1 {
				if q.T.S.W <= 4096 {
					cs = append(cs, tt.Eq(p.N, tt.I(int64(q.T.S.W/8))), tt.Eq(e.chunkWord(p.T, q.T.S.W/8), q.T))
					return tt.And(cs...)
				}
				cs = append(cs, tt.Eq(p.N, q.N), tt.Eq(p.T, e.seqU(st, &Rope{pb})))
				return tt.And(cs...)
			}
		}
		if p.K == 'R' || q.K == 'R' {
			x, px := p, &pa
			if p.K != 'R' {
				x, px = q, &pb
			}
			if st.proveIn(cs, tt.Eq(x.Lo, x.Hi)) {
				*px = (*px)[1:]
				continue
			}
			if st.proveIn(cs, tt.Ult(x.Lo, x.Hi)) {
				b := e.subRope(x.Body, e.newSub(map[*Term]*Term{x.BV: x.Lo}))
				y := x
				y.Lo = tt.Add(x.Lo, tt.I(1))
				*px = append(append(append([]Piece{}, b.P...), y), (*px)[1:]...)
				continue
			}
		}
		if debugOn {
			fmt.Fprintln(os.Stderr, "ropeEq:\n  ", e.ropeStr(&Rope{pa}), "\n  ", e.ropeStr(&Rope{pb}))
		}
		return tt.And(append(cs, e.unknownBool("sequences"))...)
	}
	return e.unknownBool("sequences")
}

func (e *Eng) unknownBool(why string) *Term {
	return e.tt.Var(e.tt.FreshName("?"+why), SBool)
}

func (e *Eng) ropeStr(r *Rope) string {
	var sb strings.Builder
	for i, p := range r.P {
		if i > 0 {
			sb.WriteString(" ++ ")
		}
		switch p.K {
		case 'W':
			fmt.Fprintf(&sb, "W%d(%s)", p.T.S.W/8, e.tt.strD(p.T, 4))
		case 'C':
			n := ""
			if p.Spec != nil {
				n = p.Spec.Fn.Name() + ":"
			}
			fmt.Fprintf(&sb, "C(%s%s;%s)", n, e.tt.strD(p.T, 3), e.tt.strD(p.N, 3))
		case 'R':
			fmt.Fprintf(&sb, "R[%s,%s){%s}", e.tt.strD(p.Lo, 3), e.tt.strD(p.Hi, 3), e.ropeStr(p.Body))
		}
	}
	return sb.String()
}

// byteAt is one byte of a sequence.
func (e *Eng) byteAt(st *State, r *Rope, i *Term) *Term {
	tt := e.tt
	if len(r.P) == 1 && r.P[0].K == 'W' {
		if c, ok := i.CU(); ok {
			w := r.P[0].T.S.W
			hi := w - 1 - 8*int(c)
			if hi < 7 {
				fail("byte index out of range")
			}
			return tt.Extract(hi, hi-7, r.P[0].T)
		}
		if r.P[0].T.S.W <= 512 {
			// symbolic index into a short word
			w := r.P[0].T.S.W
			n := w / 8
			res := tt.Extract(7, 0, r.P[0].T)
			for j := n - 2; j >= 0; j-- {
				hi := w - 1 - 8*j
				res = tt.Ite(tt.Eq(i, tt.I(int64(j))), tt.Extract(hi, hi-7, r.P[0].T), res)
			}
			return res
		}
	}
	if _, rest, ok := e.split(st, r, i); ok {
		if b, _, ok := e.split(st, rest, tt.I(1)); ok && len(b.P) == 1 && b.P[0].K == 'W' {
			return b.P[0].T
		}
	}
	return tt.App("byteAt", S8, e.seqU(st, r), i)
}

// setBytes replaces the bytes from off on.
func (e *Eng) setBytes(st *State, r *Rope, off *Term, with *Rope) *Rope {
	n := e.ropeLen(with)
	if isZero(n) {
		return r
	}
	pre, rest, ok := e.split(st, r, off)
	if !ok {
		fail("cannot write at offset %s of %s", e.tt.Str(off), e.ropeStr(r))
	}
	_, post, ok := e.split(st, rest, n)
	if !ok {
		if e.eqLen(st, e.ropeLen(rest), n) {
			post = &Rope{}
		} else {
			fail("cannot overwrite %s bytes of %s", e.tt.Str(n), e.ropeStr(rest))
		}
	}
	return e.cat(pre, with, post)
}

// ---------------------------------------------------------------------------
// Merging

var errNoMerge = fmt.Errorf("no merge")

func (e *Eng) merge(c *Term, a, b Value) (Value, bool) {
	tt := e.tt
	if a == poison || b == poison {
		return poison, true
	}
	switch x := a.(type) {
	case nil:
		if b == nil {
			return nil, true
		}
		return nil, false
	case *Term:
		y, ok := b.(*Term)
		if !ok || x.S != y.S {
			return nil, false
		}
		if x.S.K == KBV && x.S.W <= 64 && bitTest(c) && (x.Op == OConcat || y.Op == OConcat) {
			return e.iteWord(c, x, y), true
		}
		return tt.Ite(c, x, y), true
	case *StructV:
		y, ok := b.(*StructV)
		if !ok || len(x.F) != len(y.F) {
			return nil, false
		}
		if x == y {
			return x, true
		}
		f := make([]Value, len(x.F))
		for i := range f {
			v, ok := e.merge(c, x.F[i], y.F[i])
			if !ok {
				return nil, false
			}
			f[i] = v
		}
		return &StructV{x.T, f}, true
	case *ArrV:
		y, ok := b.(*ArrV)
		if !ok || len(x.E) != len(y.E) {
			return nil, false
		}
		if x == y {
			return x, true
		}
		f := make([]Value, len(x.E))
		for i := range f {
			v, ok := e.merge(c, x.E[i], y.E[i])
			if !ok {
				return nil, false
			}
			f[i] = v
		}
		return &ArrV{f}, true
	case *Rope:
		y, ok := b.(*Rope)
		if !ok {
			return nil, false
		}
		if x == y || sameRopeRaw(x, y) {
			return x, true
		}
		// word by word when the shapes agree
		if len(x.P) != len(y.P) {
			return e.mergeCond(c, x, y)
		}
		out := &Rope{}
		for i := range x.P {
			p, q := x.P[i], y.P[i]
			if samePiece(p, q) {
				out.P = append(out.P, p)
				continue
			}
			if p.K == 'W' && q.K == 'W' && p.T.S == q.T.S {
				// merge byte-wise where equal
				out.P = append(out.P, Piece{K: 'W', T: e.iteWord(c, p.T, q.T), N: p.N})
				continue
			}
			if p.K == 'C' && q.K == 'C' && p.N == q.N && p.Spec == nil && q.Spec == nil {
				out.P = append(out.P, Piece{K: 'C', T: tt.Ite(c, p.T, q.T), N: p.N})
				continue
			}
			return e.mergeCond(c, x, y)
		}
		return out, true
	case Ptr:
		y, ok := b.(Ptr)
		if !ok {
			return nil, false
		}
		if !samePtr(x, y) {
			return e.mergeFresh(c, x, y)
		}
		return x, true
	case *ErrV:
		if y, ok := b.(*ErrV); ok {
			if x.Msg == y.Msg {
				return x, true
			}
			return &ErrV{"one of several"}, true
		}
		return nil, false
	case SliceV:
		y, ok := b.(SliceV)
		if ok && !samePtr(x.Base, y.Base) && x.Off == y.Off {
			p, ok := e.mergeFresh(c, x.Base, y.Base)
			if !ok {
				return nil, false
			}
			return SliceV{p.(Ptr), x.Off, tt.Ite(c, x.Len, y.Len), tt.Ite(c, x.Cap, y.Cap)}, true
		}
		if !ok || !samePtr(x.Base, y.Base) || x.Off != y.Off {
			return nil, false
		}
		return SliceV{x.Base, x.Off, tt.Ite(c, x.Len, y.Len), tt.Ite(c, x.Cap, y.Cap)}, true
	case IfaceV:
		y, ok := b.(IfaceV)
		if !ok {
			return nil, false
		}
		if x.T == nil && y.T == nil {
			return x, true
		}
		if x.T == nil || y.T == nil || !types.Identical(x.T, y.T) {
			return nil, false
		}
		v, ok := e.merge(c, x.V, y.V)
		if !ok {
			return nil, false
		}
		return IfaceV{x.T, v}, true
	case TupleV:
		y, ok := b.(TupleV)
		if !ok || len(x) != len(y) {
			return nil, false
		}
		r := make(TupleV, len(x))
		for i := range x {
			v, ok := e.merge(c, x[i], y[i])
			if !ok {
				return nil, false
			}
			r[i] = v
		}
		return r, true
	default:
		if e.sameV(a, b) {
			return a, true
		}
	}
	return nil, false
}

// mergeCond: a common prefix, then a sequence that depends on the condition.
func (e *Eng) mergeCond(c *Term, x, y *Rope) (Value, bool) {
	i := 0
	for i < len(x.P) && i < len(y.P) && samePiece(x.P[i], y.P[i]) {
		i++
	}
	ra, rb := &Rope{x.P[i:]}, &Rope{y.P[i:]}
	for _, r := range []*Rope{ra, rb} {
		for _, p := range r.P {
			if p.K == 'R' || p.Spec != nil {
				return nil, false
			}
		}
	}
	p := Piece{K: 'C', T: e.tt.Ite(c, e.seqU(nil, ra), e.seqU(nil, rb)), N: e.tt.Ite(c, e.ropeLen(ra), e.ropeLen(rb))}
	return &Rope{append(append([]Piece{}, x.P[:i]...), p)}, true
}

// unseq is the inverse of seqU.
func (e *Eng) unseq(u, n *Term) []Piece {
	if u.Op == OApp && strings.HasPrefix(u.Name, "seq") && !strings.Contains(u.Name, "R{") {
		var ps []Piece
		i := 0
		ok := true
		for _, w := range strings.Split(u.Name[3:], ":") {
			switch {
			case w == "":
			case w[0] == 'W' && i < len(u.Args):
				ps = append(ps, e.W(u.Args[i]).P...)
				i++
			case w[0] == 'C' && i+1 < len(u.Args):
				ps = append(ps, Piece{K: 'C', T: u.Args[i], N: u.Args[i+1]})
				i += 2
			default:
				ok = false
			}
		}
		if ok && i == len(u.Args) {
			return ps
		}
	}
	if isZero(n) {
		return nil
	}
	return []Piece{{K: 'C', T: u, N: n}}
}

// condOf is the condition a conditional piece depends on.
func condOf(p Piece) *Term {
	if p.K == 'C' && p.T.Op == OIte {
		return p.T.Args[0]
	}
	return nil
}

// side is one side of a conditional piece.
func (e *Eng) side(p Piece, yes bool) []Piece {
	i := 2
	if yes {
		i = 1
	}
	n := p.N
	if n.Op == OIte && n.Args[0] == p.T.Args[0] {
		n = n.Args[i]
	}
	return e.unseq(p.T.Args[i], n)
}

// settle resolves a conditional piece whose condition is known.
func (e *Eng) settle(st *State, p Piece) ([]Piece, bool) {
	c := condOf(p)
	if c == nil {
		return nil, false
	}
	if v, k := st.quick(c); k {
		return e.side(p, v), true
	}
	if st.prove(c) {
		return e.side(p, true), true
	}
	if st.prove(e.tt.Not(c)) {
		return e.side(p, false), true
	}
	return nil, false
}

// mergeFresh merges objects created on the two sides of a branch: nothing
// refers to them except through what is being merged.
func (e *Eng) mergeFresh(c *Term, x, y Ptr) (Value, bool) {
	m := e.mg
	if m == nil || x.Obj == 0 || y.Obj == 0 || len(x.Path) != 0 || len(y.Path) != 0 {
		return nil, false
	}
	if _, ok := m.b.heap[x.Obj]; ok {
		return nil, false
	}
	if _, ok := m.a.heap[y.Obj]; ok {
		return nil, false
	}
	if o, ok := m.pa[x.Obj]; ok {
		if m.pb[y.Obj] == o {
			return Ptr{Obj: o}, true
		}
		return nil, false
	}
	if _, ok := m.pb[y.Obj]; ok {
		return nil, false
	}
	va, ok1 := m.a.heap[x.Obj]
	vb, ok2 := m.b.heap[y.Obj]
	if !ok1 || !ok2 {
		return nil, false
	}
	e.nobj++
	o := e.nobj
	m.pa[x.Obj], m.pb[y.Obj] = o, o
	v, ok := e.merge(c, va, vb)
	if !ok {
		return nil, false
	}
	m.out[o] = v
	return Ptr{Obj: o}, true
}

type mergeCtx struct {
	a, b   *State
	pa, pb map[int]int
	out    map[int]Value
}

// iteWord merges two words, keeping equal slices unconditional.
func (e *Eng) iteWord(c, a, b *Term) *Term {
	tt := e.tt
	if a.Op != OConcat && b.Op != OConcat {
		if a.S.W > 64 && (a.IsConst() || b.IsConst()) {
			// byte by byte
			var ts []*Term
			for hi := a.S.W - 1; hi >= 0; hi -= 8 {
				ts = append(ts, tt.Ite(c, tt.Extract(hi, hi-7, a), tt.Extract(hi, hi-7, b)))
			}
			return tt.Concat(ts...)
		}
		return tt.Ite(c, a, b)
	}
	// walk the segments of both
	var ts []*Term
	sa, sb := segs(a), segs(b)
	i, j := 0, 0
	ua, ub := 0, 0 // used bits of the current segments
	for i < len(sa) && j < len(sb) {
		wa, wb := sa[i].S.W-ua, sb[j].S.W-ub
		w := wa
		if wb < w {
			w = wb
		}
		x := tt.Extract(wa-1, wa-w, sa[i])
		y := tt.Extract(wb-1, wb-w, sb[j])
		ts = append(ts, tt.Ite(c, x, y))
		ua += w
		ub += w
		if ua == sa[i].S.W {
			i, ua = i+1, 0
		}
		if ub == sb[j].S.W {
			j, ub = j+1, 0
		}
	}
	return tt.Concat(ts...)
}

func samePtr(a, b Ptr) bool {
	if a.Obj != b.Obj || len(a.Path) != len(b.Path) {
		return false
	}
	for i := range a.Path {
		if a.Path[i] != b.Path[i] {
			return false
		}
	}
	return true
}

// sameV: syntactic identity.
func (e *Eng) sameV(a, b Value) bool {
	switch x := a.(type) {
	case nil:
		return b == nil
	case *PoisonV:
		return b == poison
	case *Term:
		return a == b
	case *StructV:
		y, ok := b.(*StructV)
		if !ok || len(x.F) != len(y.F) {
			return false
		}
		if x == y {
			return true
		}
		for i := range x.F {
			if !e.sameV(x.F[i], y.F[i]) {
				return false
			}
		}
		return true
	case *ArrV:
		y, ok := b.(*ArrV)
		if !ok || len(x.E) != len(y.E) {
			return false
		}
		if x == y {
			return true
		}
		for i := range x.E {
			if !e.sameV(x.E[i], y.E[i]) {
				return false
			}
		}
		return true
	case *Rope:
		y, ok := b.(*Rope)
		return ok && (x == y || sameRopeRaw(e.compactR(x), e.compactR(y)))
	case *SymArr:
		y, ok := b.(*SymArr)
		if !ok {
			return false
		}
		if x == y {
			return true
		}
		if x.Len != y.Len || !e.sameLam(x.Base, y.Base) || len(x.Layers) != len(y.Layers) {
			return false
		}
		for i := range x.Layers {
			l, m := x.Layers[i], y.Layers[i]
			if l.Lo != m.Lo || l.Hi != m.Hi || !e.sameLam(l.L, m.L) || !e.sameV(l.V, m.V) {
				return false
			}
		}
		return true
	case Ptr:
		y, ok := b.(Ptr)
		return ok && samePtr(x, y)
	case SliceV:
		y, ok := b.(SliceV)
		return ok && samePtr(x.Base, y.Base) && x.Off == y.Off && x.Len == y.Len && x.Cap == y.Cap
	case IfaceV:
		y, ok := b.(IfaceV)
		if !ok {
			return false
		}
		if x.T == nil || y.T == nil {
			return x.T == nil && y.T == nil
		}
		return types.Identical(x.T, y.T) && e.sameV(x.V, y.V)
	case FuncV:
		y, ok := b.(FuncV)
		if !ok || x.Fn != y.Fn || x.Bi != y.Bi || len(x.Bind) != len(y.Bind) {
			return false
		}
		for i := range x.Bind {
			if !e.sameV(x.Bind[i], y.Bind[i]) {
				return false
			}
		}
		return true
	case TupleV:
		y, ok := b.(TupleV)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !e.sameV(x[i], y[i]) {
				return false
			}
		}
		return true
	case MapRef:
		return a == b
	case ChanRef:
		return a == b
	case *MapC:
		y, ok := b.(*MapC)
		if !ok || x.Name != y.Name || x.N != y.N || x.Size != y.Size || len(x.W) != len(y.W) {
			return false
		}
		for i := range x.W {
			if x.W[i].Pres != y.W[i].Pres || !e.sameV(x.W[i].Key, y.W[i].Key) || !e.sameV(x.W[i].V, y.W[i].V) {
				return false
			}
		}
		return true
	case *ChanC:
		y, ok := b.(*ChanC)
		if !ok || x.Closed != y.Closed || x.Avail != y.Avail || len(x.Sent) != len(y.Sent) {
			return false
		}
		for i := range x.Sent {
			if !e.sameV(x.Sent[i], y.Sent[i]) {
				return false
			}
		}
		return true
	case *StreamC:
		y, ok := b.(*StreamC)
		if !ok || x.Any != y.Any || x.Short != y.Short || x.Left != y.Left || x.Pos != y.Pos {
			return false
		}
		return x.R == nil && y.R == nil || x.R != nil && y.R != nil && e.sameV(x.R, y.R)
	case *IterV:
		y, ok := b.(*IterV)
		return ok && x.Pos == y.Pos && (x.Map == y.Map)
	case *RdrV:
		y, ok := b.(*RdrV)
		if !ok || x.Kind != y.Kind || x.N != y.N || !e.sameV(x.Under, y.Under) {
			return false
		}
		return x.Buf == nil && y.Buf == nil || x.Buf != nil && y.Buf != nil && e.sameV(x.Buf, y.Buf)
	case *ErrV:
		return a == b
	}
	return false
}

func (e *Eng) sameLam(a, b *Lam) bool {
	if a == nil || b == nil {
		return a == b
	}
	return a == b || a.K == b.K && e.sameV(a.V, b.V)
}

var debugOn = os.Getenv("GOVC_DEBUG") != ""
