package main

import (
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Models of math/big, the curve and the range proofs: terms of an abstract
// algebra. Points are terms of sort U; px and py are their coordinates.

const bpPkg = "github.com/yoss22/bulletproofs"

func (e *Eng) bigOf(st *State, v Value) *Term {
	p := v.(Ptr)
	if p.Obj == 0 {
		fail("nil *big.Int")
	}
	return e.load(st, p).(*Term)
}

func (e *Eng) newBig(st *State, t *Term) Ptr { return Ptr{Obj: e.alloc(st, t)} }

// pointTerm is the abstract point held by a Point value.
func (e *Eng) pointTerm(st *State, v Value) *Term {
	var s *StructV
	switch x := v.(type) {
	case Ptr:
		if x.Obj == 0 {
			fail("nil point")
		}
		s = e.load(st, x).(*StructV)
	case *StructV:
		s = x
	default:
		fail("point %T", v)
	}
	if s.F[0].(Ptr).Obj == 0 || s.F[1].(Ptr).Obj == 0 {
		fail("point without coordinates")
	}
	x, y := e.bigOf(st, s.F[0]), e.bigOf(st, s.F[1])
	if x.Op == OApp && y.Op == OApp && x.Name == "px" && y.Name == "py" {
		if x.Args[0] == y.Args[0] {
			return x.Args[0]
		}
		if q := y.Args[0]; q.Op == OApp && q.Name == "pneg" && q.Args[0] == x.Args[0] {
			return q
		}
	}
	return e.tt.App("pt", SU, x, y)
}

func (e *Eng) mkPoint(st *State, t types.Type, p *Term) *StructV {
	tt := e.tt
	if p.Op == OApp && p.Name == "pt" {
		return &StructV{t, []Value{e.newBig(st, p.Args[0]), e.newBig(st, p.Args[1])}}
	}
	px := p
	if p.Op == OApp && p.Name == "pneg" {
		px = p.Args[0]
	}
	return &StructV{t, []Value{e.newBig(st, tt.App("px", SU, px)), e.newBig(st, tt.App("py", SU, p))}}
}

// smul with the laws of the group: linear in the scalar.
func (e *Eng) smul(p, s *Term) *Term {
	tt := e.tt
	if s.Op == OApp {
		switch s.Name {
		case "zsum":
			return e.padd(e.smul(p, s.Args[0]), e.smul(p, s.Args[1]))
		case "zmul":
			return e.smul(e.smul(p, s.Args[1]), s.Args[0])
		case "zneg":
			return e.pneg(e.smul(p, s.Args[0]))
		}
	}
	if p.Op == OApp && p.Name == "pneg" {
		return e.pneg(e.smul(p.Args[0], s))
	}
	return tt.App("smul", SU, p, s)
}

func (e *Eng) pneg(p *Term) *Term {
	if p.Op == OApp && p.Name == "pneg" {
		return p.Args[0]
	}
	return e.tt.App("pneg", SU, p)
}

func (e *Eng) padd(a, b *Term) *Term {
	if a.ID > b.ID {
		a, b = b, a
	}
	return e.tt.App("padd", SU, a, b)
}

func (e *Eng) variadic(st *State, v Value) []Value {
	s := v.(SliceV)
	n, ok := s.Len.CU()
	if !ok {
		fail("variadic call of unknown length")
	}
	var out []Value
	for i := uint64(0); i < n; i++ {
		out = append(out, e.elemAt(st, s, e.tt.BV(64, i)))
	}
	return out
}

// b32 is the 32-byte image of an integer; frombytes is its inverse on integers
// below 2^256.
func (e *Eng) b32(x *Term) *Term {
	tt := e.tt
	if x.Op == OApp && x.Name == "frombytes" {
		if w := x.Args[0]; w.S.K == KBV && w.S.W == 256 {
			return w
		}
	}
	return tt.App("b32", SBV(256), x)
}

func (e *Eng) fromBytes(st *State, r *Rope) *Term {
	tt := e.tt
	if n, ok := e.ropeLen(r).CU(); ok && n <= 64 && n > 0 {
		w := e.word(r)
		if w.Op == OApp && w.Name == "b32" {
			return w.Args[0]
		}
		return tt.App("frombytes", SU, w)
	}
	return tt.App("frombytesU", SU, e.seqU(st, r))
}

func (e *Eng) modelBig(st *State, fn *ssa.Function, full string, args []Value) ([]Outcome, bool) {
	tt := e.tt
	ret := func(v Value) ([]Outcome, bool) { return one(st, v), true }
	if strings.HasPrefix(full, "(*math/big.Int).") {
		set := func(t *Term) ([]Outcome, bool) {
			p := args[0].(Ptr)
			if p.Obj == 0 {
				return []Outcome{{st: st, panic: "nil *big.Int"}}, true
			}
			e.store(st, p, t)
			return ret(p)
		}
		switch fn.Name() {
		case "Add", "Sub", "Mul", "Mod", "Div", "Exp", "ModInverse":
			var ts []*Term
			for _, a := range args[1:] {
				if p, ok := a.(Ptr); ok && p.Obj == 0 {
					ts = append(ts, tt.App("bignil", SU))
				} else {
					ts = append(ts, e.bigOf(st, a))
				}
			}
			return set(tt.App("big."+fn.Name(), SU, ts...))
		case "Set":
			return set(e.bigOf(st, args[1]))
		case "Neg":
			return set(tt.App("big.neg", SU, e.bigOf(st, args[1])))
		case "SetInt64", "SetUint64":
			return set(tt.App("big.ofint", SU, args[1].(*Term)))
		case "SetBytes":
			return set(e.fromBytes(st, e.bytesOf(st, args[1])))
		case "SetString":
			r := e.bytesOf(st, args[1])
			p, _ := set(tt.App("big.parse", SU, e.seqU(st, r), args[2].(*Term)))
			p[0].val = TupleV{p[0].val, tt.True}
			return p, true
		case "Cmp":
			a, b := e.bigOf(st, args[0]), e.bigOf(st, args[1])
			if a == b {
				return ret(tt.I(0))
			}
			return ret(tt.Ite(tt.Eq(a, b), tt.I(0), tt.Ite(tt.App("big.lt", SBool, a, b), tt.I(-1), tt.I(1))))
		case "Sign":
			a := e.bigOf(st, args[0])
			return ret(tt.Ite(tt.Eq(a, tt.App("big0", SU)), tt.I(0), tt.Ite(tt.App("big.isneg", SBool, a), tt.I(-1), tt.I(1))))
		case "Bit":
			return ret(tt.Zext(64, tt.App("big.bit", SBV(1), e.bigOf(st, args[0]), args[1].(*Term))))
		case "BitLen":
			if e.fits32(e.bigOf(st, args[0])) {
				st.assume(tt.Ule(tt.Zext(64, tt.App("big.bitlen", SBV(30), e.bigOf(st, args[0]))), tt.I(256)))
			}
			return ret(tt.Zext(64, tt.App("big.bitlen", SBV(30), e.bigOf(st, args[0]))))
		case "Bytes":
			a := e.bigOf(st, args[0])
			return ret(e.newBytes(st, e.chunk(tt.App("big.bytes", SU, a), tt.Zext(64, tt.App("big.byteslen", SBV(20), a)))))
		}
		return nil, false
	}
	if full == "math/big.NewInt" {
		return ret(e.newBig(st, tt.App("big.ofint", SU, args[0].(*Term))))
	}
	if strings.HasPrefix(full, "github.com/btcsuite/btcd/btcec.S256") {
		t := fn.Signature.Results().At(0).Type().(*types.Pointer)
		id := e.errObj("btcec.S256")
		if _, ok := st.heap[id]; !ok {
			st.heap[id] = e.curve(st, t.Elem(), "s256", 0)
		}
		return ret(Ptr{Obj: id})
	}
	if full == "(*github.com/btcsuite/btcd/btcec.KoblitzCurve).Params" {
		s := e.load(st, args[0].(Ptr)).(*StructV)
		u := s.T.Underlying().(*types.Struct)
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Name() == "CurveParams" {
				return ret(s.F[i])
			}
		}
		return nil, false
	}
	if !strings.Contains(full, bpPkg) {
		return nil, false
	}
	ptT := func() types.Type { return e.pointType(fn) }
	switch strings.ReplaceAll(full, bpPkg, "bp") {
	case "bp.GetB32":
		x := e.bigOf(st, args[0])
		var out []Outcome
		// integers read from at most 32 bytes, scalars and coordinates fit
		if !e.fits32(x) {
			c := tt.Ule(tt.Zext(64, tt.App("big.bitlen", SBV(30), x)), tt.I(256))
			if p := e.need(st, c, "fits"); p != nil {
				out = append(out, Outcome{st: p, panic: "num doesn't fit in 32 bytes"})
			}
		}
		return append(out, Outcome{st: st, val: e.W(e.b32(x))}), true
	case "bp.ModSqrtFast":
		a := e.bigOf(st, args[0])
		if q := e.curvePoint(a); q != nil {
			// x^3+7 of a point: its root among y and -y
			y := tt.App("py", SU, q)
			if st.prove(e.isQR(st, y)) {
				return ret(e.newBig(st, y))
			}
			if st.prove(tt.Not(e.isQR(st, y))) {
				return ret(e.newBig(st, tt.App("py", SU, e.pneg(q))))
			}
		}
		return ret(e.newBig(st, tt.App("modsqrt", SU, a)))
	case "bp.IsQuadraticResidue":
		y := e.bigOf(st, args[0])
		return ret(e.isQR(st, y))
	case "bp.Neg":
		return ret(e.newBig(st, e.zneg(e.bigOf(st, args[0]))))
	case "bp.Sum", "bp.Mul":
		op := "zsum"
		if fn.Name() == "Mul" {
			op = "zmul"
		}
		vs := e.variadic(st, args[0])
		if len(vs) == 0 {
			fail("empty sum")
		}
		acc := e.bigOf(st, vs[0])
		for _, v := range vs[1:] {
			acc = tt.App(op, SU, acc, e.bigOf(st, v))
		}
		return ret(e.newBig(st, acc))
	case "bp.ScalarMulPoint":
		p := e.smul(e.pointTerm(st, args[0]), e.bigOf(st, args[1]))
		return ret(Ptr{Obj: e.alloc(st, e.mkPoint(st, ptT(), p))})
	case "bp.SumPoints":
		vs := e.variadic(st, args[0])
		acc := e.pointTerm(st, vs[0])
		for _, v := range vs[1:] {
			acc = e.padd(acc, e.pointTerm(st, v))
		}
		return ret(Ptr{Obj: e.alloc(st, e.mkPoint(st, ptT(), acc))})
	case "(*bp.Point).Equals":
		a, b := e.load(st, args[0].(Ptr)).(*StructV), e.load(st, args[1].(Ptr)).(*StructV)
		return ret(tt.And(tt.Eq(e.bigOf(st, a.F[0]), e.bigOf(st, b.F[0])), tt.Eq(e.bigOf(st, a.F[1]), e.bigOf(st, b.F[1]))))
	case "(*bp.Point).Bytes":
		p := args[0].(Ptr)
		if p.Obj == 0 {
			return []Outcome{{st: st, panic: "Bytes of a nil point"}}, true
		}
		t := e.pointTerm(st, p)
		if t.Op == OApp && t.Name == "ptdec" {
			return ret(e.newBytes(st, e.W(tt.Concat(tt.App("ptsign", SBV(8), t), tt.Extract(255, 0, t.Args[0])))))
		}
		return ret(e.newBytes(st, e.W(tt.App("pointBytes", SBV(264), t))))
	case "(*bp.Point).Read":
		var out []Outcome
		for _, o := range e.readN(st, args[1].(IfaceV), tt.I(33), nil) {
			if o.err != 0 {
				out = append(out, Outcome{st: o.st, val: e.readErr(o)})
				continue
			}
			w := e.word(o.data)
			if w.Op == OApp && w.Name == "pointBytes" {
				e.store(o.st, args[0].(Ptr), e.mkPoint(o.st, ptT(), w.Args[0]))
				out = append(out, Outcome{st: o.st, val: nilErr})
				continue
			}
			c := tt.Eq(tt.Extract(263, 257, w), tt.BV(7, 4))
			s2 := o.st.fork()
			o.st.assume(c)
			e.store(o.st, args[0].(Ptr), e.mkPoint(o.st, ptT(), tt.App("ptdec", SU, w)))
			s2.assume(tt.Not(c))
			out = append(out, Outcome{st: o.st, val: nilErr}, Outcome{st: s2, val: e.newErr(s2, "point")})
		}
		return out, true
	case "(*bp.BulletProof).Bytes":
		p := e.load(st, args[0].(Ptr)).(*Term)
		return ret(e.newBytes(st, e.chunk(tt.App("bpBytes", SU, p), tt.I(675))))
	case "(*bp.BulletProof).Read":
		var out []Outcome
		for _, o := range e.readN(st, args[1].(IfaceV), tt.I(675), nil) {
			if o.err != 0 {
				out = append(out, Outcome{st: o.st, val: e.readErr(o)})
				continue
			}
			if u := e.seqU(o.st, o.data); u.Op == OApp && u.Name == "bpBytes" {
				e.store(o.st, args[0].(Ptr), u.Args[0])
				out = append(out, Outcome{st: o.st, val: nilErr})
				continue
			}
			u := e.seqU(o.st, o.data)
			c := tt.App("bpValid", SBool, u)
			s2 := o.st.fork()
			o.st.assume(c)
			e.store(o.st, args[0].(Ptr), tt.App("bpRead", SU, u))
			s2.assume(tt.Not(c))
			out = append(out, Outcome{st: o.st, val: nilErr}, Outcome{st: s2, val: e.newErr(s2, "range proof")})
		}
		return out, true
	case "bp.NewProver":
		t := fn.Signature.Results().At(0).Type().(*types.Pointer)
		return ret(Ptr{Obj: e.alloc(st, &StructV{T: t.Elem(), F: []Value{args[0]}})})
	case "(*bp.Prover).Verify":
		n := e.load(st, args[0].(Ptr)).(*StructV).F[0].(*Term)
		return ret(tt.App("rangeProofOK", SBool, n, e.pointTerm(st, args[1]), args[2].(*Term)))
	}
	return nil, false
}

func (e *Eng) pointType(fn *ssa.Function) types.Type { return e.namedIn(fn.Pkg, "Point") }

func (e *Eng) zneg(x *Term) *Term {
	if x.Op == OApp && x.Name == "zneg" {
		return x.Args[0]
	}
	return e.tt.App("zneg", SU, x)
}

// curvePoint: the point q when a is px(q)^3+7.
func (e *Eng) curvePoint(a *Term) *Term {
	is := func(t *Term, n string) bool { return (t.Op == OApp || t.Op == OVar) && t.Name == n }
	if !is(a, "big.Add") {
		return nil
	}
	m, b := a.Args[0], a.Args[1]
	if !is(b, "curve.B") {
		m, b = b, m
	}
	if !is(b, "curve.B") || !is(m, "big.Mul") {
		return nil
	}
	x, sq := m.Args[1], m.Args[0]
	if !is(sq, "big.Mul") {
		x, sq = sq, x
	}
	if !is(sq, "big.Mul") || sq.Args[0] != x || sq.Args[1] != x || !is(x, "px") {
		return nil
	}
	return x.Args[0]
}

// isQR: exactly one of y and -y is a quadratic residue (p = 3 mod 4); roots
// computed by ModSqrt are residues.
func (e *Eng) isQR(st *State, y *Term) *Term {
	tt := e.tt
	if y.Op == OApp {
		switch y.Name {
		case "modsqrt":
			return tt.True
		case "py":
			if q := y.Args[0]; q.Op == OApp && q.Name == "pneg" {
				return tt.Not(e.isQR(st, tt.App("py", SU, q.Args[0])))
			}
		}
	}
	return tt.App("isqr", SBool, y)
}

// fits32: scalars modulo the group order and coordinates fit in 32 bytes.
func (e *Eng) fits32(x *Term) bool {
	if x.Op == OApp {
		switch x.Name {
		case "px", "py", "zsum", "zmul", "zneg", "modsqrt":
			return true
		case "frombytes":
			return x.Args[0].S.W <= 256
		}
	}
	return false
}

// curve builds the value of the curve parameters: every *big.Int field a
// constant of its own.
func (e *Eng) curve(st *State, t types.Type, name string, depth int) Value {
	tt := e.tt
	if depth > 3 {
		return e.zero(t)
	}
	u, ok := t.Underlying().(*types.Struct)
	if !ok {
		return e.zero(t)
	}
	s := &StructV{T: t}
	for i := 0; i < u.NumFields(); i++ {
		f := u.Field(i)
		if p, ok := f.Type().(*types.Pointer); ok {
			if special(p.Elem()) == "big" {
				s.F = append(s.F, e.newBig(st, tt.App("curve."+f.Name(), SU)))
				continue
			}
			if _, ok := p.Elem().Underlying().(*types.Struct); ok {
				s.F = append(s.F, Ptr{Obj: e.alloc(st, e.curve(st, p.Elem(), name, depth+1))})
				continue
			}
		}
		s.F = append(s.F, e.zero(f.Type()))
	}
	return s
}

var _ = big.NewInt
