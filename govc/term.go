package main

import (
	"fmt"
	"math/big"
	"math/bits"
	"sort"
	"strconv"
	"strings"
)

// ---------------------------------------------------------------------------
// Hash-consed terms: booleans, bit vectors of any width, one uninterpreted
// sort U, uninterpreted functions and three binders (FORALL, COUNT, SUM).
// Every integer of the program is a bit vector of its real width, so machine
// arithmetic is exact.

type Kind uint8

const (
	KBool Kind = iota
	KBV
	KU
)

type Sort struct {
	K Kind
	W int
}

var (
	SBool = Sort{KBool, 0}
	SU    = Sort{KU, 0}
	S64   = Sort{KBV, 64}
	S8    = Sort{KBV, 8}
)

func SBV(w int) Sort { return Sort{KBV, w} }

type Op uint8

const (
	OConst Op = iota // bit-vector constant
	OTrue
	OFalse
	OVar   // named constant
	OBound // canonical bound variable, P1 = depth
	OApp   // uninterpreted function Name(args)
	ONot
	OAnd
	OOr
	OEq
	OIte
	OAdd
	OMul
	ONeg
	OUDiv
	OURem
	OSDiv
	OSRem
	OBVAnd
	OBVOr
	OBVXor
	OBVNot
	OShl
	OLshr
	OAshr
	OConcat
	OExtract // P1=hi P2=lo
	OSext    // to width of sort
	OUlt
	OUle
	OSlt
	OSle
	OForall // args: n, body ; P1 = depth of the bound variable
	OCount  // args: n, body(bool)
	OSum    // args: n, body(bv)
)

type Term struct {
	Op     Op
	S      Sort
	Args   []*Term
	Name   string
	U      uint64
	Big    *big.Int
	P1, P2 int
	ID     int
	depth  int // 1 + deepest binder inside, 0 if none
	fb     bool
	pd     uint8 // depth of nested permutations + 1
	fbm    uint64
	nl     uint8        // whether not linear: 0 unknown, 1 no, 2 yes
	arx    uint8        // alternations of additions and bitwise operations
	vars   map[int]bool // unused
}

type termTab struct {
	m    map[string]*Term
	next int
}

// A table per verification task: tasks run in parallel and share nothing.
type TT struct {
	permFact  map[*Term]bool
	tab       map[string]*Term
	next      int
	True      *Term
	False     *Term
	freshN    int
	bigc      map[string]*Term
	substHits int
}

func NewTT() *TT {
	t := &TT{tab: map[string]*Term{}, permFact: map[*Term]bool{}}
	t.True = t.mk(&Term{Op: OTrue, S: SBool})
	t.False = t.mk(&Term{Op: OFalse, S: SBool})
	return t
}

func (tt *TT) mk(t *Term) *Term {
	var b []byte
	b = append(b, byte(t.Op), byte(t.S.K))
	b = strconv.AppendInt(b, int64(t.S.W), 36)
	switch t.Op {
	case OConst:
		b = append(b, ':')
		if t.Big != nil {
			b = append(b, t.Big.Text(36)...)
		} else {
			b = strconv.AppendUint(b, t.U, 36)
		}
	case OVar, OApp:
		b = append(b, ':')
		b = append(b, t.Name...)
	case OBound, OExtract, OForall, OCount, OSum:
		b = append(b, ':')
		b = strconv.AppendInt(b, int64(t.P1), 36)
		b = append(b, '.')
		b = strconv.AppendInt(b, int64(t.P2), 36)
	}
	for _, a := range t.Args {
		b = append(b, ',')
		b = strconv.AppendInt(b, int64(a.ID), 36)
	}
	k := string(b)
	if x, ok := tt.tab[k]; ok {
		return x
	}
	t.ID = tt.next
	tt.next++
	for _, a := range t.Args {
		if a.depth > t.depth {
			t.depth = a.depth
		}
		t.fbm |= a.fbm
		h := a.arx
		if t.Op == OAdd && a.Op != OAdd && h < 200 && len(a.Args) > 0 {
			h++
		}
		if h > t.arx {
			t.arx = h
		}
	}
	switch t.Op {
	case OForall, OCount, OSum:
		t.fbm = t.Args[0].fbm | t.Args[1].fbm&^(1<<uint(t.P1))
		if t.P1+1 > t.depth {
			t.depth = t.P1 + 1
		}
	case OBound:
		if t.P1 > 60 {
			panic("binders too deep")
		}
		t.fbm = 1 << uint(t.P1)
		if t.P1+1 > t.depth {
			t.depth = t.P1 + 1
		}
	}
	t.fb = t.fbm != 0
	tt.tab[k] = t
	return t
}

func (t *Term) IsConst() bool { return t.Op == OConst }
func (t *Term) IsTrue() bool  { return t.Op == OTrue }
func (t *Term) IsFalse() bool { return t.Op == OFalse }

// small constant value
func (t *Term) CU() (uint64, bool) {
	if t.Op == OConst && t.S.W <= 64 {
		return t.U, true
	}
	return 0, false
}

func (t *Term) BigVal() *big.Int {
	if t.Big != nil {
		return t.Big
	}
	return new(big.Int).SetUint64(t.U)
}

func mask(w int) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << uint(w)) - 1
}

func (tt *TT) BV(w int, v uint64) *Term {
	if w > 64 {
		return tt.BVBig(w, new(big.Int).SetUint64(v))
	}
	return tt.mk(&Term{Op: OConst, S: SBV(w), U: v & mask(w)})
}

func (tt *TT) BVBig(w int, v *big.Int) *Term {
	if w <= 64 {
		x := new(big.Int).And(v, new(big.Int).SetUint64(mask(w)))
		return tt.BV(w, x.Uint64())
	}
	m := new(big.Int).Lsh(big.NewInt(1), uint(w))
	x := new(big.Int).Mod(v, m)
	return tt.mk(&Term{Op: OConst, S: SBV(w), Big: x})
}

func (tt *TT) I(v int64) *Term { return tt.BV(64, uint64(v)) }

func (tt *TT) Bool(b bool) *Term {
	if b {
		return tt.True
	}
	return tt.False
}

func (tt *TT) Var(name string, s Sort) *Term {
	return tt.mk(&Term{Op: OVar, S: s, Name: name})
}

func (tt *TT) App(name string, s Sort, args ...*Term) *Term {
	if len(args) == 0 {
		return tt.Var(name, s)
	}
	switch name {
	case "padd":
		// associative and commutative
		var xs []*Term
		for _, a := range args {
			if a.Op == OApp && a.Name == "padd" {
				xs = append(xs, a.Args...)
			} else {
				xs = append(xs, a)
			}
		}
		sort.Slice(xs, func(i, j int) bool { return xs[i].ID < xs[j].ID })
		args = xs
	case "big.Add", "big.Mul":
		if len(args) == 2 && args[0].ID > args[1].ID {
			args = []*Term{args[1], args[0]}
		}
	case "smul":
		// multiples of multiples commute
		if p := args[0]; p.Op == OApp && p.Name == "smul" && p.Args[1].ID > args[1].ID {
			return tt.App("smul", s, tt.App("smul", s, p.Args[0], args[1]), p.Args[1])
		}
	}
	return tt.mk(&Term{Op: OApp, S: s, Name: name, Args: args})
}

func (tt *TT) Bound(d int, s Sort) *Term {
	return tt.mk(&Term{Op: OBound, S: s, P1: d})
}

func (tt *TT) FreshName(p string) string {
	tt.freshN++
	return fmt.Sprintf("%s!%d", p, tt.freshN)
}

// ---------------------------------------------------------------- booleans

func (tt *TT) Not(a *Term) *Term {
	switch a.Op {
	case OTrue:
		return tt.False
	case OFalse:
		return tt.True
	case ONot:
		return a.Args[0]
	case OUlt:
		return tt.Ule(a.Args[1], a.Args[0])
	case OUle:
		return tt.Ult(a.Args[1], a.Args[0])
	case OSlt:
		return tt.Sle(a.Args[1], a.Args[0])
	case OSle:
		return tt.Slt(a.Args[1], a.Args[0])
	}
	return tt.mk(&Term{Op: ONot, S: SBool, Args: []*Term{a}})
}

func (tt *TT) nary(op Op, args []*Term) *Term {
	unit, zero := tt.True, tt.False
	if op == OOr {
		unit, zero = tt.False, tt.True
	}
	seen := map[*Term]bool{}
	var out []*Term
	var add func(a *Term) bool
	add = func(a *Term) bool {
		if a == unit || seen[a] {
			return true
		}
		if a == zero || seen[tt.Not(a)] {
			return false
		}
		if a.Op == op {
			for _, x := range a.Args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		seen[a] = true
		out = append(out, a)
		return true
	}
	for _, a := range args {
		if !add(a) {
			return zero
		}
	}
	if len(out) == 0 {
		return unit
	}
	if len(out) == 1 {
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool { return out[i].ID < out[j].ID })
	// absorption: in an OR, drop (and x ...) conjuncts whose negation is present
	if op == OOr {
		changed := false
		for i, a := range out {
			if a.Op == OAnd {
				var keep []*Term
				for _, c := range a.Args {
					if seen[tt.Not(c)] {
						continue
					}
					keep = append(keep, c)
				}
				if len(keep) != len(a.Args) {
					out[i] = tt.nary(OAnd, keep)
					changed = true
				}
			}
		}
		if changed {
			return tt.nary(OOr, out)
		}
	}
	// (a and b) or (a and not b)  ==> a
	if op == OOr && len(out) == 2 && out[0].Op == OAnd && out[1].Op == OAnd {
		x, y := out[0], out[1]
		common := []*Term{}
		in := map[*Term]bool{}
		for _, c := range y.Args {
			in[c] = true
		}
		var rx, ry []*Term
		for _, c := range x.Args {
			if in[c] {
				common = append(common, c)
				delete(in, c)
			} else {
				rx = append(rx, c)
			}
		}
		for _, c := range y.Args {
			if in[c] {
				ry = append(ry, c)
			}
		}
		if len(common) > 0 {
			return tt.And(append(common, tt.Or(tt.And(rx...), tt.And(ry...)))...)
		}
	}
	return tt.mk(&Term{Op: op, S: SBool, Args: out})
}

func (tt *TT) And(args ...*Term) *Term { return tt.nary(OAnd, args) }
func (tt *TT) Or(args ...*Term) *Term  { return tt.nary(OOr, args) }
func (tt *TT) Implies(a, b *Term) *Term {
	return tt.Or(tt.Not(a), b)
}

func (tt *TT) Eq(a, b *Term) *Term {
	if a == b {
		return tt.True
	}
	if a.S != b.S {
		panic(fmt.Sprintf("Eq of different sorts: %v / %v", tt.Str(a), tt.Str(b)))
	}
	if a.Op == OConst && b.Op == OConst {
		return tt.False
	}
	if a.S.K == KBool {
		if a.IsTrue() {
			return b
		}
		if b.IsTrue() {
			return a
		}
		if a.IsFalse() {
			return tt.Not(b)
		}
		if b.IsFalse() {
			return tt.Not(a)
		}
		if a == tt.Not(b) {
			return tt.False
		}
	}
	if a.Op == OConst {
		a, b = b, a
	}
	for _, p := range [][2]*Term{{a, b}, {b, a}} {
		// x == ite(c, y, x)
		if i := p[1]; i.Op == OIte && i.arx > 3 {
			if i.Args[2] == p[0] {
				return tt.Or(tt.Not(i.Args[0]), tt.Eq(p[0], i.Args[1]))
			}
			if i.Args[1] == p[0] {
				return tt.Or(i.Args[0], tt.Eq(p[0], i.Args[2]))
			}
		}
	}
	if a.Op == OBVXor && b.Op == OBVXor {
		// common operands cancel
		in := map[*Term]bool{}
		for _, x := range a.Args {
			in[x] = true
		}
		common := false
		for _, x := range b.Args {
			common = common || in[x]
		}
		if common {
			z := tt.BV(a.S.W, 0)
			l, r := z, z
			for _, x := range b.Args {
				if in[x] {
					delete(in, x)
				} else {
					r = tt.bitop(OBVXor, r, x)
				}
			}
			for _, x := range a.Args {
				if in[x] {
					l = tt.bitop(OBVXor, l, x)
				}
			}
			return tt.Eq(l, r)
		}
	}
	if a.S.K == KBV {
		// x + c == y + d
		ba, ca := tt.splitAdd(a)
		bb, cb := tt.splitAdd(b)
		if ba == bb {
			return tt.Bool(ca == nil && cb == nil || constEq(tt, ca, cb, a.S.W))
		}
		if b.Op == OConst && ca != nil {
			return tt.Eq(ba, tt.Sub(b, ca))
		}
		if a.Op == OIte && b.Op == OConst {
			// ite(c, k1, k2) == k
			x, y := a.Args[1], a.Args[2]
			if x.Op == OConst || y.Op == OConst {
				return tt.Or(tt.And(a.Args[0], tt.Eq(x, b)), tt.And(tt.Not(a.Args[0]), tt.Eq(y, b)))
			}
		}
		if a.Op == OConcat && b.Op == OConst {
			// zero extension compared with a constant
			var cs []*Term
			pos := a.S.W
			for _, x := range a.Args {
				hi := pos - 1
				lo := pos - x.S.W
				cs = append(cs, tt.Eq(x, tt.Extract(hi, lo, b)))
				pos = lo
			}
			return tt.And(cs...)
		}
		if a.Op == OConcat && b.Op == OConcat && len(a.Args) == len(b.Args) {
			same := true
			for i := range a.Args {
				if a.Args[i].S != b.Args[i].S {
					same = false
				}
			}
			if same {
				var cs []*Term
				for i := range a.Args {
					cs = append(cs, tt.Eq(a.Args[i], b.Args[i]))
				}
				return tt.And(cs...)
			}
		}
		if pieceOf(a, b) || pieceOf(b, a) || a.Op == OConcat && b.Op == OConcat && len(a.Args)+len(b.Args) <= 8 {
			// cut at the boundaries of both, when that decides a part
			at := map[int]bool{}
			for _, t := range []*Term{a, b} {
				p := 0
				ss := segs(t)
				for i := len(ss) - 1; i >= 0; i-- {
					p += ss[i].S.W
					at[p] = true
				}
			}
			var cuts []int
			for p := range at {
				cuts = append(cuts, p)
			}
			sort.Ints(cuts)
			lo, same := 0, false
			var cs []*Term
			for _, p := range cuts {
				x, y := tt.Extract(p-1, lo, a), tt.Extract(p-1, lo, b)
				if x.Op == OConst && y.Op == OConst && x != y {
					return tt.False
				}
				if x.Op != OConst && x == y {
					same = true
				}
				cs = append(cs, tt.Eq(x, y))
				lo = p
			}
			if same {
				return tt.And(cs...)
			}
		}
	}
	if b.Op != OConst && a.ID > b.ID {
		a, b = b, a
	}
	return tt.mk(&Term{Op: OEq, S: SBool, Args: []*Term{a, b}})
}

// pieceOf: a is a concatenation with a part of b in it.
func pieceOf(a, b *Term) bool {
	if a.Op != OConcat || b.Op == OConcat || b.Op == OConst {
		return false
	}
	for _, x := range a.Args {
		if x.Op == OExtract && x.Args[0] == b {
			return true
		}
	}
	return false
}

func constEq(tt *TT, a, b *Term, w int) bool {
	if a == nil {
		a = tt.BV(w, 0)
	}
	if b == nil {
		b = tt.BV(w, 0)
	}
	return a == b
}

// splitAdd splits x+c into (x, c); c is nil if there is no constant.
func (tt *TT) splitAdd(a *Term) (*Term, *Term) {
	if a.Op == OAdd {
		n := len(a.Args)
		for i, x := range a.Args {
			if x.Op == OConst {
				rest := make([]*Term, 0, n-1)
				rest = append(rest, a.Args[:i]...)
				rest = append(rest, a.Args[i+1:]...)
				return tt.Add(rest...), x
			}
		}
	}
	return a, nil
}

func (tt *TT) Ite(c, a, b *Term) *Term {
	if c.IsTrue() || a == b {
		return a
	}
	if c.IsFalse() {
		return b
	}
	if a.S != b.S {
		panic("Ite of different sorts " + tt.Str(a) + " / " + tt.Str(b))
	}
	if c.Op == ONot {
		return tt.Ite(c.Args[0], b, a)
	}
	if a.S.K == KBool {
		if a.IsTrue() {
			return tt.Or(c, b)
		}
		if a.IsFalse() {
			return tt.And(tt.Not(c), b)
		}
		if b.IsTrue() {
			return tt.Or(tt.Not(c), a)
		}
		if b.IsFalse() {
			return tt.And(c, a)
		}
		return tt.And(tt.Or(tt.Not(c), a), tt.Or(c, b))
	}
	if a.Op == OIte && a.Args[0] == c {
		a = a.Args[1]
	}
	if b.Op == OIte && b.Args[0] == c {
		b = b.Args[2]
	}
	if a == b {
		return a
	}
	// a choice between two constants by a bit, that differ in one bit
	if a.Op == OConst && b.Op == OConst && a.S.K == KBV && a.S.W <= 64 && c.Op == OEq && c.Args[0].S.K == KBV && c.Args[0].S.W == 1 {
		if d := a.U ^ b.U; d&(d-1) == 0 {
			x, y := c.Args[0], c.Args[1]
			if x.Op == OConst {
				x, y = y, x
			}
			if y.Op == OConst {
				if (y.U == 1) != (a.U&d != 0) {
					x = tt.BVNot(x)
				}
				i := bits.TrailingZeros64(d)
				var ps []*Term
				if i < a.S.W-1 {
					ps = append(ps, tt.BV(a.S.W-1-i, a.U>>uint(i+1)))
				}
				ps = append(ps, x)
				if i > 0 {
					ps = append(ps, tt.BV(i, a.U))
				}
				return tt.Concat(ps...)
			}
		}
	}
	return tt.mk(&Term{Op: OIte, S: a.S, Args: []*Term{c, a, b}})
}

// ------------------------------------------------------------- bit vectors

func bin64(op Op, w int, a, b uint64) (uint64, bool) {
	m := mask(w)
	sx := func(x uint64) int64 { return int64(x<<uint(64-w)) >> uint(64-w) }
	switch op {
	case OUDiv:
		if b == 0 {
			return m, true
		}
		return a / b, true
	case OURem:
		if b == 0 {
			return a, true
		}
		return a % b, true
	case OSDiv:
		if b == 0 {
			return 0, false
		}
		if sx(b) == -1 {
			return uint64(-sx(a)) & m, true
		}
		return uint64(sx(a)/sx(b)) & m, true
	case OSRem:
		if b == 0 {
			return 0, false
		}
		if sx(b) == -1 {
			return 0, true
		}
		return uint64(sx(a)%sx(b)) & m, true
	case OShl:
		if b >= uint64(w) {
			return 0, true
		}
		return (a << b) & m, true
	case OLshr:
		if b >= uint64(w) {
			return 0, true
		}
		return a >> b, true
	case OAshr:
		if b >= uint64(w) {
			b = uint64(w - 1)
		}
		return uint64(sx(a)>>b) & m, true
	}
	return 0, false
}

// Add is n-ary, with like terms collected: canonical linear form modulo 2^w.
func (tt *TT) Add(args ...*Term) *Term {
	if len(args) == 0 {
		panic("empty Add")
	}
	w := args[0].S.W
	if len(args) == 1 {
		return args[0]
	}
	if w > 64 {
		c := new(big.Int)
		var rest []*Term
		for _, a := range args {
			if a.Op == OConst {
				c.Add(c, a.BigVal())
			} else if a.Op == OAdd {
				for _, x := range a.Args {
					if x.Op == OConst {
						c.Add(c, x.BigVal())
					} else {
						rest = append(rest, x)
					}
				}
			} else {
				rest = append(rest, a)
			}
		}
		ct := tt.BVBig(w, c)
		if ct.BigVal().Sign() != 0 || len(rest) == 0 {
			rest = append(rest, ct)
		}
		if len(rest) == 1 {
			return rest[0]
		}
		sort.Slice(rest, func(i, j int) bool { return rest[i].ID < rest[j].ID })
		return tt.mk(&Term{Op: OAdd, S: SBV(w), Args: rest})
	}
	coef := map[*Term]uint64{}
	var order []*Term
	var c uint64
	var add func(a *Term, k uint64)
	add = func(a *Term, k uint64) {
		switch {
		case a.Op == OConst:
			c += a.U * k
		case a.Op == OAdd:
			for _, x := range a.Args {
				add(x, k)
			}
		case a.Op == OMul && len(a.Args) == 2 && a.Args[1].Op == OConst:
			add(a.Args[0], k*a.Args[1].U)
		default:
			if _, ok := coef[a]; !ok {
				order = append(order, a)
			}
			coef[a] += k
		}
	}
	for _, a := range args {
		add(a, 1)
	}
	m := mask(w)
	c &= m
	var out []*Term
	for _, a := range order {
		k := coef[a] & m
		if k == 0 {
			continue
		}
		if k == 1 {
			out = append(out, a)
		} else {
			out = append(out, tt.mk(&Term{Op: OMul, S: SBV(w), Args: []*Term{a, tt.BV(w, k)}}))
		}
	}
	if len(out) == 1 && c != 0 && out[0].Op == OConcat {
		// a constant that stays within the constant low bits
		if lo := out[0].Args[len(out[0].Args)-1]; lo.Op == OConst && lo.S.W < 63 && lo.Big == nil {
			k := lo.S.W
			v := int64(lo.U) + int64(c<<uint(64-w))>>uint(64-w)
			if sc := int64(c<<uint(64-w)) >> uint(64-w); sc < 1<<62 && sc > -(1<<62) && v >= 0 && v < 1<<uint(k) {
				as := append(append([]*Term{}, out[0].Args[:len(out[0].Args)-1]...), tt.BV(k, uint64(v)))
				return tt.Concat(as...)
			}
		}
	}
	if len(out) == 0 {
		return tt.BV(w, c)
	}
	// pull ite with constant branches? no: keep linear
	if c != 0 {
		out = append(out, tt.BV(w, c))
	}
	if len(out) == 1 {
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool { return out[i].ID < out[j].ID })
	return tt.mk(&Term{Op: OAdd, S: SBV(w), Args: out})
}

func (tt *TT) Neg(a *Term) *Term {
	if a.S.W > 64 {
		if a.Op == OConst {
			return tt.BVBig(a.S.W, new(big.Int).Neg(a.BigVal()))
		}
		return tt.mk(&Term{Op: ONeg, S: a.S, Args: []*Term{a}})
	}
	return tt.Mul(a, tt.BV(a.S.W, ^uint64(0)))
}

func (tt *TT) Sub(a, b *Term) *Term {
	if a == b {
		return tt.BV(a.S.W, 0)
	}
	return tt.Add(a, tt.Neg(b))
}

func (tt *TT) Mul(a, b *Term) *Term {
	w := a.S.W
	if w > 64 {
		if a.Op == OConst && b.Op == OConst {
			return tt.BVBig(w, new(big.Int).Mul(a.BigVal(), b.BigVal()))
		}
		return tt.mk(&Term{Op: OMul, S: a.S, Args: []*Term{a, b}})
	}
	if a.Op == OConst {
		a, b = b, a
	}
	if b.Op == OConst {
		if a.Op == OConst {
			return tt.BV(w, a.U*b.U)
		}
		if b.U == 0 {
			return b
		}
		if b.U == 1 {
			return a
		}
		if a.Op == OAdd {
			var xs []*Term
			for _, x := range a.Args {
				xs = append(xs, tt.Mul(x, b))
			}
			return tt.Add(xs...)
		}
		if a.Op == OMul && a.Args[1].Op == OConst {
			return tt.Mul(a.Args[0], tt.BV(w, a.Args[1].U*b.U))
		}
		return tt.mk(&Term{Op: OMul, S: a.S, Args: []*Term{a, b}})
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return tt.mk(&Term{Op: OMul, S: a.S, Args: []*Term{a, b}})
}

func (tt *TT) Bin(op Op, a, b *Term) *Term {
	w := a.S.W
	switch op {
	case OAdd:
		return tt.Add(a, b)
	case OMul:
		return tt.Mul(a, b)
	case OBVAnd, OBVOr, OBVXor:
		return tt.bitop(op, a, b)
	case OShl, OLshr, OAshr:
		return tt.Shift(op, a, b)
	}
	if w <= 64 && a.Op == OConst && b.Op == OConst {
		if v, ok := bin64(op, w, a.U, b.U); ok {
			return tt.BV(w, v)
		}
	}
	if b.Op == OConst && w <= 64 {
		if b.U == 1 && (op == OUDiv || op == OSDiv) {
			return a
		}
		if op == OURem && b.U != 0 && b.U&(b.U-1) == 0 {
			return tt.bitop(OBVAnd, a, tt.BV(w, b.U-1))
		}
		if op == OUDiv && b.U != 0 && b.U&(b.U-1) == 0 {
			return tt.Shift(OLshr, a, tt.BV(w, uint64(bits.TrailingZeros64(b.U))))
		}
	}
	return tt.mk(&Term{Op: op, S: a.S, Args: []*Term{a, b}})
}

// Shift amounts have the width of the shifted operand.
func (tt *TT) Shift(op Op, a, b *Term) *Term {
	w := a.S.W
	if b.Op == OConst {
		var n uint64
		if b.Big != nil {
			n = uint64(w)
			if b.Big.IsUint64() && b.Big.Uint64() < n {
				n = b.Big.Uint64()
			}
		} else {
			n = b.U
		}
		if n == 0 {
			return a
		}
		if a.Op == OConst && w <= 64 {
			v, _ := bin64(op, w, a.U, n)
			return tt.BV(w, v)
		}
		if op == OShl {
			if n >= uint64(w) {
				return tt.BV(w, 0)
			}
			return tt.Concat(tt.Extract(w-1-int(n), 0, a), tt.BV(int(n), 0))
		}
		if op == OLshr {
			if n >= uint64(w) {
				return tt.BV(w, 0)
			}
			return tt.Concat(tt.BV(int(n), 0), tt.Extract(w-1, int(n), a))
		}
	}
	if a.Op == OConst && a.Big == nil && a.U == 0 {
		return a
	}
	return tt.mk(&Term{Op: op, S: a.S, Args: []*Term{a, b}})
}

// segs views a bit vector as its concat pieces, most significant first.
func segs(a *Term) []*Term {
	if a.Op == OConcat {
		return a.Args
	}
	return []*Term{a}
}

func isZero(a *Term) bool {
	return a.Op == OConst && (a.Big == nil && a.U == 0 || a.Big != nil && a.Big.Sign() == 0)
}

func isOnes(a *Term) bool {
	if a.Op != OConst {
		return false
	}
	if a.Big == nil {
		return a.U == mask(a.S.W)
	}
	m := new(big.Int).Lsh(big.NewInt(1), uint(a.S.W))
	m.Sub(m, big.NewInt(1))
	return a.Big.Cmp(m) == 0
}

func (tt *TT) bitop(op Op, a, b *Term) *Term {
	w := a.S.W
	if a.Op == OConst && b.Op == OConst {
		if w <= 64 {
			switch op {
			case OBVAnd:
				return tt.BV(w, a.U&b.U)
			case OBVOr:
				return tt.BV(w, a.U|b.U)
			case OBVXor:
				return tt.BV(w, a.U^b.U)
			}
		}
		z := new(big.Int)
		switch op {
		case OBVAnd:
			z.And(a.BigVal(), b.BigVal())
		case OBVOr:
			z.Or(a.BigVal(), b.BigVal())
		case OBVXor:
			z.Xor(a.BigVal(), b.BigVal())
		}
		return tt.BVBig(w, z)
	}
	if a == b {
		if op == OBVXor {
			return tt.BV(w, 0)
		}
		return a
	}
	if a.Op == OConst {
		a, b = b, a
	}
	if isZero(b) {
		if op == OBVAnd {
			return b
		}
		return a
	}
	if isOnes(b) {
		switch op {
		case OBVAnd:
			return a
		case OBVOr:
			return b
		}
	}
	// and/or with a constant: split at the runs of its bits
	if b.Op == OConst && w <= 64 && (op == OBVAnd || op == OBVOr) {
		runs := 0
		for i := 0; i < w; i++ {
			if i == 0 || (b.U>>uint(i))&1 != (b.U>>uint(i-1))&1 {
				runs++
			}
		}
		if runs <= 4 {
			var parts []*Term
			i := w - 1
			for i >= 0 {
				bit := (b.U >> uint(i)) & 1
				j := i
				for j > 0 && (b.U>>uint(j-1))&1 == bit {
					j--
				}
				seg := tt.Extract(i, j, a)
				if op == OBVAnd && bit == 0 {
					seg = tt.BV(i-j+1, 0)
				}
				if op == OBVOr && bit == 1 {
					seg = tt.BV(i-j+1, mask(i-j+1))
				}
				parts = append(parts, seg)
				i = j - 1
			}
			return tt.Concat(parts...)
		}
	}
	// piecewise over concatenations when one side is zero everywhere the other isn't
	if (op == OBVOr || op == OBVXor || op == OBVAnd) && (a.Op == OConcat || b.Op == OConcat) {
		if r := tt.piecewise(op, a, b); r != nil {
			return r
		}
	}
	// n-ary canonical form
	var flat []*Term
	var fl func(x *Term)
	fl = func(x *Term) {
		if x.Op == op {
			for _, y := range x.Args {
				fl(y)
			}
		} else {
			flat = append(flat, x)
		}
	}
	fl(a)
	fl(b)
	if op == OBVXor {
		cnt := map[*Term]int{}
		for _, x := range flat {
			cnt[x]++
		}
		var out []*Term
		for _, x := range flat {
			if cnt[x]%2 == 1 {
				out = append(out, x)
				cnt[x] = 0
			}
		}
		flat = out
	} else {
		seen := map[*Term]bool{}
		var out []*Term
		for _, x := range flat {
			if !seen[x] {
				seen[x] = true
				out = append(out, x)
			}
		}
		flat = out
	}
	// fold constants
	var cst *Term
	var out []*Term
	for _, x := range flat {
		if x.Op == OConst {
			if cst == nil {
				cst = x
			} else {
				cst = tt.bitop(op, cst, x)
			}
		} else {
			out = append(out, x)
		}
	}
	if cst != nil {
		if isZero(cst) {
			if op == OBVAnd {
				return cst
			}
		} else {
			out = append(out, cst)
		}
	}
	if len(out) == 0 {
		return tt.BV(w, 0)
	}
	if len(out) == 1 {
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool { return out[i].ID < out[j].ID })
	return tt.mk(&Term{Op: op, S: a.S, Args: out})
}

func (tt *TT) piecewise(op Op, a, b *Term) *Term {
	// cut points
	w := a.S.W
	cuts := map[int]bool{}
	for _, t := range []*Term{a, b} {
		p := 0
		ss := segs(t)
		for i := len(ss) - 1; i >= 0; i-- {
			p += ss[i].S.W
			cuts[p] = true
		}
	}
	var cs []int
	for c := range cuts {
		cs = append(cs, c)
	}
	sort.Ints(cs)
	lo := 0
	type pc struct{ x, y *Term }
	var ps []pc
	good := false
	for _, c := range cs {
		x := tt.Extract(c-1, lo, a)
		y := tt.Extract(c-1, lo, b)
		if x.Op == OConst || y.Op == OConst {
			if isZero(x) || isZero(y) || isOnes(x) || isOnes(y) || x.Op == y.Op {
				good = true
			}
		} else if x != y {
			return nil
		}
		ps = append(ps, pc{x, y})
		lo = c
	}
	if !good || len(ps) < 2 {
		return nil
	}
	var parts []*Term
	for i := len(ps) - 1; i >= 0; i-- {
		parts = append(parts, tt.bitop(op, ps[i].x, ps[i].y))
	}
	_ = w
	return tt.Concat(parts...)
}

func (tt *TT) BVNot(a *Term) *Term {
	if a.Op == OConst {
		if a.S.W <= 64 {
			return tt.BV(a.S.W, ^a.U)
		}
	}
	if a.Op == OBVNot {
		return a.Args[0]
	}
	return tt.mk(&Term{Op: OBVNot, S: a.S, Args: []*Term{a}})
}

func (tt *TT) Extract(hi, lo int, a *Term) *Term {
	if lo == 0 && hi == a.S.W-1 {
		return a
	}
	w := hi - lo + 1
	if hi >= a.S.W || lo < 0 || w <= 0 {
		panic(fmt.Sprintf("bad extract %d %d of %d", hi, lo, a.S.W))
	}
	if a.arx > 3 && (a.Op == OBVAnd || a.Op == OBVOr || a.Op == OBVXor || a.Op == OAdd || a.Op == OMul || a.Op == OBVNot) {
		// hash-like mixtures are left alone
		return tt.mk(&Term{Op: OExtract, S: SBV(w), Args: []*Term{a}, P1: hi, P2: lo})
	}
	switch a.Op {
	case OConst:
		if a.Big == nil {
			return tt.BV(w, a.U>>uint(lo))
		}
		return tt.BVBig(w, new(big.Int).Rsh(a.Big, uint(lo)))
	case OExtract:
		return tt.Extract(hi+a.P2, lo+a.P2, a.Args[0])
	case OConcat:
		pos := a.S.W
		var parts []*Term
		for _, x := range a.Args {
			xhi, xlo := pos-1, pos-x.S.W
			pos = xlo
			if xhi < lo || xlo > hi {
				continue
			}
			h, l := xhi, xlo
			if h > hi {
				h = hi
			}
			if l < lo {
				l = lo
			}
			parts = append(parts, tt.Extract(h-xlo, l-xlo, x))
		}
		return tt.Concat(parts...)
	case OBVAnd, OBVOr, OBVXor:
		if w <= 64 {
			var r *Term
			for _, x := range a.Args {
				e := tt.Extract(hi, lo, x)
				if r == nil {
					r = e
				} else {
					r = tt.bitop(a.Op, r, e)
				}
			}
			return r
		}
	case OBVNot:
		return tt.BVNot(tt.Extract(hi, lo, a.Args[0]))
	case OIte:
		if a.Args[1].Op == OConst || a.Args[2].Op == OConst || w <= 8 {
			return tt.Ite(a.Args[0], tt.Extract(hi, lo, a.Args[1]), tt.Extract(hi, lo, a.Args[2]))
		}
	case OAdd:
		if lo == 0 && a.S.W <= 64 {
			var xs []*Term
			for _, x := range a.Args {
				xs = append(xs, tt.Extract(hi, 0, x))
			}
			return tt.Add(xs...)
		}
	case OMul:
		if lo == 0 && a.S.W <= 64 {
			return tt.Mul(tt.Extract(hi, 0, a.Args[0]), tt.Extract(hi, 0, a.Args[1]))
		}
	case OSext:
		iw := a.Args[0].S.W
		if hi < iw {
			return tt.Extract(hi, lo, a.Args[0])
		}
	}
	return tt.mk(&Term{Op: OExtract, S: SBV(w), Args: []*Term{a}, P1: hi, P2: lo})
}

func (tt *TT) Concat(args ...*Term) *Term {
	var out []*Term
	push := func(x *Term) {
		if len(out) > 0 {
			p := out[len(out)-1]
			if p.Op == OConst && x.Op == OConst {
				v := new(big.Int).Lsh(p.BigVal(), uint(x.S.W))
				v.Or(v, x.BigVal())
				out[len(out)-1] = tt.BVBig(p.S.W+x.S.W, v)
				return
			}
			// adjacent extracts of one term
			pb, ph, pl := extParts(p)
			xb, xh, xl := extParts(x)
			if pb == xb && pb.Op != OConst && pl == xh+1 {
				out[len(out)-1] = tt.Extract(ph, xl, pb)
				return
			}
			// adjacent ite over the same condition
			if p.Op == OIte && x.Op == OIte && p.Args[0] == x.Args[0] {
				n := tt.Ite(p.Args[0], tt.Concat(p.Args[1], x.Args[1]), tt.Concat(p.Args[2], x.Args[2]))
				out[len(out)-1] = n
				return
			}
		}
		out = append(out, x)
	}
	for _, a := range args {
		for _, s := range segs(a) {
			push(s)
		}
	}
	if len(out) == 1 {
		return out[0]
	}
	// merging may create new concats inside
	for _, o := range out {
		if o.Op == OConcat {
			return tt.Concat(out...)
		}
	}
	w := 0
	for _, o := range out {
		w += o.S.W
	}
	return tt.mk(&Term{Op: OConcat, S: SBV(w), Args: out})
}

func extParts(a *Term) (*Term, int, int) {
	if a.Op == OExtract {
		return a.Args[0], a.P1, a.P2
	}
	return a, a.S.W - 1, 0
}

func (tt *TT) Zext(w int, a *Term) *Term {
	if a.S.W == w {
		return a
	}
	if a.S.W > w {
		return tt.Extract(w-1, 0, a)
	}
	return tt.Concat(tt.BV(w-a.S.W, 0), a)
}

func (tt *TT) Sext(w int, a *Term) *Term {
	if a.S.W == w {
		return a
	}
	if a.S.W > w {
		return tt.Extract(w-1, 0, a)
	}
	if a.Op == OConst {
		v := a.U
		if v>>(uint(a.S.W)-1)&1 == 1 {
			v |= ^mask(a.S.W)
		}
		if w <= 64 {
			return tt.BV(w, v)
		}
	}
	if a.Op == OConcat && isZero(a.Args[0]) {
		return tt.Zext(w, a)
	}
	return tt.mk(&Term{Op: OSext, S: SBV(w), Args: []*Term{a}})
}

// umax is an upper bound of the unsigned value (only for w <= 64).
func umax(a *Term) uint64 {
	switch a.Op {
	case OConst:
		return a.U
	case OConcat:
		if isZero(a.Args[0]) {
			return mask(a.S.W - a.Args[0].S.W)
		}
	case OIte:
		x, y := umax(a.Args[1]), umax(a.Args[2])
		if x > y {
			return x
		}
		return y
	}
	return mask(a.S.W)
}

func (tt *TT) Ult(a, b *Term) *Term {
	if a == b {
		return tt.False
	}
	if a.Op == OConst && b.Op == OConst {
		return tt.Bool(a.BigVal().Cmp(b.BigVal()) < 0)
	}
	if isZero(b) {
		return tt.False
	}
	if b.Op == OConst && b.Big == nil && b.U == 1 {
		return tt.Eq(a, tt.BV(a.S.W, 0))
	}
	if isZero(a) {
		return tt.Not(tt.Eq(b, a))
	}
	if a.S.W <= 64 {
		if b.Op == OConst && umax(a) < b.U {
			return tt.True
		}
		if a.Op == OConst && umax(b) <= a.U {
			return tt.False
		}
		// common zero prefix
		if za, zb := zprefix(a), zprefix(b); za > 0 && zb > 0 {
			z := za
			if zb < z {
				z = zb
			}
			if z < a.S.W {
				return tt.Ult(tt.Extract(a.S.W-z-1, 0, a), tt.Extract(a.S.W-z-1, 0, b))
			}
		}
	}
	return tt.mk(&Term{Op: OUlt, S: SBool, Args: []*Term{a, b}})
}

// number of leading bits known to be zero
func zprefix(a *Term) int {
	if a.Op == OConst && a.S.W <= 64 {
		return a.S.W - bits.Len64(a.U)
	}
	if a.Op == OConcat && isZero(a.Args[0]) {
		return a.Args[0].S.W
	}
	return 0
}

func (tt *TT) Ule(a, b *Term) *Term {
	if a == b {
		return tt.True
	}
	if a.Op == OConst && b.Op == OConst {
		return tt.Bool(a.BigVal().Cmp(b.BigVal()) <= 0)
	}
	if isZero(a) {
		return tt.True
	}
	if isZero(b) {
		return tt.Eq(a, b)
	}
	if a.S.W <= 64 {
		if b.Op == OConst && umax(a) <= b.U {
			return tt.True
		}
		if a.Op == OConst && umax(b) < a.U {
			return tt.False
		}
		if b.Op == OConst && b.U < mask(b.S.W) {
			return tt.Ult(a, tt.BV(b.S.W, b.U+1))
		}
		if a.Op == OConst && a.U > 0 {
			return tt.Ult(tt.BV(a.S.W, a.U-1), b)
		}
		if za, zb := zprefix(a), zprefix(b); za > 0 && zb > 0 {
			z := za
			if zb < z {
				z = zb
			}
			if z < a.S.W {
				return tt.Ule(tt.Extract(a.S.W-z-1, 0, a), tt.Extract(a.S.W-z-1, 0, b))
			}
		}
	}
	return tt.mk(&Term{Op: OUle, S: SBool, Args: []*Term{a, b}})
}

func sval(a *Term) int64 {
	w := uint(a.S.W)
	return int64(a.U<<(64-w)) >> (64 - w)
}

func (tt *TT) Slt(a, b *Term) *Term {
	if a == b {
		return tt.False
	}
	if a.Op == OConst && b.Op == OConst && a.S.W <= 64 {
		return tt.Bool(sval(a) < sval(b))
	}
	if zprefix(a) > 0 && zprefix(b) > 0 {
		return tt.Ult(a, b)
	}
	if a.S.W <= 64 {
		if b.Op == OConst && zprefix(a) > 0 && sval(b) <= 0 {
			return tt.False
		}
		if a.Op == OConst && zprefix(b) > 0 && sval(a) < 0 {
			return tt.True
		}
	}
	return tt.mk(&Term{Op: OSlt, S: SBool, Args: []*Term{a, b}})
}

func (tt *TT) Sle(a, b *Term) *Term {
	if a == b {
		return tt.True
	}
	if a.Op == OConst && b.Op == OConst && a.S.W <= 64 {
		return tt.Bool(sval(a) <= sval(b))
	}
	if zprefix(a) > 0 && zprefix(b) > 0 {
		return tt.Ule(a, b)
	}
	if a.S.W <= 64 {
		if b.Op == OConst && zprefix(a) > 0 && sval(b) < 0 {
			return tt.False
		}
		if a.Op == OConst && zprefix(b) > 0 && sval(a) <= 0 {
			return tt.True
		}
		if b.Op == OConst && sval(b) < sval(tt.BV(b.S.W, mask(b.S.W)>>1)) {
			return tt.Slt(a, tt.BV(b.S.W, b.U+1))
		}
		if a.Op == OConst && sval(a) > -(1<<uint(a.S.W-1)) {
			return tt.Slt(tt.BV(a.S.W, a.U-1), b)
		}
	}
	return tt.mk(&Term{Op: OSle, S: SBool, Args: []*Term{a, b}})
}

// ----------------------------------------------------------------- binders

// close1 replaces the free variable v in body by a canonical bound variable.
func (tt *TT) abstractVar(v *Term, body *Term) (*Term, int) {
	d := body.depth
	return tt.Subst(body, map[*Term]*Term{v: tt.Bound(d, v.S)}), d
}

// occurs reports whether v occurs in t.
func occurs(v, t *Term) bool {
	seen := map[*Term]bool{}
	var f func(t *Term) bool
	f = func(t *Term) bool {
		if t == v {
			return true
		}
		if len(t.Args) == 0 || seen[t] {
			return false
		}
		seen[t] = true
		for _, a := range t.Args {
			if f(a) {
				return true
			}
		}
		return false
	}
	return f(t)
}

// Forall k < n: body(v=k); n is a 64-bit unsigned bound.
// clauses splits a disjunction with one conjunction in it.
func (tt *TT) clauses(c *Term) []*Term {
	if c.Op != OOr {
		return nil
	}
	at := -1
	for i, a := range c.Args {
		if a.Op == OAnd {
			if at >= 0 || len(a.Args) > 64 {
				return nil
			}
			at = i
		}
	}
	if at < 0 {
		return nil
	}
	var out []*Term
	for _, x := range c.Args[at].Args {
		as := append(append([]*Term{}, c.Args[:at]...), c.Args[at+1:]...)
		out = append(out, tt.Or(append(as, x)...))
	}
	return out
}

func (tt *TT) Forall(n, v, body *Term) *Term {
	if body.IsTrue() {
		return body
	}
	if isZero(n) {
		return tt.True
	}
	if body.Op == OAnd {
		var cs []*Term
		for _, c := range body.Args {
			cs = append(cs, tt.Forall(n, v, c))
		}
		return tt.And(cs...)
	}
	if cs := tt.clauses(body); len(cs) > 1 {
		var fs []*Term
		for _, c := range cs {
			fs = append(fs, tt.Forall(n, v, c))
		}
		return tt.And(fs...)
	}
	if !occurs(v, body) {
		return tt.Or(tt.Eq(n, tt.BV(64, 0)), body)
	}
	if c, ok := n.CU(); ok && c <= 64 {
		var cs []*Term
		for i := uint64(0); i < c; i++ {
			cs = append(cs, tt.Subst(body, map[*Term]*Term{v: tt.BV(64, i)}))
		}
		return tt.And(cs...)
	}
	// v < n inside the body is implied
	if body.Op == OOr {
		var keep []*Term
		for _, c := range body.Args {
			if c == tt.Ule(n, v) {
				continue
			}
			keep = append(keep, c)
		}
		if len(keep) != len(body.Args) {
			return tt.Forall(n, v, tt.Or(keep...))
		}
	}
	if body == tt.Ult(v, n) {
		return tt.True
	}
	if body.Op == OUlt && body.Args[0] == v && !occurs(v, body.Args[1]) {
		return tt.Ule(n, body.Args[1])
	}
	b, d := tt.abstractVar(v, body)
	return tt.mk(&Term{Op: OForall, S: SBool, Args: []*Term{n, b}, P1: d})
}

func (tt *TT) Count(n, v, body *Term) *Term {
	if body.IsFalse() || isZero(n) {
		return tt.BV(64, 0)
	}
	if body.Op == OAnd {
		var keep []*Term
		for _, c := range body.Args {
			if c.Op == OUlt && c.Args[0] == v && c.Args[1] == n {
				continue
			}
			keep = append(keep, c)
		}
		if len(keep) != len(body.Args) {
			return tt.Count(n, v, tt.And(keep...))
		}
	}
	if body == tt.Ult(v, n) {
		return n
	}
	if body.IsTrue() {
		return n
	}
	b, d := tt.abstractVar(v, body)
	return tt.countB(n, b, d)
}

func (tt *TT) countB(n, b *Term, d int) *Term {
	if isZero(n) {
		return n
	}
	base, c := tt.splitAdd(n)
	if c != nil && c.U >= 1 && c.U <= 8 {
		m := tt.Add(base, tt.BV(64, c.U-1))
		return tt.Add(tt.countB(m, b, d), tt.Ite(tt.inst(b, d, m), tt.BV(64, 1), tt.BV(64, 0)))
	}
	if cv, ok := n.CU(); ok && cv <= 64 {
		r := tt.BV(64, 0)
		for i := uint64(0); i < cv; i++ {
			r = tt.Add(r, tt.Ite(tt.inst(b, d, tt.BV(64, i)), tt.BV(64, 1), tt.BV(64, 0)))
		}
		return r
	}
	return tt.mk(&Term{Op: OCount, S: S64, Args: []*Term{n, b}, P1: d})
}

func (tt *TT) SumT(n, v, body *Term) *Term {
	w := body.S.W
	if isZero(n) || isZero(body) {
		return tt.BV(w, 0)
	}
	if c := tt.indicator(body); c != nil && w == 64 {
		return tt.Count(n, v, c)
	}
	b, d := tt.abstractVar(v, body)
	return tt.sumB(n, b, d, w)
}

// indicator: the condition that a term counts as zero or one.
func (tt *TT) indicator(t *Term) *Term {
	if t.Op == OConcat && len(t.Args) == 2 && isZero(t.Args[0]) && t.Args[1].S.W == 1 {
		return tt.Eq(t.Args[1], tt.BV(1, 1))
	}
	if t.Op == OIte {
		a, ok := t.Args[1].CU()
		b, ok2 := t.Args[2].CU()
		if ok && ok2 && a == 1 && b == 0 {
			return t.Args[0]
		}
		if ok && ok2 && a == 0 && b == 1 {
			return tt.Not(t.Args[0])
		}
	}
	return nil
}

func (tt *TT) sumB(n, b *Term, d, w int) *Term {
	if isZero(n) {
		return tt.BV(w, 0)
	}
	base, c := tt.splitAdd(n)
	if c != nil && c.U >= 1 && c.U <= 8 {
		m := tt.Add(base, tt.BV(64, c.U-1))
		return tt.Add(tt.sumB(m, b, d, w), tt.inst(b, d, m))
	}
	if cv, ok := n.CU(); ok && cv <= 128 {
		r := tt.BV(w, 0)
		for i := uint64(0); i < cv; i++ {
			r = tt.Add(r, tt.inst(b, d, tt.BV(64, i)))
		}
		return r
	}
	return tt.mk(&Term{Op: OSum, S: SBV(w), Args: []*Term{n, b}, P1: d})
}

// inst instantiates bound variable d of body b with t.
func (tt *TT) inst(b *Term, d int, t *Term) *Term {
	return tt.Subst(b, map[*Term]*Term{tt.Bound(d, t.S): t})
}

// Subst replaces terms simultaneously and re-simplifies.
func (tt *TT) Subst(t *Term, m map[*Term]*Term) *Term {
	return tt.SubstC(t, m, map[*Term]*Term{})
}

func (tt *TT) SubstC(t *Term, m map[*Term]*Term, memo map[*Term]*Term) *Term {
	if r, ok := m[t]; ok {
		return r
	}
	if len(t.Args) == 0 {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	changed := false
	args := make([]*Term, len(t.Args))
	for i, a := range t.Args {
		args[i] = tt.SubstC(a, m, memo)
		if args[i] != a {
			changed = true
		}
	}
	r := t
	if changed {
		r = tt.rebuild(t, args)
	}
	memo[t] = r
	return r
}

func (tt *TT) rebuild(t *Term, args []*Term) *Term {
	switch t.Op {
	case OApp:
		return tt.App(t.Name, t.S, args...)
	case ONot:
		return tt.Not(args[0])
	case OAnd:
		return tt.And(args...)
	case OOr:
		return tt.Or(args...)
	case OEq:
		return tt.Eq(args[0], args[1])
	case OIte:
		return tt.Ite(args[0], args[1], args[2])
	case OAdd:
		return tt.Add(args...)
	case OMul:
		return tt.Mul(args[0], args[1])
	case ONeg:
		return tt.Neg(args[0])
	case OBVAnd, OBVOr, OBVXor:
		r := args[0]
		for _, a := range args[1:] {
			r = tt.bitop(t.Op, r, a)
		}
		return r
	case OBVNot:
		return tt.BVNot(args[0])
	case OShl, OLshr, OAshr, OUDiv, OURem, OSDiv, OSRem:
		return tt.Bin(t.Op, args[0], args[1])
	case OConcat:
		return tt.Concat(args...)
	case OExtract:
		return tt.Extract(t.P1, t.P2, args[0])
	case OSext:
		return tt.Sext(t.S.W, args[0])
	case OUlt:
		return tt.Ult(args[0], args[1])
	case OUle:
		return tt.Ule(args[0], args[1])
	case OSlt:
		return tt.Slt(args[0], args[1])
	case OSle:
		return tt.Sle(args[0], args[1])
	case OForall:
		if args[1].IsTrue() || isZero(args[0]) {
			return tt.True
		}
		v := tt.Var(tt.FreshName("rb"), S64)
		return tt.Forall(args[0], v, tt.inst(args[1], t.P1, v))
	case OCount:
		v := tt.Var(tt.FreshName("rb"), S64)
		return tt.Count(args[0], v, tt.inst(args[1], t.P1, v))
	case OSum:
		v := tt.Var(tt.FreshName("rb"), S64)
		return tt.SumT(args[0], v, tt.inst(args[1], t.P1, v))
	}
	panic("rebuild: " + tt.Str(t))
}

// ---------------------------------------------------------------- printing

var opNames = map[Op]string{ONot: "not", OAnd: "and", OOr: "or", OEq: "=", OIte: "ite", OAdd: "bvadd", OMul: "bvmul", ONeg: "bvneg",
	OUDiv: "bvudiv", OURem: "bvurem", OSDiv: "bvsdiv", OSRem: "bvsrem", OBVAnd: "bvand", OBVOr: "bvor", OBVXor: "bvxor", OBVNot: "bvnot",
	OShl: "bvshl", OLshr: "bvlshr", OAshr: "bvashr", OConcat: "concat", OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle"}

func (tt *TT) Str(t *Term) string { return tt.strD(t, 8) }

func (tt *TT) strD(t *Term, d int) string {
	switch t.Op {
	case OTrue:
		return "true"
	case OFalse:
		return "false"
	case OConst:
		if t.Big != nil {
			return "0x" + t.Big.Text(16)
		}
		if t.S.W > 8 && t.U>>(uint(t.S.W)-1)&1 == 1 {
			return fmt.Sprintf("%d", sval(t))
		}
		return fmt.Sprintf("%d", t.U)
	case OVar:
		return t.Name
	case OBound:
		return fmt.Sprintf("#%d", t.P1)
	}
	if d == 0 {
		return fmt.Sprintf("…%d", t.ID)
	}
	var as []string
	for _, a := range t.Args {
		as = append(as, tt.strD(a, d-1))
	}
	n := opNames[t.Op]
	switch t.Op {
	case OApp:
		return t.Name + "(" + strings.Join(as, ",") + ")"
	case OExtract:
		return fmt.Sprintf("%s[%d:%d]", as[0], t.P1, t.P2)
	case OSext:
		n = "sext"
	case OForall:
		n = fmt.Sprintf("forall#%d<", t.P1)
	case OCount:
		n = fmt.Sprintf("count#%d<", t.P1)
	case OSum:
		n = fmt.Sprintf("sum#%d<", t.P1)
	}
	return "(" + n + " " + strings.Join(as, " ") + ")"
}

// factor: t as a multiple of c, modulo the width, or nil.
func (tt *TT) factor(t *Term, c uint64) *Term {
	switch t.Op {
	case OConst:
		v := int64(t.U)
		if t.S.W == 64 && v%int64(c) == 0 {
			return tt.BV(64, uint64(v/int64(c)))
		}
	case OMul:
		for i, a := range t.Args {
			if k, ok := a.CU(); ok && int64(k)%int64(c) == 0 {
				rest := append(append([]*Term{}, t.Args[:i]...), t.Args[i+1:]...)
				r := tt.BV(64, uint64(int64(k)/int64(c)))
				for _, x := range rest {
					r = tt.Mul(r, x)
				}
				return r
			}
		}
	case OAdd:
		var as []*Term
		for _, a := range t.Args {
			x := tt.factor(a, c)
			if x == nil {
				return nil
			}
			as = append(as, x)
		}
		return tt.Add(as...)
	}
	return nil
}

// opposite: the comparison that says the contrary, for one with a constant.
func (tt *TT) opposite(p *Term) *Term {
	if p.Op != OSlt && p.Op != OUlt {
		return nil
	}
	a, b := p.Args[0], p.Args[1]
	w := a.S.W
	if w > 64 {
		return nil
	}
	less := tt.Slt
	if p.Op == OUlt {
		less = tt.Ult
	}
	var q *Term
	if c, ok := a.CU(); ok {
		if p.Op == OUlt && c == mask(w) || p.Op == OSlt && c == mask(w)>>1 {
			return nil
		}
		q = less(b, tt.BV(w, c+1))
	} else if c, ok := b.CU(); ok {
		if p.Op == OUlt && c == 0 || p.Op == OSlt && c == uint64(1)<<uint(w-1) {
			return nil
		}
		q = less(tt.BV(w, c-1), a)
	}
	if q == nil || q.IsTrue() || q.IsFalse() {
		return nil
	}
	return q
}
