package main

import "strings"

// A condition is decided together with the part of the path condition it is
// connected to through shared symbols. Leaving conjuncts out can only make a
// path look feasible or an obligation unproved, never the other way round.

var genericFns = map[string]bool{"addrString": true, "addrStringLen": true, "b32": true, "blake2b256": true, "bpBytes": true,
	"bpRead": true, "bpValid": true, "byteAt": true, "errmsg": true, "float": true, "frombytes": true, "frombytesU": true,
	"isqr": true, "lexless": true, "modsqrt": true, "packBits": true, "padd": true, "pneg": true, "pointBytes": true,
	"pt": true, "ptdec": true, "ptsign": true, "px": true, "py": true, "rangeProofOK": true, "resolvedIP": true,
	"resolvedPort": true, "resolves": true, "sha256": true, "siphash24": true, "smul": true, "sub": true, "tofloat": true,
	"unpackBits": true, "word": true, "zneg": true, "sel": true, "seqtake": true, "seqdrop": true}

func genericFn(n string) bool {
	if genericFns[n] {
		return true
	}
	return strings.HasPrefix(n, "seq:") || strings.HasPrefix(n, "big.") || strings.HasPrefix(n, "abs:") || strings.HasPrefix(n, "curve.") || strings.HasPrefix(n, "float.") || strings.HasPrefix(n, "kth.")
}

type symset []uint64

func (b symset) meets(c symset) bool {
	n := len(b)
	if len(c) < n {
		n = len(c)
	}
	for i := 0; i < n; i++ {
		if b[i]&c[i] != 0 {
			return true
		}
	}
	return false
}

func (b symset) or(c symset) symset {
	if len(c) == 0 {
		return b
	}
	n := len(b)
	if len(c) > n {
		n = len(c)
	}
	r := make(symset, n)
	copy(r, b)
	for i := range c {
		r[i] |= c[i]
	}
	return r
}

type slicer struct {
	id   map[string]int
	memo map[*Term]symset
}

func (s *slicer) syms(t *Term) symset {
	if len(t.Args) == 0 && t.Op != OVar && t.Op != OApp {
		return nil
	}
	if b, ok := s.memo[t]; ok {
		return b
	}
	var r symset
	for _, a := range t.Args {
		x := s.syms(a)
		if r == nil {
			r = x
		} else {
			r = r.or(x)
		}
	}
	if t.Op == OVar || t.Op == OApp && !(len(r) > 0 && genericFn(t.Name)) {
		i, ok := s.id[t.Name]
		if !ok {
			i = len(s.id)
			s.id[t.Name] = i
		}
		b := make(symset, i/64+1)
		b[i/64] |= 1 << uint(i%64)
		r = b.or(r)
	}
	s.memo[t] = r
	return r
}

// relevant: the conjuncts of pc connected to c.
func (e *Eng) relevant(pc []*Term, c *Term) []*Term {
	if e.slc == nil {
		e.slc = &slicer{map[string]int{}, map[*Term]symset{}}
	}
	s := e.slc
	cur := s.syms(c)
	if len(cur) == 0 {
		return nil
	}
	in := make([]bool, len(pc))
	for ch := true; ch; {
		ch = false
		for i, p := range pc {
			if in[i] {
				continue
			}
			if b := s.syms(p); b.meets(cur) {
				in[i] = true
				cur = cur.or(b)
				ch = true
			}
		}
	}
	var out []*Term
	for i, p := range pc {
		if in[i] {
			out = append(out, p)
		}
	}
	return out
}

// near keeps only the facts about nothing else than what c is about.
func (e *Eng) near(pc []*Term, c *Term) []*Term {
	if e.slc == nil {
		e.slc = &slicer{map[string]int{}, map[*Term]symset{}}
	}
	s := e.slc
	cur := s.syms(c)
	var out []*Term
	for _, p := range pc {
		if b := s.syms(p); b.within(cur) {
			out = append(out, p)
		}
	}
	return out
}

func (a symset) within(b symset) bool {
	for i, x := range a {
		var y uint64
		if i < len(b) {
			y = b[i]
		}
		if x&^y != 0 {
			return false
		}
	}
	return true
}

// about are the facts that speak of nothing but what the goal speaks of, and
// of positions reached by loops.
func (e *Eng) about(pc []*Term, c *Term) []*Term {
	e.near(nil, c)
	s := e.slc
	cur := s.syms(c)
	for n, i := range s.id {
		if strings.HasPrefix(n, "k!") || strings.HasPrefix(n, "N!") {
			b := make(symset, i/64+1)
			b[i/64] |= 1 << uint(i%64)
			cur = cur.or(b)
		}
	}
	var out []*Term
	for _, p := range pc {
		if s.syms(p).within(cur) {
			out = append(out, p)
		}
	}
	return out
}

// disjuncts of a condition.
func (tt *TT) disjuncts(c *Term) []*Term {
	if c.Op == OOr {
		var r []*Term
		for _, a := range c.Args {
			r = append(r, tt.disjuncts(a)...)
		}
		return r
	}
	if c.Op == ONot && c.Args[0].Op == OAnd {
		var r []*Term
		for _, a := range c.Args[0].Args {
			r = append(r, tt.disjuncts(tt.Not(a))...)
		}
		return r
	}
	return []*Term{c}
}
