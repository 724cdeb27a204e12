package main

import (
	"bufio"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
)

// ---------------------------------------------------------------------------
// SMT back ends. Queries are quantifier free: FORALL/COUNT/SUM atoms are
// abstracted by fresh symbols, FORALL facts are instantiated at the index terms
// of the query, negated FORALLs are skolemised. "unsat" is therefore sound;
// "sat" may be spurious, which is why a failed obligation is replayed.

type Result int

const (
	RUnknown Result = iota
	RUnsat
	RSat
)

func (r Result) String() string { return [...]string{"unknown", "unsat", "sat"}[r] }

type solverProc struct {
	name string
	argv []string
	cmd  *exec.Cmd
	in   io.WriteCloser
	out  *bufio.Reader
}

func (p *solverProc) start() error {
	p.cmd = exec.Command(p.argv[0], p.argv[1:]...)
	in, err := p.cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := p.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	p.in = in
	p.out = bufio.NewReaderSize(out, 1<<20)
	return p.cmd.Start()
}

func (p *solverProc) stop() {
	if p.cmd != nil {
		p.in.Close()
		p.cmd.Process.Kill()
		p.cmd.Wait()
		p.cmd = nil
	}
}

// ask sends a script that ends with an (echo "done") and returns its output.
func (p *solverProc) ask(script string, limit time.Duration) (string, error) {
	if p.cmd == nil {
		if err := p.start(); err != nil {
			return "", err
		}
	}
	type res struct {
		s string
		e error
	}
	ch := make(chan res, 1)
	go func() {
		if _, err := io.WriteString(p.in, script+"\n(echo \"@done\")\n"); err != nil {
			ch <- res{"", err}
			return
		}
		var sb strings.Builder
		for {
			l, err := p.out.ReadString('\n')
			if err != nil {
				ch <- res{sb.String(), err}
				return
			}
			if strings.Contains(l, "@done") {
				ch <- res{sb.String(), nil}
				return
			}
			sb.WriteString(l)
		}
	}()
	select {
	case r := <-ch:
		if r.e != nil {
			p.stop()
		}
		return r.s, r.e
	case <-time.After(limit):
		p.stop()
		return "", fmt.Errorf("timeout")
	}
}

type Solver struct {
	abs      bool
	brief    bool // path queries: short, one solver
	tt       *TT
	procs    []*solverProc
	memo     map[string]Result
	briefUnk map[string]bool
	trig     bool // few instances
	nInst    int
	trigIdx  map[pat]map[*Term]bool
	trigSeen map[*Term]bool
	trigN    int
	Queries  int
	Time     time.Duration
	By       map[string]int
	last     string // script of the last query
	MaxSec   int
}

func NewSolver(tt *TT) *Solver {
	return &Solver{tt: tt, memo: map[string]Result{}, briefUnk: map[string]bool{}, By: map[string]int{}, MaxSec: maxSec(),
		procs: []*solverProc{
			{name: "z3-5.3.2", argv: []string{"z3-new", "-in"}},
			{name: "cvc5-1.1.2", argv: []string{"cvc5", "--incremental", "--produce-models", "--lang=smt2"}},
			{name: "z3-4.8.12", argv: []string{"z3", "-in"}},
		}}
}

func (s *Solver) Close() {
	for _, p := range s.procs {
		p.stop()
	}
}

type query struct {
	level  map[*Term]int
	abs    bool
	tt     *TT
	decl   map[string]bool
	b      strings.Builder
	done   map[*Term]string
	fas    map[*Term]string
	apps   []*Term
	nfuncs int
	names  map[string]string
}

func smtSort(s Sort) string {
	switch s.K {
	case KBool:
		return "Bool"
	case KBV:
		return fmt.Sprintf("(_ BitVec %d)", s.W)
	}
	return "U"
}

// isIndexLike tells whether a term can be used to instantiate a FORALL.
func collectIdx(t *Term, seen map[*Term]bool, idx map[*Term]bool) {
	if seen[t] {
		return
	}
	seen[t] = true
	if t.Op == OForall || t.Op == OCount || t.Op == OSum {
		n := t.Args[0]
		collectIdx(n, seen, idx)
		if !n.fb {
			idx[n] = true
		}
		// the body has bound variables: only closed index terms inside count
		collectIdx(t.Args[1], seen, idx)
		return
	}
	for _, a := range t.Args {
		if t.Op == OApp && a.S == S64 && !a.fb && permDepth(a) <= 1 {
			idx[a] = true
		}
		collectIdx(a, seen, idx)
	}
	if t.Op == OVar && t.S == S64 && (strings.HasPrefix(t.Name, "k!") || strings.HasPrefix(t.Name, "N!") || strings.HasPrefix(t.Name, "sk!")) {
		idx[t] = true
	}
}

// permArgs: a fact about a permutation is instantiated where the permutation
// is applied.
func permArgs(tt *TT, as []*Term, f *Term) []*Term {
	want := map[string]bool{}
	step := false
	seen := map[*Term]bool{}
	var scan func(t *Term, g func(*Term))
	scan = func(t *Term, g func(*Term)) {
		if seen[t] {
			return
		}
		seen[t] = true
		g(t)
		for _, a := range t.Args {
			scan(a, g)
		}
	}
	scan(f.Args[1], func(t *Term) {
		if t.Op == OApp && strings.HasPrefix(t.Name, "perm") {
			a := t.Args[len(t.Args)-1]
			if a.Op == OBound {
				want[t.Name] = true
			} else if a.Op == OAdd {
				step = true
			}
		}
	})
	got := map[*Term]bool{}
	seen = map[*Term]bool{}
	for _, a := range as {
		scan(a, func(t *Term) {
			if t.Op == OApp && want[t.Name] && !t.fb {
				if x := t.Args[len(t.Args)-1]; permDepth(x) <= 1 {
					got[x] = true
					if step {
						got[tt.Sub(x, tt.BV(64, 1))] = true
					}
				}
			}
		})
	}
	return sortTerms(got)
}

// permDepth counts nested permutations: facts about a permutation are not
// instantiated at ever deeper images.
func permDepth(t *Term) int {
	if t.pd > 0 {
		return int(t.pd) - 1
	}
	d := 0
	for _, a := range t.Args {
		if x := permDepth(a); x > d {
			d = x
		}
	}
	if t.Op == OApp && strings.HasPrefix(t.Name, "perm") {
		d++
	}
	if d > 200 {
		d = 200
	}
	t.pd = uint8(d + 1)
	return d
}

func collectBinders(t *Term, seen map[*Term]bool, fa map[*Term]bool) {
	if seen[t] {
		return
	}
	seen[t] = true
	if t.Op == OForall || t.Op == OCount || t.Op == OSum {
		if !t.fb {
			fa[t] = true
		}
		collectBinders(t.Args[0], seen, fa)
		return // binders inside a body appear after instantiation
	}
	for _, a := range t.Args {
		collectBinders(a, seen, fa)
	}
}

func sortTerms(m map[*Term]bool) []*Term {
	var r []*Term
	for t := range m {
		r = append(r, t)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].ID < r[j].ID })
	return r
}

// expand adds the instances of the binders; returns the final assertion list.
func (s *Solver) expand(as []*Term) []*Term {
	tt := s.tt
	s.nInst = 0
	defer func() { s.trigIdx = nil }()
	seenB := map[*Term]bool{}
	seenI := map[*Term]bool{}
	idx := map[*Term]bool{}
	fas := map[*Term]bool{}
	for _, a := range as {
		collectIdx(a, seenI, idx)
		collectBinders(a, seenB, fas)
	}
	if len(fas) == 0 {
		return as
	}
	out := append([]*Term{}, as...)
	have := map[string]bool{}
	add := func(t *Term) {
		if t.IsTrue() {
			return
		}
		out = append(out, t)
		collectIdx(t, seenI, idx)
		collectBinders(t, seenB, fas)
	}
	// what is asserted as such needs no witness, what is denied no instances
	top := map[*Term]bool{}
	neg := map[*Term]bool{}
	for _, a := range as {
		top[a] = true
		if a.Op == ONot {
			neg[a.Args[0]] = true
		}
	}
	skol := map[*Term]bool{}
	orig := map[*Term]bool{}
	for f := range fas {
		orig[f] = f.Op == OCount
	}
	count := 0
	for round := 0; round < 4; round++ {
		before := len(out)
		for _, f := range sortTerms(fas) {
			switch f.Op {
			case OForall:
				if !skol[f] && !top[f] {
					skol[f] = true
					sk := tt.Var(fmt.Sprintf("sk!%d", f.ID), S64)
					add(tt.Or(f, tt.And(tt.Ult(sk, f.Args[0]), tt.Not(tt.inst(f.Args[1], f.P1, sk)))))
					idx[sk] = true
				}
				if neg[f] {
					continue
				}
				n := f.Args[0]
				var cands []*Term
				if tt.permFact[f] {
					cands = permArgs(tt, out, f)
				} else {
					cands = s.cands(f, out, idx)
					if !s.trig {
						cands = append(cands, tt.Sub(n, tt.BV(64, 1)))
					}
					if round == 0 {
						cands = append(cands, tt.BV(64, 0))
					}
				}
				for _, c := range cands {
					k := fmt.Sprintf("%d@%d", f.ID, c.ID)
					if have[k] || count > 1500 {
						continue
					}
					have[k] = true
					count++
					add(tt.Or(tt.Not(f), tt.Ule(n, c), tt.inst(f.Args[1], f.P1, c)))
				}
			case OCount:
				if !skol[f] {
					skol[f] = true
					n := f.Args[0]
					add(tt.Ule(f, n))
					v := tt.Var("cv!", S64)
					b := tt.inst(f.Args[1], f.P1, v)
					none := tt.Forall(n, v, tt.Not(b))
					add(tt.Eq(tt.Eq(f, tt.BV(64, 0)), none))
					all := tt.Forall(n, v, b)
					add(tt.Eq(tt.Eq(f, n), all))
					if orig[f] {
						// the last element that counts
						w := tt.Var(fmt.Sprintf("sk!w%d", f.ID), S64)
						add(tt.Or(tt.Eq(f, tt.BV(64, 0)), tt.And(tt.Ult(w, n), tt.inst(f.Args[1], f.P1, w), tt.Eq(f, tt.Add(tt.countB(w, f.Args[1], f.P1), tt.BV(64, 1))))))
					}
					// other counts over the same body
					for _, g := range sortTerms(fas) {
						if g != f && g.Op == OCount && g.Args[1] == f.Args[1] && g.P1 == f.P1 {
							m := g.Args[0]
							add(tt.Or(tt.Ult(m, n), tt.And(tt.Ule(f, g), tt.Ule(tt.Sub(g, f), tt.Sub(m, n)))))
							add(tt.Or(tt.Ult(n, m), tt.And(tt.Ule(g, f), tt.Ule(tt.Sub(f, g), tt.Sub(n, m)))))
							// the element between
							add(tt.Or(tt.Ule(m, n), tt.Ule(tt.Add(f, tt.Ite(tt.inst(f.Args[1], f.P1, n), tt.BV(64, 1), tt.BV(64, 0))), g)))
							add(tt.Or(tt.Ule(n, m), tt.Ule(tt.Add(g, tt.Ite(tt.inst(f.Args[1], f.P1, m), tt.BV(64, 1), tt.BV(64, 0))), f)))
							// one step
							add(tt.Or(tt.Not(tt.Eq(m, tt.Add(n, tt.BV(64, 1)))), tt.Eq(g, tt.Add(f, tt.Ite(tt.inst(f.Args[1], f.P1, n), tt.BV(64, 1), tt.BV(64, 0))))))
						}
					}
				}
				cands := s.cands(f, out, idx)
				n := f.Args[0]
				for _, c := range cands {
					k := fmt.Sprintf("%d@%d", f.ID, c.ID)
					if have[k] || count > 1500 {
						continue
					}
					have[k] = true
					count++
					in := tt.inst(f.Args[1], f.P1, c)
					add(tt.Or(tt.Ule(n, c), tt.Not(in), tt.Ule(tt.BV(64, 1), f)))
					add(tt.Or(tt.Ule(n, c), in, tt.Ule(tt.Add(f, tt.BV(64, 1)), n)))
				}
			}
		}
		if len(out) == before || count > 1500 {
			break
		}
		if s.trig && round == 2 {
			break
		}
	}
	s.nInst = count
	return out
}

// pat is a place where an element of a list is used: an argument of a
// function, at some distance from the index.
type pat struct {
	name string
	pos  int
}

// cands are the terms a binder is instantiated with: all index terms, or in
// large queries only where its body has a use of an element.
func (s *Solver) cands(f *Term, out []*Term, idx map[*Term]bool) []*Term {
	if !s.trig {
		return sortTerms(idx)
	}
	tt := s.tt
	if s.trigIdx == nil {
		s.trigIdx, s.trigSeen, s.trigN = map[pat]map[*Term]bool{}, map[*Term]bool{}, 0
	}
	var scan func(t *Term)
	scan = func(t *Term) {
		if s.trigSeen[t] {
			return
		}
		s.trigSeen[t] = true
		for i, a := range t.Args {
			if t.Op == OApp && a.S == S64 && !a.fb && !strings.HasPrefix(t.Name, "abs:") {
				p := pat{t.Name, i}
				if s.trigIdx[p] == nil {
					s.trigIdx[p] = map[*Term]bool{}
				}
				s.trigIdx[p][a] = true
			}
			scan(a)
		}
	}
	for ; s.trigN < len(out); s.trigN++ {
		scan(out[s.trigN])
	}
	got := map[*Term]bool{}
	seen := map[*Term]bool{}
	any := false
	var body func(t *Term)
	body = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		for i, a := range t.Args {
			if t.Op == OApp && a.S == S64 && a.fb {
				base, c := tt.splitAdd(a)
				if a.Op == OBound {
					base, c = a, nil
				}
				if base.Op == OBound && base == tt.Bound(f.P1, S64) {
					any = true
					for x := range s.trigIdx[pat{t.Name, i}] {
						if c != nil {
							got[tt.Sub(x, c)] = true
						} else {
							got[x] = true
						}
					}
				}
			}
			body(a)
		}
	}
	body(f.Args[1])
	if !any {
		return sortTerms(idx)
	}
	return sortTerms(got)
}

func (q *query) name(n string) string {
	if x, ok := q.names[n]; ok {
		return x
	}
	x := "|" + strings.NewReplacer("|", "_", "\\", "_").Replace(n) + "|"
	q.names[n] = x
	return x
}

func (q *query) emit(root *Term) string {
	if r, ok := q.done[root]; ok {
		return r
	}
	// iterative post-order
	type fr struct {
		t *Term
		i int
	}
	st := []fr{{root, 0}}
	for len(st) > 0 {
		f := &st[len(st)-1]
		if _, ok := q.done[f.t]; ok {
			st = st[:len(st)-1]
			continue
		}
		if q.abs && (opaqueMix(f.t) || q.deep(f.t)) {
			n := fmt.Sprintf("|mix%d|", f.t.ID)
			q.declare(n, nil, f.t.S)
			q.done[f.t] = n
			st = st[:len(st)-1]
			continue
		}
		leafish := f.t.Op == OForall || f.t.Op == OCount || f.t.Op == OSum
		if !leafish && f.i < len(f.t.Args) {
			a := f.t.Args[f.i]
			f.i++
			if _, ok := q.done[a]; !ok {
				st = append(st, fr{a, 0})
			}
			continue
		}
		q.done[f.t] = q.emit1(f.t)
		st = st[:len(st)-1]
	}
	return q.done[root]
}

func (q *query) declare(n string, args []Sort, s Sort) {
	if q.decl[n] {
		return
	}
	q.decl[n] = true
	var as []string
	for _, a := range args {
		as = append(as, smtSort(a))
	}
	fmt.Fprintf(&q.b, "(declare-fun %s (%s) %s)\n", n, strings.Join(as, " "), smtSort(s))
}

func (q *query) emit1(t *Term) string {
	switch t.Op {
	case OTrue:
		return "true"
	case OFalse:
		return "false"
	case OConst:
		if t.S.W%4 == 0 {
			return fmt.Sprintf("#x%0*s", t.S.W/4, t.BigVal().Text(16))
		}
		return fmt.Sprintf("(_ bv%s %d)", t.BigVal().String(), t.S.W)
	case OVar:
		n := q.name(t.Name)
		q.declare(n, nil, t.S)
		q.apps = append(q.apps, t)
		return n
	case OBound:
		panic("free bound variable in query")
	case OForall, OCount, OSum:
		n := fmt.Sprintf("|bind%d|", t.ID)
		q.declare(n, nil, t.S)
		return n
	}
	args := make([]string, len(t.Args))
	for i, a := range t.Args {
		args[i] = q.done[a]
	}
	var e string
	switch t.Op {
	case OApp:
		var ss []Sort
		nm := t.Name
		for _, a := range t.Args {
			ss = append(ss, a.S)
			nm += fmt.Sprintf("~%d.%d", a.S.K, a.S.W)
		}
		nm += fmt.Sprintf("~>%d.%d", t.S.K, t.S.W)
		n := q.name(nm)
		q.declare(n, ss, t.S)
		e = "(" + n + " " + strings.Join(args, " ") + ")"
		q.apps = append(q.apps, t)
	case OExtract:
		e = fmt.Sprintf("((_ extract %d %d) %s)", t.P1, t.P2, args[0])
	case OSext:
		e = fmt.Sprintf("((_ sign_extend %d) %s)", t.S.W-t.Args[0].S.W, args[0])
	case OConcat, OAdd, OMul, OBVAnd, OBVOr, OBVXor:
		// binary chains: accepted by every solver
		e = args[0]
		for _, a := range args[1:] {
			e = "(" + opNames[t.Op] + " " + e + " " + a + ")"
		}
	default:
		e = "(" + opNames[t.Op] + " " + strings.Join(args, " ") + ")"
	}
	n := fmt.Sprintf("t%d", t.ID)
	fmt.Fprintf(&q.b, "(define-fun %s () %s %s)\n", n, smtSort(t.S), e)
	return n
}

type Model struct {
	Vals map[*Term]string // rendered values of variables and applications
}

// opaqueMix: a mixture of additions and bitwise operations that a first
// attempt treats as an unknown value.
func opaqueMix(t *Term) bool {
	if hardArith(t) {
		return true
	}
	if t.arx <= 3 || t.S.K != KBV {
		return false
	}
	switch t.Op {
	case OAdd, OMul:
		n := 0
		for _, a := range t.Args {
			if a.Op != OConst {
				n++
			}
		}
		return n > 1
	}
	return false
}

// hardArith: an operation of wide words that is not linear.
func hardArith(t *Term) bool {
	if t.S.K != KBV || t.S.W < 32 {
		return false
	}
	switch t.Op {
	case OMul:
		n := 0
		for _, a := range t.Args {
			if a.Op != OConst {
				n++
			}
		}
		return n > 1
	case OUDiv, OURem, OSDiv, OSRem:
		if c, ok := t.Args[1].CU(); ok && c&(c-1) == 0 {
			return false
		}
		return true
	}
	return false
}

func nonlinear(t *Term) bool {
	if t.nl > 0 {
		return t.nl == 2
	}
	r := hardArith(t)
	for _, a := range t.Args {
		r = r || nonlinear(a)
	}
	t.nl = 1
	if r {
		t.nl = 2
	}
	return r
}

// deep: a bitwise mixture below two rotations.
func (q *query) deep(t *Term) bool {
	if t.arx <= 3 || t.Op != OBVAnd && t.Op != OBVOr && t.Op != OBVXor {
		return false
	}
	return q.level[t] >= 2
}

// levels: how many rotations are above a term.
func (q *query) levels(t *Term, n int, in bool) {
	if t.arx <= 3 {
		return
	}
	cut := t.Op == OExtract || t.Op == OConcat
	if cut && !in {
		n++
	}
	if l, ok := q.level[t]; ok && l <= n {
		return
	}
	q.level[t] = n
	if n >= 2 && !cut {
		return
	}
	for _, a := range t.Args {
		q.levels(a, n, cut)
	}
}

// Check decides satisfiability of the conjunction.
func (s *Solver) Check(as []*Term, wantModel bool) (Result, *Model, string) {
	mix, nl := false, false
	for _, a := range as {
		mix = mix || a.arx > 3
		nl = nl || nonlinear(a)
	}
	if mix || nl {
		s.abs = true
		r, _, by := s.check(as, false)
		s.abs = false
		if r == RUnsat {
			return r, nil, by
		}
		if s.brief && mix {
			return RUnknown, nil, "none"
		}
	}
	return s.check(as, wantModel)
}

// coverable: whether a path can be taken, with hash-like mixtures as free values.
func (s *Solver) coverable(as []*Term) (Result, *Model, string) {
	max := s.MaxSec
	s.abs, s.MaxSec = true, 5
	defer func() { s.abs, s.MaxSec = false, max }()
	return s.check(as, false)
}

func (s *Solver) check(as []*Term, wantModel bool) (Result, *Model, string) {
	tt := s.tt
	c := tt.And(as...)
	if c.IsFalse() {
		return RUnsat, nil, "simplifier"
	}
	if c.IsTrue() && !wantModel {
		return RSat, nil, "simplifier"
	}
	key := fmt.Sprint(c.ID)
	if s.abs {
		key += "a"
	}
	if s.trig {
		key += "t"
	}
	if s.brief && s.briefUnk[key] {
		return RUnknown, nil, "memo"
	}
	if r, ok := s.memo[key]; ok && !wantModel {
		return r, nil, "memo"
	}
	if atomic.LoadInt32(&stopProofs) != 0 {
		return RUnknown, nil, "stopped"
	}
	parts := []*Term{c}
	if c.Op == OAnd {
		parts = c.Args
	}
	ex := s.expand(parts)
	if !s.trig && s.nInst > 500 {
		s.trig = true
		r, m, by := s.check(as, wantModel)
		s.trig = false
		if r == RUnsat || s.brief {
			if r == RUnsat {
				s.memo[key] = r
			}
			return r, m, by
		}
	}
	parts = ex
	q := &query{abs: s.abs, tt: tt, decl: map[string]bool{}, done: map[*Term]string{}, names: map[string]string{}}
	var asserts []string
	if s.abs {
		q.level = map[*Term]int{}
		for _, p := range parts {
			q.levels(p, 0, false)
		}
	}
	for _, p := range parts {
		asserts = append(asserts, q.emit(p))
	}
	var sc strings.Builder
	sc.WriteString("(declare-sort U 0)\n")
	sc.WriteString(q.b.String())
	for _, a := range asserts {
		fmt.Fprintf(&sc, "(assert %s)\n", a)
	}
	body := sc.String()
	s.last = body
	s.Queries++
	if d := os.Getenv("GOVC_DUMP"); d != "" {
		os.WriteFile(fmt.Sprintf("%s/q%d.smt2", d, s.Queries), []byte(body+"(check-sat)\n"), 0644)
	}
	t0 := time.Now()
	defer func() {
		s.Time += time.Since(t0)
		if os.Getenv("GOVC_SLOW") != "" && time.Since(t0) > 500*time.Millisecond {
			fmt.Fprintf(os.Stderr, "slow q%d %.1fs brief=%v size=%d\n", s.Queries, time.Since(t0).Seconds(), s.brief, len(body))
		}
	}()
	limits := []int{s.MaxSec, s.MaxSec, s.MaxSec / 2}
	for pi, p := range s.procs {
		if s.brief {
			if pi > 0 {
				break
			}
			limits[pi] = 1
		}
		lim := limits[pi]
		if lim < 1 {
			lim = 1
		}
		var pre string
		if strings.HasPrefix(p.name, "z3") {
			pre = fmt.Sprintf("(reset)\n(set-option :timeout %d)\n", lim*1000)
		} else {
			pre = fmt.Sprintf("(reset)\n(set-logic ALL)\n(set-option :tlimit-per %d)\n", lim*1000)
			pre = fmt.Sprintf("(reset)\n(set-option :produce-models true)\n(set-option :tlimit-per %d)\n(set-logic QF_UFBV)\n", lim*1000)
		}
		out, err := p.ask(pre+body+"(check-sat)", time.Duration(lim+3)*time.Second)
		if err != nil {
			continue
		}
		f := strings.Fields(out)
		res := RUnknown
		for _, w := range f {
			if w == "unsat" {
				res = RUnsat
				break
			}
			if w == "sat" {
				res = RSat
				break
			}
		}
		if strings.Contains(out, "error") && res != RUnsat && res != RSat || strings.Contains(out, "(error") {
			if os.Getenv("GOVC_DEBUG") != "" {
				fmt.Fprintln(os.Stderr, "SOLVER ERROR", p.name, out)
			}
			res = RUnknown
		}
		if res == RUnknown {
			continue
		}
		s.By[p.name]++
		s.memo[key] = res
		if res == RSat && wantModel {
			m := &Model{Vals: map[*Term]string{}}
			var names []string
			var ts []*Term
			for _, a := range q.apps {
				if a.S.K == KU {
					continue
				}
				names = append(names, q.done[a])
				ts = append(ts, a)
			}
			for i := 0; i < len(names); i += 100 {
				j := i + 100
				if j > len(names) {
					j = len(names)
				}
				o, err := p.ask("(get-value ("+strings.Join(names[i:j], " ")+"))", 10*time.Second)
				if err != nil {
					break
				}
				vals := parseValues(o)
				for x := i; x < j && x-i < len(vals); x++ {
					m.Vals[ts[x]] = vals[x-i]
				}
			}
			return res, m, p.name
		}
		return res, nil, p.name
	}
	if !s.brief {
		s.memo[key] = RUnknown
	} else {
		s.briefUnk[key] = true
	}
	return RUnknown, nil, "none"
}

// parseValues parses ((name value) (name value) ...) and returns the values.
func parseValues(s string) []string {
	var vals []string
	depth := 0
	i := 0
	start := -1
	inBar := false
	for ; i < len(s); i++ {
		c := s[i]
		if inBar {
			if c == '|' {
				inBar = false
			}
			continue
		}
		switch c {
		case '|':
			inBar = true
		case '(':
			depth++
			if depth == 2 {
				start = i
			}
		case ')':
			if depth == 2 && start >= 0 {
				body := strings.TrimSpace(s[start+1 : i])
				// value is the last top-level token
				vals = append(vals, lastTok(body))
				start = -1
			}
			depth--
		}
	}
	return vals
}

func lastTok(s string) string {
	if strings.HasSuffix(s, ")") {
		d := 0
		for i := len(s) - 1; i >= 0; i-- {
			if s[i] == ')' {
				d++
			}
			if s[i] == '(' {
				d--
				if d == 0 {
					return s[i:]
				}
			}
		}
	}
	f := strings.Fields(s)
	if len(f) == 0 {
		return ""
	}
	return f[len(f)-1]
}

func parseBV(v string) (*big.Int, bool) {
	if strings.HasPrefix(v, "#x") {
		z, ok := new(big.Int).SetString(v[2:], 16)
		return z, ok
	}
	if strings.HasPrefix(v, "#b") {
		z, ok := new(big.Int).SetString(v[2:], 2)
		return z, ok
	}
	if strings.HasPrefix(v, "(_ bv") {
		f := strings.Fields(v[5:])
		z, ok := new(big.Int).SetString(f[0], 10)
		return z, ok
	}
	return nil, false
}

func maxSec() int {
	if v, err := strconv.Atoi(os.Getenv("GOVC_MAXSEC")); err == nil && v > 0 {
		return v
	}
	return 20
}
