package main

import (
	"bufio"
	"context"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"math/big"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// ---------------------------------------------------------------------------
// Execution of contracts against the compiled code

type natJob struct {
	Name   string
	Split  map[string][2]int
	Shape  map[string]int
	Alloc  uint64
	Hints  []map[string]string
	Runs   int
	Millis int
	Only   int64
}

type natPlan struct {
	Seed int64
	Dict []uint64
	Jobs []natJob
	Out  string
	Mark string
}

type natResult struct {
	Name  string
	Runs  int
	Skips int
	Fail  string
	Case  int64
	Input string
	Trace string
	job   *natJob
}

type native struct {
	p    *Prog
	dir  string
	mu   sync.Mutex
	bins map[string]string
	errs map[string]error
	dict []uint64
	seed int64
}

func goEnv() []string {
	env := []string{}
	for _, kv := range os.Environ() {
		k := strings.SplitN(kv, "=", 2)[0]
		switch k {
		case "GOFLAGS", "GOPROXY", "GOSUMDB", "GOENV", "GOTOOLCHAIN", "GOWORK", "GO111MODULE":
			continue
		}
		env = append(env, kv)
	}
	return append(env, "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOENV=off", "GOTOOLCHAIN=local", "GOWORK=off", "GO111MODULE=on")
}

// build compiles the contracts of a package together with the package.
func (n *native) build(pkg string) (string, error) {
	n.mu.Lock()
	defer n.mu.Unlock()
	if b, ok := n.bins[pkg]; ok {
		return b, n.errs[pkg]
	}
	bin, err := n.build1(pkg)
	n.bins[pkg], n.errs[pkg] = bin, err
	return bin, err
}

func (n *native) build1(pkg string) (string, error) {
	b, err := os.ReadFile(filepath.Join(verifDir(), "contracts", "driver.go.txt"))
	if err != nil {
		return "", err
	}
	src := strings.Replace(string(b), "package PKG", "package "+pkg, 1)
	var t strings.Builder
	t.WriteString("\nvar vTable = map[string]vEntry{\n")
	for _, h := range n.p.harness {
		if h.Pkg != pkg {
			continue
		}
		var names []string
		for _, q := range h.Fn.Params {
			names = append(names, strconv.Quote(q.Name()))
		}
		fmt.Fprintf(&t, "\t%q: {vc_%s, []string{%s}},\n", h.Name, strings.TrimPrefix(h.Name, pkg+"."), strings.Join(names, ", "))
	}
	t.WriteString("}\n\nvar vGenList = []interface{}{\n")
	gens, _ := filepath.Glob(filepath.Join(verifDir(), "contracts", pkg, "*_gen.go"))
	for _, g := range n.p.gens {
		if g[0] == pkg {
			gens = append(gens, g[1])
		}
	}
	for _, g := range gens {
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, g, nil, 0)
		if err != nil {
			return "", err
		}
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && strings.HasPrefix(fd.Name.Name, "vgen_") {
				fmt.Fprintf(&t, "\t%s,\n", fd.Name.Name)
			}
		}
	}
	t.WriteString("}\n")
	df := filepath.Join(n.dir, pkg+"_driver.go")
	if err := os.WriteFile(df, []byte(src+t.String()), 0o644); err != nil {
		return "", err
	}
	ov := filepath.Join(n.dir, pkg+"_overlay.json")
	ex := map[string]string{filepath.Join(n.p.dir, pkg, "zz_verif_driver_test.go"): df}
	// the package's own tests are left out
	own, _ := filepath.Glob(filepath.Join(n.p.dir, pkg, "*_test.go"))
	for _, o := range own {
		ex[o] = ""
	}
	if pkg != "cuckoo" {
		if err := n.hookPow(ex); err != nil {
			return "", err
		}
	}
	if err := n.p.writeOverlay(ov, ex); err != nil {
		return "", err
	}
	bin := filepath.Join(n.dir, pkg+".test")
	cmd := exec.Command("go", "test", "-c", "-vet=off", "-overlay", ov, "-o", bin, "./"+pkg)
	cmd.Dir = n.p.dir
	cmd.Env = goEnv()
	if out, err := cmd.CombinedOutput(); err != nil {
		return "", fmt.Errorf("contracts of %s do not compile against the code: %v\n%s", pkg, err, out)
	}
	return bin, nil
}

// hookPow: when contracts of callers are executed, (*Cuckaroo).Verify starts
// with a jump to its contract.
func (n *native) hookPow(ex map[string]string) error {
	fs, _ := filepath.Glob(filepath.Join(n.p.dir, "cuckoo", "*.go"))
	for _, f := range fs {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		b, err := os.ReadFile(f)
		if err != nil {
			return err
		}
		set := token.NewFileSet()
		a, err := parser.ParseFile(set, f, b, 0)
		if err != nil {
			return err
		}
		for _, d := range a.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Name.Name != "Verify" || fd.Recv == nil || fd.Body == nil || len(fd.Recv.List[0].Names) == 0 {
				continue
			}
			st, ok := fd.Recv.List[0].Type.(*ast.StarExpr)
			if !ok {
				continue
			}
			if id, ok := st.X.(*ast.Ident); !ok || id.Name != "Cuckaroo" {
				continue
			}
			names := []string{fd.Recv.List[0].Names[0].Name}
			for _, q := range fd.Type.Params.List {
				for _, x := range q.Names {
					names = append(names, x.Name)
				}
			}
			at := set.Position(fd.Body.Lbrace).Offset + 1
			out := string(b[:at]) + fmt.Sprintf(" if VPseudo { return spec_Cuckaroo_Verify(%s) };", strings.Join(names, ", ")) + string(b[at:])
			g := filepath.Join(n.dir, "pow_"+filepath.Base(f))
			if err := os.WriteFile(g, []byte(out), 0o644); err != nil {
				return err
			}
			ex[f] = g
		}
	}
	return nil
}

func (n *native) job(h *Harness, runs, millis int, hints []map[string]string) natJob {
	j := natJob{Name: h.Name, Split: map[string][2]int{}, Shape: map[string]int{}, Runs: runs, Millis: millis, Only: -1, Hints: hints}
	for _, s := range h.Splits {
		j.Split[s.param] = [2]int{s.lo, s.hi}
	}
	for i := 0; i+1 < len(h.Attr["shape"]); i += 2 {
		if v, err := strconv.Atoi(h.Attr["shape"][i+1]); err == nil {
			j.Shape[h.Attr["shape"][i]] = v
		}
	}
	if l := h.Attr["alloc"]; len(l) > 0 {
		j.Alloc, _ = strconv.ParseUint(l[0], 10, 64)
	}
	if m := h.Attr["runs"]; len(m) > 0 && runs > 0 {
		if v, err := strconv.Atoi(m[0]); err == nil && v < runs {
			j.Runs = v
		}
	}
	return j
}

// run executes jobs of one package; a job that ends the process is a failure.
func (n *native) run(pkg string, jobs []natJob, tag string) ([]natResult, error) {
	bin, err := n.build(pkg)
	if err != nil {
		return nil, err
	}
	var all []natResult
	for part := 0; len(jobs) > 0; part++ {
		base := filepath.Join(n.dir, fmt.Sprintf("%s_%s_%d", pkg, tag, part))
		plan := natPlan{Seed: n.seed, Dict: n.dict, Jobs: jobs, Out: base + ".out", Mark: base + ".mark"}
		b, _ := json.Marshal(plan)
		if err := os.WriteFile(base+".plan", b, 0o644); err != nil {
			return nil, err
		}
		total := 60
		for _, j := range jobs {
			total += 25 + j.Millis/1000
		}
		ctx, cancel := context.WithTimeout(context.Background(), time.Duration(total)*time.Second)
		wd := base + ".d"
		os.MkdirAll(wd, 0o755)
		// bounded memory: an allocation beyond this ends the process, not the sandbox
		cmd := exec.CommandContext(ctx, "bash", "-c", "ulimit -v 12000000; exec "+bin+" -test.run TestVerifContracts -test.timeout 30m")
		cmd.Dir = wd
		cmd.Env = append(goEnv(), "GOVC_PLAN="+base+".plan")
		out, rerr := cmd.CombinedOutput()
		cancel()
		done := map[string]bool{}
		if f, err := os.Open(plan.Out); err == nil {
			sc := bufio.NewScanner(f)
			sc.Buffer(make([]byte, 1<<20), 1<<26)
			for sc.Scan() {
				var r natResult
				if json.Unmarshal(sc.Bytes(), &r) == nil {
					r.job = jobNamed(jobs, r.Name)
					all = append(all, r)
					done[r.Name] = true
				}
			}
			f.Close()
		}
		if rerr == nil {
			break
		}
		// the process ended in the middle of a case
		m, _ := os.ReadFile(plan.Mark)
		w := strings.Fields(string(m))
		if len(w) < 2 || done[w[0]] {
			return all, fmt.Errorf("contracts of %s cannot be executed: %v\n%s", pkg, rerr, tail(string(out), 3000))
		}
		c, _ := strconv.ParseInt(w[1], 10, 64)
		why := "the process ends"
		if strings.Contains(string(out), "VERIF-HANG") {
			why = "does not terminate within 20 s"
		} else if strings.Contains(string(out), "out of memory") || strings.Contains(string(out), "cannot allocate") {
			why = "exhausts the memory"
		} else if strings.Contains(string(out), "stack overflow") {
			why = "overflows the stack"
		}
		all = append(all, natResult{Name: w[0], Runs: int(c) + 1, Fail: why, Case: c, Trace: tail(string(out), 3000), job: jobNamed(jobs, w[0])})
		done[w[0]] = true
		var rest []natJob
		for _, j := range jobs {
			if !done[j.Name] {
				rest = append(rest, j)
			}
		}
		jobs = rest
	}
	return all, nil
}

func jobNamed(js []natJob, n string) *natJob {
	for i := range js {
		if js[i].Name == n {
			return &js[i]
		}
	}
	return nil
}

func tail(s string, n int) string {
	if len(s) > n {
		return "..." + s[len(s)-n:]
	}
	return s
}

// sourceDict: the integer constants of the code.
func sourceDict(repo string) []uint64 {
	seen := map[uint64]bool{}
	fs := token.NewFileSet()
	for _, pk := range contractPkgs {
		files, _ := filepath.Glob(filepath.Join(repo, pk, "*.go"))
		for _, fn := range files {
			if strings.HasSuffix(fn, "_test.go") {
				continue
			}
			f, err := parser.ParseFile(fs, fn, nil, 0)
			if err != nil {
				continue
			}
			ast.Inspect(f, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.BasicLit:
					if x.Kind == token.INT || x.Kind == token.CHAR {
						v := constant.MakeFromLiteral(x.Value, x.Kind, 0)
						if u, ok := constant.Uint64Val(constant.ToInt(v)); ok {
							seen[u] = true
						}
					}
				case *ast.BinaryExpr:
					l, ok1 := x.X.(*ast.BasicLit)
					r, ok2 := x.Y.(*ast.BasicLit)
					if ok1 && ok2 && l.Kind == token.INT && r.Kind == token.INT {
						a := constant.MakeFromLiteral(l.Value, l.Kind, 0)
						b := constant.MakeFromLiteral(r.Value, r.Kind, 0)
						switch x.Op {
						case token.MUL, token.ADD, token.SUB:
							if u, ok := constant.Uint64Val(constant.BinaryOp(a, x.Op, b)); ok {
								seen[u] = true
							}
						case token.SHL:
							if s, ok := constant.Uint64Val(b); ok && s < 64 {
								if u, ok := constant.Uint64Val(constant.Shift(a, token.SHL, uint(s))); ok {
									seen[u] = true
								}
							}
						}
					}
				}
				return true
			})
		}
	}
	var out []uint64
	for u := range seen {
		out = append(out, u)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}

// ---------------------------------------------------------------------------
// Evaluation of terms in a counterexample, for the names of list elements

func (e *Eng) evalTerm(t *Term, m *Model) (*big.Int, bool) {
	if t.Op == OConst {
		return t.BigVal(), true
	}
	if s, ok := m.Vals[t]; ok {
		switch {
		case strings.HasPrefix(s, "#x"):
			return new(big.Int).SetString(s[2:], 16)
		case strings.HasPrefix(s, "#b"):
			return new(big.Int).SetString(s[2:], 2)
		}
	}
	var as []*big.Int
	for _, a := range t.Args {
		v, ok := e.evalTerm(a, m)
		if !ok {
			return nil, false
		}
		as = append(as, v)
	}
	if t.S.K != KBV || len(as) == 0 {
		return nil, false
	}
	r := new(big.Int)
	switch t.Op {
	case OAdd:
		for _, a := range as {
			r.Add(r, a)
		}
	case OMul:
		r.SetInt64(1)
		for _, a := range as {
			r.Mul(r, a)
		}
	case OConcat:
		for i, a := range as {
			r.Lsh(r, uint(t.Args[i].S.W))
			r.Or(r, a)
		}
	default:
		return nil, false
	}
	return r.And(r, new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(t.S.W)), big.NewInt(1))), true
}

// hintsOf names the parts of the inputs in a counterexample.
func (e *Eng) hintsOf(m *Model) map[string]string {
	out := map[string]string{}
	if m == nil {
		return out
	}
	for t, v := range m.Vals {
		k := ""
		switch {
		case t.Op == OVar:
			k = t.Name
		case t.Op == OApp && t.Name == "word" && len(t.Args) == 1:
			k = e.hintName(t.Args[0], m)
		case t.Op == OApp:
			k = e.hintName(t, m)
		}
		if k != "" {
			out[k] = v
		}
	}
	return out
}

func (e *Eng) hintName(t *Term, m *Model) string {
	if t.Op == OVar {
		return t.Name
	}
	if t.Op != OApp {
		return ""
	}
	if len(t.Args) == 0 {
		return t.Name
	}
	var s []string
	for _, a := range t.Args {
		v, ok := e.evalTerm(a, m)
		if !ok {
			return ""
		}
		s = append(s, v.String())
	}
	return t.Name + "(" + strings.Join(s, " ") + ")"
}

// ---------------------------------------------------------------------------
// The check of one property

type finding struct {
	obligation string
	harness    *Harness
	detail     string
	input      string
	native     *natResult
}

func checkProp(prop, repo string, thorough bool, seed int64) int {
	t0 := time.Now()
	dir, err := os.MkdirTemp("", "govc")
	if err != nil {
		fmt.Println(err)
		return 2
	}
	defer os.RemoveAll(dir)
	p, err := loadProg(repo, dir)
	if err != nil {
		fmt.Println("govc:", err)
		return 2
	}
	var hs []*Harness
	for _, h := range p.harness {
		for _, x := range h.Props {
			if x == prop {
				hs = append(hs, h)
			}
		}
	}
	if len(hs) == 0 {
		fmt.Printf("govc: no contract of %s can be stated about the current code\n", prop)
		for _, d := range p.dropped {
			fmt.Println("  ", d)
		}
		return report(prop, seed, thorough, t0, p, nil, nil, []finding{{obligation: "contracts apply to the code", detail: strings.Join(p.dropped, "\n")}})
	}
	nat := &native{p: p, dir: dir, bins: map[string]string{}, errs: map[string]error{}, dict: sourceDict(repo), seed: seed}

	// proofs and, at the same time, execution
	var tasks []*Task
	for _, h := range hs {
		if h.Bounded != "" {
			continue
		}
		tasks = append(tasks, tasksOf(h)...)
	}
	limit := 700 * time.Second
	whole := 760 * time.Second
	if thorough {
		limit, whole = 3600*time.Second, 7200*time.Second
	}
	natRes := map[string]*natResult{}
	var natErr error
	var mu sync.Mutex
	var wgN sync.WaitGroup
	byPkg := map[string][]natJob{}
	for _, h := range hs {
		runs, ms := 2000, 1200
		if h.Bounded != "" {
			runs, ms = 1<<30, 20000
		}
		if thorough {
			runs, ms = runs*20, ms*20
		}
		byPkg[h.Pkg] = append(byPkg[h.Pkg], nat.job(h, runs, ms, nil))
	}
	defer time.AfterFunc(whole, func() { atomic.StoreInt32(&stopProofs, 1) }).Stop()
	sem := make(chan bool, runtime.NumCPU())
	for pkg, jobs := range byPkg {
		pkg := pkg
		if _, err := nat.build(pkg); err != nil {
			natErr = err
			continue
		}
		for i, part := range chunksOf(jobs, 4) {
			wgN.Add(1)
			go func(i int, part []natJob) {
				defer wgN.Done()
				sem <- true
				defer func() { <-sem }()
				rs, err := nat.run(pkg, part, fmt.Sprintf("n%d", i))
				mu.Lock()
				defer mu.Unlock()
				if err != nil {
					natErr = err
				}
				for i := range rs {
					if rs[i].Fail != "" {
						// the violation is shown: no need to look for more
						atomic.StoreInt32(&stopProofs, 1)
					}
					natRes[rs[i].Name] = &rs[i]
				}
			}(i, part)
		}
	}
	todo := tasks
	inc := map[*Harness]bool{}
	for _, h := range hs {
		inc[h] = true
	}
	for len(todo) > 0 {
		var wg sync.WaitGroup
		q := make(chan *Task)
		for i := 0; i < runtime.NumCPU(); i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for t := range q {
					sem <- true
					runTask(p, t, limit)
					<-sem
				}
			}()
		}
		for _, t := range todo {
			q <- t
		}
		close(q)
		wg.Wait()
		// the contracts of callees that were used are obligations of this
		// property too
		var more []*Task
		for _, t := range todo {
			for k := range t.calleeC {
				for _, h := range p.harness {
					for _, d := range h.Attr["discharges"] {
						if d == k && !inc[h] {
							inc[h] = true
							hs = append(hs, h)
							if h.Bounded == "" {
								more = append(more, tasksOf(h)...)
							}
						}
					}
				}
			}
		}
		tasks = append(tasks, more...)
		todo = more
	}
	wgN.Wait()

	var fs []finding
	failedH := map[*Harness][]map[string]string{}
	for _, t := range tasks {
		for _, o := range t.obs {
			if o.Status != "proved" {
				d := fmt.Sprintf("%s: %s %s\ncondition: %s\nverdict of %s: %s\n", t.h.Name, o.Name, o.Detail, o.Cond, o.By, o.Status)
				var ks []string
				for k := range o.Model {
					ks = append(ks, k)
				}
				sort.Strings(ks)
				for _, k := range ks {
					d += "  " + k + " = " + o.Model[k] + "\n"
				}
				for _, x := range o.Trace {
					d += "  path: " + x + "\n"
				}
				fs = append(fs, finding{obligation: o.Name, harness: t.h, detail: d})
				hm := map[string]string{}
				for k, v := range o.Hints {
					hm[k] = v
				}
				for k, v := range t.split {
					hm["split:"+k] = fmt.Sprintf("#x%x", v)
				}
				failedH[t.h] = append(failedH[t.h], hm)
			}
		}
		if t.failMsg != "" {
			fs = append(fs, finding{obligation: "verification condition generation", harness: t.h, detail: fmt.Sprintf("%s %v: %s", t.h.Name, t.split, t.failMsg)})
			failedH[t.h] = append(failedH[t.h], map[string]string{})
		}
	}
	// failing inputs for what could not be discharged
	if len(failedH) > 0 && natErr == nil {
		again := map[string][]natJob{}
		for h, hints := range failedH {
			if r := natRes[h.Name]; r != nil && r.Fail != "" {
				continue
			}
			if len(hints) > 20 {
				hints = hints[:20]
			}
			ms := 40000
			if len(failedH) > 8 {
				ms = 15000
			}
			again[h.Pkg] = append(again[h.Pkg], nat.job(h, 1<<30, ms, hints))
		}
		var wg sync.WaitGroup
		for pkg, jobs := range again {
			for i, j := range jobs {
				wg.Add(1)
				go func(pkg string, i int, j natJob) {
					defer wg.Done()
					sem <- true
					defer func() { <-sem }()
					rs, err := nat.run(pkg, []natJob{j}, fmt.Sprintf("a%d", i))
					mu.Lock()
					defer mu.Unlock()
					if err != nil {
						fmt.Println("govc: replay:", err)
					}
					for i := range rs {
						if o := natRes[rs[i].Name]; o != nil {
							rs[i].Runs += o.Runs
							rs[i].Skips += o.Skips
						}
						natRes[rs[i].Name] = &rs[i]
					}
				}(pkg, i, j)
			}
		}
		wg.Wait()
	}
	if natErr != nil {
		fmt.Println("govc:", natErr)
	}
	for _, h := range hs {
		if r := natRes[h.Name]; r != nil && r.Fail != "" {
			fs = append([]finding{{obligation: r.Fail, harness: h, native: r, detail: fmt.Sprintf("%s fails on the input below: %s\ncase %d of seed %d\n\n%s\n\n%s\n", h.Name, r.Fail, r.Case, seed, r.Input, r.Trace)}}, fs...)
		}
	}
	return report(prop, seed, thorough, t0, p, tasks, natRes, fs)
}

func chunksOf(js []natJob, n int) [][]natJob {
	var out [][]natJob
	k := (len(js) + n - 1) / n
	for len(js) > 0 {
		m := k
		if m > len(js) {
			m = len(js)
		}
		out = append(out, js[:m])
		js = js[m:]
	}
	return out
}

func report(prop string, seed int64, thorough bool, t0 time.Time, p *Prog, tasks []*Task, natRes map[string]*natResult, fs []finding) int {
	tier := "quick"
	if thorough {
		tier = "thorough"
	}
	ob, ok, panics, queries := 0, 0, 0, 0
	var solver time.Duration
	by := map[string]int{}
	obBy := map[string]int{}
	assumed := map[string]bool{}
	targets := map[string]bool{}
	callee := map[string]bool{}
	inlined := map[string]bool{}
	loops := map[string]bool{}
	for _, t := range tasks {
		for _, o := range t.obs {
			ob++
			if o.Status == "proved" {
				ok++
				obBy[o.By]++
			}
		}
		if t.failMsg != "" {
			ob++
		}
		panics += t.panics
		queries += t.queries
		solver += t.solveTime
		for k, v := range t.by {
			by[k] += v
		}
		for k := range t.assumed {
			assumed[k] = true
		}
		for _, k := range t.h.Attr["contract"] {
			targets[k] = true
		}
		for k := range t.calleeC {
			callee[k] = true
		}
		for k := range t.used {
			inlined[k] = true
		}
		for k := range t.loops {
			loops[k] = true
		}
	}
	runs, skips := 0, 0
	var bounded, samples []interface{}
	var names []string
	for k := range natRes {
		names = append(names, k)
	}
	sort.Strings(names)
	bh := map[string]*Harness{}
	if p != nil {
		for _, h := range p.harness {
			bh[h.Name] = h
		}
	}
	for _, k := range names {
		r := natRes[k]
		runs += r.Runs
		skips += r.Skips
		if os.Getenv("GOVC_SKIPS") != "" {
			fmt.Printf("  %-45s runs %d skips %d\n", k, r.Runs, r.Skips)
		}
		if h := bh[k]; h != nil && h.Bounded != "" {
			bounded = append(bounded, map[string]interface{}{"contract": k, "function": h.Target, "bound": h.Bounded, "executions": r.Runs - r.Skips})
		}
	}
	for _, k := range names {
		h := bh[k]
		if h == nil {
			continue
		}
		if d := h.Attr["depth"]; len(d) > 0 {
			bounded = append(bounded, map[string]interface{}{"contract": h.Name, "function": h.Target, "bound": "proved only for " + strings.Join(d, " ")})
		}
	}
	_ = samples
	var dropped []string
	if p != nil {
		dropped = p.dropped
	}
	cov := map[string]interface{}{
		"obligations": ob, "discharged": ok,
		"panic_conditions_refuted":      panics,
		"checker_cmd":                   fmt.Sprintf("bash /verif/check.sh %s %s", prop, tier),
		"trusted_base":                  append([]string{"govc: symbolic execution of go/ssa built from /repo's current source, rewriting rules, loop summaries (/verif/govc)", "golang.org/x/tools/go/ssa 's translation of Go", "z3 5.3.2, cvc5 1.1.2, z3 4.8.12 (unsat answers)"}, prefixAll("assumed contract of a dependency: ", sortedSet(assumed))...),
		"functions_under_contract":      sortedSet(targets),
		"callees_used_through_contract": sortedSet(callee),
		"functions_executed_in_full":    sortedSet(inlined),
		"loops_summarised_by_invariant": sortedSet(loops),
		"back_ends":                     obBy,
		"solver_queries":                queries,
		"solver_answers":                by,
		"solver_seconds":                float64(int(solver.Seconds()*100)) / 100,
		"replay_executions":             runs - skips,
		"contracts_not_applicable":      dropped,
	}
	if len(bounded) > 0 {
		cov["bounded_not_counted_as_proved"] = bounded
	}
	ev := map[string]interface{}{
		"property": prop, "tier": tier, "seed": seed, "level": "proof", "coverage": cov,
		"assumptions": append([]string{}, commonAssumptions...),
		"wall_s":      float64(int(time.Since(t0).Seconds()*100)) / 100,
		"violations":  len(fs),
	}
	os.MkdirAll(filepath.Join(verifDir(), "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(verifDir(), "evidence", prop+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Println(err)
		return 2
	}
	fmt.Printf("%s: %d contracts, %d/%d obligations discharged, %d panic conditions refuted, %d loops summarised, %d solver queries (%.1f s), %d executions, %.1f s\n",
		prop, len(names), ok, ob, panics, len(loops), queries, solver.Seconds(), runs-skips, time.Since(t0).Seconds())
	if len(fs) == 0 {
		return 0
	}
	// one report per property, with the failing input when there is one
	f := fs[0]
	var sb strings.Builder
	fmt.Fprintf(&sb, "property: %s\n", prop)
	for _, g := range fs {
		h := "-"
		if g.harness != nil {
			h = g.harness.Name + " (contract of " + g.harness.Target + ")"
		}
		fmt.Fprintf(&sb, "\n=== failed obligation: %s\ncontract: %s\n%s\n", g.obligation, h, g.detail)
	}
	suffix := " no-failing-input-found"
	if f.native != nil {
		suffix = ""
		fmt.Fprintf(&sb, "\nto run this input again: bash /verif/check.sh replay %s\n", prop)
		if f.native.job != nil {
			j := *f.native.job
			j.Only = f.native.Case
			b, _ := json.Marshal(natPlan{Seed: seed, Dict: sourceDict(p.dir), Jobs: []natJob{j}})
			os.WriteFile(filepath.Join(verifDir(), "evidence", "replay_"+prop+".json"), b, 0o644)
		}
	}
	path := filepath.Join(verifDir(), "evidence", "replay_"+prop+".txt")
	os.WriteFile(path, []byte(sb.String()), 0o644)
	for i, g := range fs {
		if i == 6 {
			fmt.Printf("  ... %d more\n", len(fs)-i)
			break
		}
		h := "-"
		if g.harness != nil {
			h = g.harness.Name
		}
		fmt.Printf("  failed: %s in %s: %.300s\n", g.obligation, h, strings.ReplaceAll(g.detail, "\n", " | "))
	}
	fmt.Printf("VIOLATION property=%s replay=%s%s\n", prop, path, suffix)
	return 1
}

func prefixAll(p string, xs []string) []string {
	var out []string
	for _, x := range xs {
		out = append(out, p+x)
	}
	return out
}

var commonAssumptions = []string{
	"arguments of the functions under contract do not alias each other unless the contract says so, and slices hold at most 2^30 elements",
	"machine arithmetic is modelled exactly (bit vectors of Go's widths, 64-bit int)",
	"memory exhaustion and stack overflow are outside the contracts except for allocations sized by an input, which are obligations",
	"log calls have no effect other than logrus.Fatal, which is an obligation never to be reached; error values carry no meaning beyond nil or not nil",
	"each contract is for one goroutine: no interference from other goroutines during a call",
}

// replayProp runs the recorded failing input of a property again.
func replayProp(prop, repo string) int {
	b, err := os.ReadFile(filepath.Join(verifDir(), "evidence", "replay_"+prop+".json"))
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var pl natPlan
	if err := json.Unmarshal(b, &pl); err != nil || len(pl.Jobs) != 1 {
		fmt.Println("bad replay file")
		return 2
	}
	dir, err := os.MkdirTemp("", "govc")
	if err != nil {
		fmt.Println(err)
		return 2
	}
	defer os.RemoveAll(dir)
	p, err := loadProg(repo, dir)
	if err != nil {
		fmt.Println("govc:", err)
		return 2
	}
	nat := &native{p: p, dir: dir, bins: map[string]string{}, errs: map[string]error{}, dict: pl.Dict, seed: pl.Seed}
	rs, err := nat.run(strings.SplitN(pl.Jobs[0].Name, ".", 2)[0], pl.Jobs, "r")
	if err != nil {
		fmt.Println(err)
		return 2
	}
	for _, r := range rs {
		if r.Fail != "" {
			fmt.Printf("%s: %s\n%s\n%s\n", r.Name, r.Fail, r.Input, r.Trace)
			return 1
		}
		fmt.Printf("%s: the contract holds on this input\n", r.Name)
	}
	return 0
}

// stopProofs ends all proofs: time is up, or a failing input is known.
var stopProofs int32
