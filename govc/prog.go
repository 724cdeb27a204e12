package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Prog is the code under verification: the packages of the repository built
// from their current source, with the contract files laid over them.
type Prog struct {
	gens    [][2]string // shared generators: package, file
	ssa     *ssa.Program
	fset    *token.FileSet
	pkgs    map[string]*ssa.Package // by path
	repo    map[*ssa.Package]bool
	order   []*ssa.Package
	errType types.Type
	harness []*Harness
	specs   map[string]*SpecFn       // by full name of the function under contract
	abs     map[*ssa.Function]string // contract functions of no known meaning but their arguments
	overlay map[string]string        // path in /repo -> path of the file laid over it
	dir     string
	src     map[string]int // functions of the repository itself
	dropped []string       // contracts that cannot be stated about the current code
}

// Harness: one contract of one function, as a closed specification: for all
// parameters that meet the vRequire conditions every vEnsure holds and nothing
// panics.
type Harness struct {
	Name    string
	Fn      *ssa.Function
	Props   []string
	Pkg     string
	Attr    map[string][]string
	Target  string
	Splits  []splitSpec
	Bounded string
	Doc     string
}

type splitSpec struct {
	param  string
	lo, hi int
}

// SpecFn: a contract usable at call sites.
type SpecFn struct {
	OptIn  bool // only for contracts that say so
	Target string
	Fn     *ssa.Function
	Opaque bool
	Uses   map[string]bool
}

const modPath = "github.com/dblokhin/gringo"

var contractPkgs = []string{"cuckoo", "secp256k1zkp", "consensus", "chain", "p2p"}

func verifDir() string {
	if d := os.Getenv("GOVC_VERIF"); d != "" {
		return d
	}
	return "/verif"
}

// prelude writes the file of intrinsics for a package.
func preludeFor(pkg string) ([]byte, error) {
	b, err := os.ReadFile(filepath.Join(verifDir(), "contracts", "prelude.go.txt"))
	if err != nil {
		return nil, err
	}
	return []byte(strings.Replace(string(b), "package PKG", "package "+pkg, 1)), nil
}

func loadProg(repo, scratch string) (*Prog, error) {
	p := &Prog{pkgs: map[string]*ssa.Package{}, repo: map[*ssa.Package]bool{}, specs: map[string]*SpecFn{}, overlay: map[string]string{}, dir: repo, src: map[string]int{}, abs: map[*ssa.Function]string{}}
	ov := map[string][]byte{}
	for _, pk := range contractPkgs {
		pre, err := preludeFor(pk)
		if err != nil {
			return nil, err
		}
		f := filepath.Join(repo, pk, "zz_verif_prelude.go")
		ov[f] = pre
		pf := filepath.Join(scratch, pk+"_prelude.go")
		if err := os.WriteFile(pf, pre, 0o644); err != nil {
			return nil, err
		}
		p.overlay[f] = pf
		fs, _ := filepath.Glob(filepath.Join(verifDir(), "contracts", pk, "*.go"))
		sort.Strings(fs)
		for _, c := range fs {
			b, err := os.ReadFile(c)
			if err != nil {
				return nil, err
			}
			if strings.HasSuffix(c, "_gen.go") {
				// generators are used by the native replay only
				t := filepath.Join(repo, pk, "zz_verif_"+strings.TrimSuffix(filepath.Base(c), ".go")+"_test.go")
				p.overlay[t] = c
				continue
			}
			t := filepath.Join(repo, pk, "zz_verif_"+filepath.Base(c))
			ov[t] = b
			p.overlay[t] = c
		}
	}
	for _, pk := range []string{"consensus", "p2p", "chain"} {
		if err := p.sharedGen(pk, scratch); err != nil {
			return nil, err
		}
	}
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedSyntax | packages.NeedTypes | packages.NeedTypesInfo |
			packages.NeedImports | packages.NeedTypesSizes | packages.NeedModule | packages.NeedCompiledGoFiles | packages.NeedExportFile,
		Dir: repo, Overlay: ov,
		Env: append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOSUMDB=off"),
	}
	var pats []string
	for _, pk := range contractPkgs {
		pats = append(pats, "./"+pk)
	}
	var ps []*packages.Package
	for round := 0; ; round++ {
		var err error
		ps, err = packages.Load(cfg, pats...)
		if err != nil {
			return nil, err
		}
		var errs []string
		bad := map[string][]int{}
		packages.Visit(ps, nil, func(q *packages.Package) {
			for _, e := range q.Errors {
				errs = append(errs, e.Error())
				w := strings.Split(e.Pos, ":")
				if len(w) >= 2 {
					if l, err := strconv.Atoi(w[1]); err == nil {
						bad[w[0]] = append(bad[w[0]], l)
					}
				}
			}
		})
		if len(errs) == 0 {
			break
		}
		// a contract about a function that no longer exists under that name, or
		// with other parameters, is set aside
		did := false
		for f, lines := range bad {
			if b, ok := ov[f]; ok && !strings.HasSuffix(f, "_prelude.go") {
				nb, names := dropDecls(b, lines)
				if len(names) > 0 {
					did = true
					ov[f] = nb
					sf := filepath.Join(scratch, fmt.Sprintf("%s_%s", filepath.Base(filepath.Dir(f)), filepath.Base(f)))
					if err := os.WriteFile(sf, nb, 0o644); err != nil {
						return nil, err
					}
					p.overlay[f] = sf
					for _, n := range names {
						p.dropped = append(p.dropped, n+": "+strings.Join(errs, "; "))
					}
				}
			}
		}
		if !did || round > 12 {
			return nil, fmt.Errorf("the code does not load: %s", strings.Join(errs, "; "))
		}
	}
	prog, sp := ssautil.Packages(ps, ssa.InstantiateGenerics)
	prog.Build()
	p.ssa = prog
	p.fset = prog.Fset
	for i, s := range sp {
		if s == nil {
			return nil, fmt.Errorf("no SSA for %s", ps[i].PkgPath)
		}
		p.pkgs[s.Pkg.Path()] = s
		p.repo[s] = true
	}
	for _, n := range contractPkgs {
		p.order = append(p.order, p.pkgs[modPath+"/"+n])
	}
	et := types.NewNamed(types.NewTypeName(token.NoPos, nil, "govcError", nil), types.NewStruct(nil, nil), nil)
	sig := types.NewSignatureType(nil, nil, nil, nil, types.NewTuple(types.NewVar(token.NoPos, nil, "", types.Typ[types.String])), false)
	p.errType = types.NewPointer(et)
	rs := types.NewSignatureType(types.NewVar(token.NoPos, nil, "e", p.errType), nil, nil, nil, sig.Results(), false)
	et.AddMethod(types.NewFunc(token.NoPos, nil, "Error", rs))
	for i, q := range ps {
		if err := p.discover(q, sp[i]); err != nil {
			return nil, err
		}
	}
	sort.Slice(p.harness, func(i, j int) bool { return p.harness[i].Name < p.harness[j].Name })
	return p, nil
}

func (p *Prog) inRepo(q *ssa.Package) bool { return q != nil && p.repo[q] }

func shortName(s string) string {
	return strings.ReplaceAll(s, modPath+"/", "")
}

// discover reads the //@ comments of the contract files.
func (p *Prog) discover(q *packages.Package, sp *ssa.Package) error {
	for i, f := range q.Syntax {
		_ = i
		base := filepath.Base(q.Fset.Position(f.Pos()).Filename)
		own := !strings.HasPrefix(base, "zz_verif_")
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok {
				continue
			}
			if own {
				p.src[fd.Name.Name]++
				continue
			}
			attr := map[string][]string{}
			doc := ""
			if fd.Doc != nil {
				for _, c := range fd.Doc.List {
					t := strings.TrimPrefix(c.Text, "//")
					if !strings.HasPrefix(t, "@") {
						doc += strings.TrimSpace(t) + " "
						continue
					}
					ws := strings.Fields(t[1:])
					if len(ws) > 0 {
						attr[ws[0]] = append(append([]string{}, attr[ws[0]]...), ws[1:]...)
					}
				}
			}
			fn := sp.Func(fd.Name.Name)
			if strings.HasPrefix(fd.Name.Name, "vc_") && fd.Recv == nil {
				h := &Harness{Name: q.Name + "." + strings.TrimPrefix(fd.Name.Name, "vc_"), Fn: fn, Props: attr["prop"], Pkg: q.Name, Attr: attr, Doc: strings.TrimSpace(doc)}
				if len(h.Props) == 0 {
					return fmt.Errorf("%s has no property", h.Name)
				}
				h.Target = strings.Join(attr["contract"], " ")
				h.Bounded = strings.Join(attr["bounded"], " ")
				for j := 0; j+2 < len(attr["split"]); j += 3 {
					lo, e1 := strconv.Atoi(attr["split"][j+1])
					hi, e2 := strconv.Atoi(attr["split"][j+2])
					if e1 != nil || e2 != nil {
						return fmt.Errorf("bad split in %s", h.Name)
					}
					h.Splits = append(h.Splits, splitSpec{attr["split"][j], lo, hi})
				}
				p.harness = append(p.harness, h)
			}
			if _, ok := attr["abstract"]; ok {
				p.abs[fn] = q.Name + "." + fd.Name.Name
			}
			if t := attr["spec"]; len(t) > 0 {
				p.specs[t[0]] = &SpecFn{Target: t[0], Fn: fn, Opaque: len(t) > 1 && t[1] == "opaque", OptIn: len(t) > 1 && t[1] == "optin"}
			}
		}
	}
	return nil
}

func (p *Prog) writeOverlay(file string, extra map[string]string) error {
	m := map[string]string{}
	for k, v := range p.overlay {
		m[k] = v
	}
	for k, v := range extra {
		m[k] = v
	}
	b, _ := json.MarshalIndent(map[string]interface{}{"Replace": m}, "", " ")
	return os.WriteFile(file, b, 0o644)
}

// dropDecls blanks the top-level functions that contain the given lines.
func dropDecls(src []byte, lines []int) ([]byte, []string) {
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, "x.go", src, parser.ParseComments)
	if err != nil {
		return src, nil
	}
	out := append([]byte{}, src...)
	var names []string
	for _, d := range f.Decls {
		a, b := fs.Position(d.Pos()).Line, fs.Position(d.End()).Line
		hit := false
		for _, l := range lines {
			hit = hit || a <= l && l <= b
		}
		if !hit {
			continue
		}
		name := "declaration"
		start := d.Pos()
		switch x := d.(type) {
		case *ast.FuncDecl:
			name = x.Name.Name
			if x.Doc != nil {
				start = x.Doc.Pos()
			}
		case *ast.GenDecl:
			if x.Tok == token.IMPORT {
				// an import that is no longer used
				for _, s := range x.Specs {
					is := s.(*ast.ImportSpec)
					for _, l := range lines {
						if fs.Position(is.Pos()).Line == l && is.Name == nil {
							o := fs.Position(is.Pos()).Offset
							out[o-1] = '_'
							names = append(names, "import "+is.Path.Value)
						}
					}
				}
				continue
			}
			if x.Doc != nil {
				start = x.Doc.Pos()
			}
		}
		names = append(names, name)
		for i := fs.Position(start).Offset; i < fs.Position(d.End()).Offset; i++ {
			if out[i] != '\n' {
				out[i] = ' '
			}
		}
	}
	return out, names
}

// sharedGen adds the generators for the types of package consensus.
func (p *Prog) sharedGen(pk, scratch string) error {
	b, err := os.ReadFile(filepath.Join(verifDir(), "contracts", "wire_gen.go.txt"))
	if err != nil {
		return err
	}
	s := strings.Replace(string(b), "package PKG", "package "+pk, 1)
	if pk == "consensus" {
		s = strings.Replace(s, "\tvconsensus \"github.com/dblokhin/gringo/consensus\"\n", "", 1)
		s = strings.ReplaceAll(s, "vconsensus.", "")
	}
	f := filepath.Join(scratch, pk+"_wire_gen.go")
	if err := os.WriteFile(f, []byte(s), 0o644); err != nil {
		return err
	}
	p.overlay[filepath.Join(p.dir, pk, "zz_verif_wire_gen_test.go")] = f
	p.gens = append(p.gens, [2]string{pk, f})
	return nil
}
