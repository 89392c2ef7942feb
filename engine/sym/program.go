package sym

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Program is the loaded code: the target, the harnesses and the models.
type Program struct {
	SSA        *ssa.Program
	Pkgs       []*ssa.Package
	Models     map[string]*ssa.Function
	runtimeErr types.Type
	TargetMod  string
	TargetDir  string
	HarnessMod string
	MaxDepth   int
	MaxSteps   int
	MaxFan     int
	MapOrder   int
	Debug      bool
	Thorough   bool // deep bounds
	Harnesses  []*Harness
	// LocalModels replace functions only for the harnesses of one package: keyed by package and function.
	LocalModels map[string]*ssa.Function
	noInit      map[string]bool
	tcache      map[string]types.Type
}

// Harness is an annotated entry point.
type Harness struct {
	Fn     *ssa.Function
	Pkg    string
	Name   string
	Props  []string
	Doc    string
	Bound  string
	Covers []string
	Opts   map[string]string
}

// Load type-checks and builds the packages matching patterns in dir.
func Load(dir string, env []string, targetMod, targetDir, harnessMod string, patterns ...string) (*Program, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir: dir,
		Env: append(os.Environ(), env...),
	}
	pkgs, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("loading: %s", strings.Join(errs, "; "))
	}
	prog, spkgs := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	p := &Program{SSA: prog, TargetMod: targetMod, TargetDir: targetDir, HarnessMod: harnessMod, Models: map[string]*ssa.Function{}, LocalModels: map[string]*ssa.Function{},
		MaxDepth: 300, MaxSteps: 3_000_000, MaxFan: 5000, MapOrder: 3,
		noInit: map[string]bool{}, tcache: map[string]types.Type{}}
	for _, sp := range spkgs {
		if sp != nil {
			p.Pkgs = append(p.Pkgs, sp)
		}
	}
	// build target and harness packages now; others on demand
	for _, sp := range prog.AllPackages() {
		if strings.HasPrefix(sp.Pkg.Path(), targetMod) || strings.HasPrefix(sp.Pkg.Path(), harnessMod) {
			sp.Build()
		}
	}
	packages.Visit(pkgs, nil, func(pk *packages.Package) {
		if !strings.HasPrefix(pk.PkgPath, harnessMod) {
			return
		}
		sp := prog.Package(pk.Types)
		for _, f := range pk.Syntax {
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Doc == nil {
					continue
				}
				h := &Harness{Fn: sp.Func(fd.Name.Name), Pkg: pk.PkgPath, Name: fd.Name.Name, Doc: strings.TrimSpace(fd.Doc.Text()), Opts: map[string]string{}}
				for _, c := range fd.Doc.List {
					if rest, ok := strings.CutPrefix(c.Text, "//verif:props "); ok {
						h.Props = strings.Fields(rest)
					}
					if rest, ok := strings.CutPrefix(c.Text, "//verif:bound "); ok {
						h.Bound = strings.TrimSpace(h.Bound + " " + rest)
					}
					if rest, ok := strings.CutPrefix(c.Text, "//verif:cover "); ok {
						h.Covers = append(h.Covers, strings.Fields(rest)...)
					}
					if rest, ok := strings.CutPrefix(c.Text, "//verif:opt "); ok {
						for _, kv := range strings.Fields(rest) {
							k, v, _ := strings.Cut(kv, "=")
							h.Opts[k] = v
						}
					}
				}
				if h.Props != nil && h.Fn != nil {
					p.Harnesses = append(p.Harnesses, h)
				}
				for _, c := range fd.Doc.List {
					if rest, ok := strings.CutPrefix(c.Text, "//verif:replace "); ok {
						fn := sp.Func(fd.Name.Name)
						if fn == nil {
							continue
						}
						for _, n := range strings.Split(rest, " ") {
							if n != "" {
								if strings.HasSuffix(pk.PkgPath, "/models") {
									p.Models[n] = fn
								} else {
									p.LocalModels[pk.PkgPath+" "+n] = fn
								}
							}
						}
					}
				}
			}
		}
	})
	if rt := prog.ImportedPackage("runtime"); rt != nil {
		if t, ok := rt.Members["errorString"].(*ssa.Type); ok {
			p.runtimeErr = t.Type()
		}
	}
	return p, nil
}

func (p *Program) shortFile(f string) string {
	if r, err := filepath.Rel(p.TargetDir, f); err == nil && !strings.HasPrefix(r, "..") {
		return r
	}
	return filepath.Base(filepath.Dir(f)) + "/" + filepath.Base(f)
}

func (p *Program) shortPos(pos token.Pos) string {
	ps := p.SSA.Fset.Position(pos)
	return fmt.Sprintf("%s:%d:%d", p.shortFile(ps.Filename), ps.Line, ps.Column)
}

// isTarget reports whether fn belongs to the code under test.
func (p *Program) isTarget(fn *ssa.Function) bool {
	path := homeOf(fn)
	return path != "" && (path == p.TargetMod || strings.HasPrefix(path, p.TargetMod+"/"))
}

// isHarness reports whether fn is part of the harnesses or models.
func (p *Program) isHarness(fn *ssa.Function) bool { return strings.HasPrefix(homeOf(fn), "vharness/") }

func homeOf(fn *ssa.Function) string {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if o := fn.Origin(); o != nil {
		fn = o
	}
	if fn.Pkg == nil {
		return ""
	}
	return fn.Pkg.Pkg.Path()
}

func (p *Program) skipInit(path string) bool {
	switch path {
	case "runtime", "os", "syscall", "reflect", "net", "internal/poll", "time", "unsafe", "internal/cpu", "crypto/tls",
		"github.com/sirupsen/logrus", "internal/godebug", "math/rand", "testing", "database/sql", "internal/runtime/maps":
		return path != "net" && path != "os" && path != "time" && path != "syscall" && path != "database/sql"
	}
	return false
}

// Func finds a package-level function by package path and name.
func (p *Program) Func(pkg, name string) *ssa.Function {
	sp := p.SSA.ImportedPackage(pkg)
	if sp == nil {
		return nil
	}
	return sp.Func(name)
}

func (p *Program) lookupMethod(t types.Type, pkg *types.Package, name string) *ssa.Function {
	ms := p.SSA.MethodSets.MethodSet(t)
	sel := ms.Lookup(pkg, name)
	if sel == nil {
		return nil
	}
	return p.SSA.MethodValue(sel)
}

// stubbed packages: every function does nothing and returns zero values.
func (p *Program) stubbed(fn *ssa.Function) bool {
	f := fn
	if o := f.Origin(); o != nil {
		f = o
	}
	if f.Pkg == nil {
		return false
	}
	switch f.Pkg.Pkg.Path() {
	case "github.com/sirupsen/logrus", "log":
		return true
	}
	return false
}

func (p *Program) overrideFor(local string, fn *ssa.Function) *override {
	name := fn.String()
	if o := fn.Origin(); o != nil {
		name = o.String()
	}
	if md, ok := p.LocalModels[local+" "+name]; ok {
		return &override{model: md}
	}
	if md, ok := p.Models[name]; ok {
		return &override{model: md}
	}
	if f, ok := intrinsics[name]; ok {
		return &override{fn: f}
	}
	if p.stubbed(fn) && !isInitFn(fn) {
		n := fn.Name()
		if strings.HasPrefix(n, "Fatal") || strings.HasPrefix(n, "Exit") {
			return &override{fn: func(m *Machine, c *Call) Value {
				panic(sigCrash{Iface{T: types.Typ[types.String], V: Str{S: "process exit by log." + n}}})
			}}
		}
		if strings.HasPrefix(n, "Panic") {
			return &override{fn: func(m *Machine, c *Call) Value {
				panic(sigGoPanic{Iface{T: types.Typ[types.String], V: Str{S: "log." + n}}})
			}}
		}
		return &override{fn: func(m *Machine, c *Call) Value { return m.zero(resultOf(c.Fn.Signature)) }}
	}
	return nil
}
