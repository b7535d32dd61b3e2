package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/takenet/deckard"

type Program struct {
	prog    *ssa.Program
	fset    *token.FileSet
	pkgs    map[string]*packages.Package // by path
	ssaPkgs map[string]*ssa.Package
	byName  map[string][]*types.Package // package name -> packages
	funcs   map[string]*ssa.Function    // short name -> function
	errs    []string
	repo    string
	allFns  []*ssa.Function
}

// Load type-checks the module packages from /repo's working tree (bodies of
// dependencies are dropped while parsing) and builds SSA for the module.
func Load(repo, modfile string, patterns []string) (*Program, error) {
	fset := token.NewFileSet()
	absRepo, _ := filepath.Abs(repo)
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir:        repo,
		Fset:       fset,
		BuildFlags: []string{"-modfile=" + modfile},
		Env:        append(os.Environ(), "CGO_ENABLED=0"),
		ParseFile: func(fset *token.FileSet, filename string, src []byte) (*ast.File, error) {
			f, err := parser.ParseFile(fset, filename, src, parser.SkipObjectResolution)
			if f != nil && !strings.HasPrefix(filename, absRepo+"/") {
				for _, d := range f.Decls {
					if fd, ok := d.(*ast.FuncDecl); ok {
						fd.Body = nil
					}
				}
			}
			return f, err
		},
	}
	roots, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	p := &Program{fset: fset, pkgs: map[string]*packages.Package{}, ssaPkgs: map[string]*ssa.Package{}, byName: map[string][]*types.Package{}, funcs: map[string]*ssa.Function{}, repo: absRepo}
	prog := ssa.NewProgram(fset, ssa.GlobalDebug|ssa.InstantiateGenerics)
	p.prog = prog
	var order []*packages.Package
	packages.Visit(roots, nil, func(pk *packages.Package) {
		p.pkgs[pk.PkgPath] = pk
		order = append(order, pk)
	})
	for _, pk := range order {
		if pk.Types == nil {
			continue
		}
		inMod := pk.PkgPath == modPath || strings.HasPrefix(pk.PkgPath, modPath+"/")
		if inMod {
			for _, e := range pk.Errors {
				p.errs = append(p.errs, e.Error())
			}
		}
		p.byName[pk.Types.Name()] = append(p.byName[pk.Types.Name()], pk.Types)
		if inMod && !strings.HasSuffix(pk.PkgPath, "deckard") || pk.PkgPath == modPath+"/internal/cmd/deckard" {
			if len(pk.Errors) > 0 {
				return nil, fmt.Errorf("package %s does not type-check: %v", pk.PkgPath, pk.Errors[0])
			}
			p.ssaPkgs[pk.PkgPath] = prog.CreatePackage(pk.Types, pk.Syntax, pk.TypesInfo, true)
		} else {
			p.ssaPkgs[pk.PkgPath] = prog.CreatePackage(pk.Types, nil, nil, true)
		}
	}
	for path, sp := range p.ssaPkgs {
		if strings.HasPrefix(path, modPath) {
			sp.Build()
		}
	}
	for fn := range ssautil.AllFunctions(prog) {
		if fn.Blocks != nil {
			p.allFns = append(p.allFns, fn)
		}
		if fn.Synthetic != "" && !strings.HasPrefix(fn.Synthetic, "package init") && fn.Origin() == nil {
			continue // wrappers and thunks
		}
		if fn.Pkg == nil && fn.Object() == nil {
			continue
		}
		p.funcs[ShortName(fn)] = fn
	}
	return p, nil
}

// ShortName: pkgname.Func or pkgname.Type.Method (closures: parent$N).
func ShortName(fn *ssa.Function) string {
	if fn.Parent() != nil {
		return ShortName(fn.Parent()) + strings.TrimPrefix(fn.Name(), fn.Parent().Name())
	}
	if o := fn.Origin(); o != nil && o != fn {
		return ShortName(o)
	}
	if recv := fn.Signature.Recv(); recv != nil {
		return typeShort(recv.Type()) + "." + fn.Name()
	}
	if fn.Pkg != nil {
		return pkgShort(fn.Pkg.Pkg) + "." + fn.Name()
	}
	return fn.String()
}

// packages whose name is ambiguous get a distinguishing alias.
var pkgAlias = map[string]string{
	"github.com/takenet/deckard":                "deckard",
	"github.com/patrickmn/go-cache":             "gocache",
	"github.com/takenet/deckard/internal/trace": "dtrace",
	"go.opentelemetry.io/otel/trace":            "oteltrace",
	"go.opentelemetry.io/otel/sdk/trace":        "sdktrace",
	"google.golang.org/grpc/credentials":        "credentials",
	"google.golang.org/grpc/metadata":           "metadata",
	"crypto/tls":                                "tls",
}

func pkgShort(p *types.Package) string {
	if a, ok := pkgAlias[p.Path()]; ok {
		return a
	}
	return p.Name()
}

func typeShort(t types.Type) string {
	switch t := t.(type) {
	case *types.Pointer:
		return typeShort(t.Elem())
	case *types.Named:
		if t.Obj().Pkg() == nil {
			return t.Obj().Name()
		}
		return pkgShort(t.Obj().Pkg()) + "." + t.Obj().Name()
	case *types.Alias:
		return typeShort(types.Unalias(t))
	case *types.Basic:
		return t.Name()
	}
	return types.TypeString(t, func(p *types.Package) string { return pkgShort(p) })
}

func (p *Program) sortedFuncs(prefix string) []string {
	var l []string
	for n := range p.funcs {
		if strings.HasPrefix(n, prefix) {
			l = append(l, n)
		}
	}
	sort.Strings(l)
	return l
}

// implementers lists the module's named types (or pointers to them) that
// implement an interface declared in the module with at least one method.
func (p *Program) implementers(t types.Type) (out []types.Type) {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return nil
	}
	it, ok := n.Underlying().(*types.Interface)
	if !ok || it.NumMethods() == 0 || n.Obj().Pkg() == nil || p.ssaPkgs[n.Obj().Pkg().Path()] == nil {
		return nil
	}
	var paths []string
	for k := range p.ssaPkgs {
		paths = append(paths, k)
	}
	sort.Strings(paths)
	for _, k := range paths {
		sc := p.ssaPkgs[k].Pkg.Scope()
		for _, name := range sc.Names() {
			tn, ok := sc.Lookup(name).(*types.TypeName)
			if !ok || tn.IsAlias() || types.IsInterface(tn.Type()) {
				continue
			}
			if nt, ok := tn.Type().(*types.Named); ok && nt.TypeParams().Len() > 0 {
				continue
			}
			if types.Implements(tn.Type(), it) {
				out = append(out, tn.Type())
			}
			if pt := types.NewPointer(tn.Type()); types.Implements(pt, it) {
				out = append(out, pt)
			}
		}
	}
	return out
}
