package main

// Loading the harness and the code under test from source, building SSA.

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"os"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const tokADD = token.ADD

func f64of(v Value) float64 { return math.Float64frombits(v.N) }

var initAllow = []string{"unicode", "unicode/utf8", "unicode/utf16", "strings", "strconv", "bytes", "math",
	"math/bits", "sort", "fmt", "internal/fmtsort", "bufio", "encoding/csv", "container/list", "container/heap", "regexp", "regexp/syntax", "text/scanner", "slices", "maps", "cmp", "iter", "time", "io",
	"internal/strconv", "internal/stringslite", "internal/itoa", "internal/byteorder", "internal/bytealg_no"}

func initAllowed(path string) bool {
	if strings.HasPrefix(path, "github.com/shellyln/takenoco") || strings.HasPrefix(path, "verif/") || strings.HasPrefix(path, "selftest") {
		return true
	}
	for _, p := range initAllow {
		if p == path {
			return true
		}
	}
	return false
}

type Loaded struct {
	p    *Program
	main *ssa.Package
}

func load(dir, pattern string, overlayMod string) (*Loaded, error) {
	env := append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOSUMDB=off", "GOTOOLCHAIN=local", "CGO_ENABLED=0", "GOENV=off")
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir: dir,
		Env: env,
	}
	pkgs, err := packages.Load(cfg, pattern)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("%s", strings.Join(errs, "\n"))
	}
	prog, spkgs := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	p := &Program{prog: prog, funcs: map[*ssa.Function]*Func{}, globals: map[*ssa.Global]int{}, initOK: initAllowed}
	p.u32TI = typeTab.get(types.Typ[types.Uint32])
	p.u64TI = typeTab.get(types.Typ[types.Uint64])
	p.i64TI = typeTab.get(types.Typ[types.Int64])
	p.f64TI = typeTab.get(types.Typ[types.Float64])
	p.byteTI = typeTab.get(types.Typ[types.Uint8])
	p.ptrTI = typeTab.get(types.Typ[types.UnsafePointer])
	p.anyTI = typeTab.get(types.NewInterfaceType(nil, nil))
	named := func(pkg, name string) types.Type {
		sp := prog.ImportedPackage(pkg)
		if sp == nil {
			return nil
		}
		t := sp.Type(name)
		if t == nil {
			return nil
		}
		return t.Type()
	}
	if t := named("runtime", "errorString"); t != nil {
		p.rtErrTI = typeTab.get(t)
	} else {
		return nil, fmt.Errorf("runtime.errorString not found")
	}
	if t := named("unicode", "RangeTable"); t != nil {
		p.rangeTabTI = typeTab.get(t)
	}
	if t := named("reflect", "rtype"); t != nil {
		p.rtypeTI = typeTab.get(types.NewPointer(t))
		p.rvalueTI = typeTab.get(named("reflect", "Value"))
		p.structFieldTI = typeTab.get(named("reflect", "StructField"))
	}
	return &Loaded{p, spkgs[0]}, nil
}
