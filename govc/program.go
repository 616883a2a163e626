package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Program is the repository in SSA form, built from the working tree.
type Program struct {
	prog  *ssa.Program
	pkgs  map[string]*ssa.Package // by package name
	funcs map[string]*ssa.Function
	types map[string]types.Type
	tags  map[string]int
	conc  []types.Type
	loops map[*ssa.Function]*loopInfo
	mu    sync.Mutex
	made  map[*ssa.Function]map[string]bool
}

func load(dir string) (*Program, error) {
	cfg := &packages.Config{Mode: packages.LoadSyntax | packages.NeedModule, Dir: dir, Env: append(os.Environ(), "GO111MODULE=on", "GOWORK=off", "GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-overlay=/opt/vp/mod/overlay.json -modfile=/opt/vp/mod/go.mod -mod=readonly")}
	initial, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	for _, p := range initial {
		for _, e := range p.Errors {
			return nil, fmt.Errorf("%s", e)
		}
	}
	prog, pkgs := ssautil.Packages(initial, 0)
	prog.Build()
	P := &Program{prog: prog, pkgs: map[string]*ssa.Package{}, funcs: map[string]*ssa.Function{}, types: map[string]types.Type{}, tags: map[string]int{}, loops: map[*ssa.Function]*loopInfo{}, made: map[*ssa.Function]map[string]bool{}}
	for _, p := range pkgs {
		if p == nil || p.Pkg.Name() == "main" {
			continue
		}
		P.pkgs[p.Pkg.Name()] = p
	}
	for fn := range ssautil.AllFunctions(prog) {
		if fn.Blocks == nil {
			continue
		}
		n := funcName(fn)
		if fn.Synthetic != "" && P.funcs[n] != nil {
			continue
		}
		if fn.Synthetic == "" || P.funcs[n] == nil {
			P.funcs[n] = fn
		}
	}
	// every function with a body gets its loop info up front
	for _, fn := range P.funcs {
		P.loops[fn] = findLoops(fn)
	}
	var names []string
	for _, p := range P.pkgs {
		for n, m := range p.Members {
			if t, ok := m.(*ssa.Type); ok {
				k := p.Pkg.Name() + "." + n
				P.types[k] = t.Type()
				names = append(names, k)
			}
		}
	}
	sort.Strings(names)
	for _, k := range names {
		t := P.types[k]
		if _, ok := t.Underlying().(*types.Interface); ok {
			continue
		}
		P.conc = append(P.conc, t, types.NewPointer(t))
	}
	for i, t := range P.conc {
		P.tags[typeKey(t)] = i + 1
	}
	return P, nil
}

func (p *Program) tagOf(t types.Type) int {
	if n, ok := p.tags[typeKey(t)]; ok {
		return n
	}
	// types of other packages: stable hash, far above the repo's own
	h := 0
	for _, c := range typeKey(t) {
		h = (h*131 + int(c)) % 1000003
	}
	return 10000 + h
}

func funcName(fn *ssa.Function) string {
	if fn.Parent() != nil {
		return funcName(fn.Parent()) + strings.TrimPrefix(fn.Name(), fn.Parent().Name())
	}
	pkg := ""
	if fn.Pkg != nil {
		pkg = fn.Pkg.Pkg.Name()
	} else if o := fn.Object(); o != nil && o.Pkg() != nil {
		pkg = o.Pkg().Name()
	}
	if r := fn.Signature.Recv(); r != nil {
		rt := r.Type()
		ptr := ""
		if pt, ok := rt.(*types.Pointer); ok {
			ptr = "*"
			rt = pt.Elem()
		}
		nm := types.TypeString(rt, func(*types.Package) string { return "" })
		if n, ok := rt.(*types.Named); ok && n.Obj().Pkg() != nil {
			pkg = n.Obj().Pkg().Name()
		}
		if ptr != "" {
			return fmt.Sprintf("%s.(*%s).%s", pkg, nm, fn.Name())
		}
		return fmt.Sprintf("%s.%s.%s", pkg, nm, fn.Name())
	}
	return pkg + "." + fn.Name()
}

// resolveType parses a type name used in specifications.
func (p *Program) resolveType(s string) types.Type {
	s = strings.TrimSpace(s)
	switch {
	case s == "int":
		return types.Typ[types.Int]
	case s == "bool":
		return types.Typ[types.Bool]
	case s == "string":
		return types.Typ[types.String]
	case s == "byte":
		return types.Typ[types.Byte]
	case s == "error":
		return types.Universe.Lookup("error").Type()
	case strings.HasPrefix(s, "*"):
		return types.NewPointer(p.resolveType(s[1:]))
	case strings.HasPrefix(s, "[]"):
		return types.NewSlice(p.resolveType(s[2:]))
	case strings.HasPrefix(s, "map["):
		d, i := 0, 3
		for ; i < len(s); i++ {
			if s[i] == '[' {
				d++
			} else if s[i] == ']' {
				d--
				if d == 0 {
					break
				}
			}
		}
		return types.NewMap(p.resolveType(s[4:i]), p.resolveType(s[i+1:]))
	}
	if t, ok := p.types[s]; ok {
		return t
	}
	if s == "regexp.Regexp" {
		for _, ip := range p.prog.AllPackages() {
			if ip.Pkg.Path() == "regexp" {
				return ip.Pkg.Scope().Lookup("Regexp").Type()
			}
		}
		for _, sp := range p.pkgs {
			for _, im := range sp.Pkg.Imports() {
				if im.Path() == "regexp" {
					return im.Scope().Lookup("Regexp").Type()
				}
			}
		}
	}
	panic(limit{"unknown type in specification: " + s})
}

// loops

type loop struct {
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
}

type loopInfo struct {
	byHeader map[*ssa.BasicBlock]*loop
}

func findLoops(fn *ssa.Function) *loopInfo {
	li := &loopInfo{map[*ssa.BasicBlock]*loop{}}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if !s.Dominates(b) {
				continue
			}
			l := li.byHeader[s]
			if l == nil {
				l = &loop{s, map[*ssa.BasicBlock]bool{s: true}}
				li.byHeader[s] = l
			}
			work := []*ssa.BasicBlock{b}
			for len(work) > 0 {
				x := work[len(work)-1]
				work = work[:len(work)-1]
				if l.body[x] {
					continue
				}
				l.body[x] = true
				work = append(work, x.Preds...)
			}
		}
	}
	return li
}

func (l *loopInfo) loop(b *ssa.BasicBlock) *loop { return l.byHeader[b] }
