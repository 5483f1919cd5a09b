package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Program is the loaded, type-checked repository in SSA form.
type Program struct {
	fset  *token.FileSet
	prog  *ssa.Program
	pkgs  map[string]*ssa.Package // import path -> package (repository packages only)
	tpkgs map[string]*packages.Package
	infos map[*ssa.Function]*fnInfo
	dir   string
	mod   string
}

func LoadProgram(dir string) (*Program, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedSyntax | packages.NeedTypes | packages.NeedTypesInfo |
			packages.NeedDeps | packages.NeedImports | packages.NeedModule | packages.NeedCompiledGoFiles | packages.NeedTypesSizes,
		Dir: dir,
		Env: append(os.Environ(), "GOPROXY=off", "GOSUMDB=off", "GOTOOLCHAIN=local"),
	}
	if os.Getenv("POLCHECK_GOFLAGS") != "" {
		cfg.Env = append(cfg.Env, "GOFLAGS="+os.Getenv("POLCHECK_GOFLAGS"))
	} else {
		cfg.Env = append(cfg.Env, "GOFLAGS=-mod=readonly")
	}
	ps, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	for _, p := range ps {
		for _, e := range p.Errors {
			return nil, fmt.Errorf("%s: %v", p.PkgPath, e)
		}
	}
	sp, spkgs := ssautil.Packages(ps, ssa.InstantiateGenerics)
	p := &Program{prog: sp, pkgs: map[string]*ssa.Package{}, tpkgs: map[string]*packages.Package{}, infos: map[*ssa.Function]*fnInfo{}, dir: dir}
	for i, x := range spkgs {
		if x == nil {
			return nil, fmt.Errorf("no SSA for %s", ps[i].PkgPath)
		}
		x.Build()
		p.pkgs[ps[i].PkgPath] = x
		p.tpkgs[ps[i].PkgPath] = ps[i]
		p.fset = ps[i].Fset
		if ps[i].Module != nil {
			p.mod = ps[i].Module.Path
		}
	}
	if len(p.pkgs) == 0 {
		return nil, fmt.Errorf("no packages in %s", dir)
	}
	p.loadConstants()
	return p, nil
}

func (p *Program) pos(q token.Pos) string {
	if !q.IsValid() {
		return "?"
	}
	x := p.fset.Position(q)
	f := strings.TrimPrefix(x.Filename, p.dir+"/")
	return fmt.Sprintf("%s:%d", f, x.Line)
}

// own reports whether fn is code of the repository (with a body).
func (p *Program) own(fn *ssa.Function) bool {
	if fn == nil || len(fn.Blocks) == 0 {
		return false
	}
	return p.ownPkg(fn)
}

func (p *Program) ownPkg(fn *ssa.Function) bool {
	for g := fn; g != nil; g = g.Parent() {
		if g.Pkg != nil {
			return p.pkgs[g.Pkg.Pkg.Path()] != nil
		}
		if o := g.Object(); o != nil && o.Pkg() != nil {
			return p.pkgs[o.Pkg().Path()] != nil
		}
		if g.Origin() != nil && g.Origin() != g && g.Origin().Pkg != nil {
			return p.pkgs[g.Origin().Pkg.Pkg.Path()] != nil
		}
	}
	return false
}

// Fn finds a package-level function; Method a method of a named type.
func (p *Program) Fn(pkg, name string) *ssa.Function {
	if x := p.pkgs[p.mod+"/"+pkg]; x != nil {
		return x.Func(name)
	}
	return nil
}

func (p *Program) Named(pkg, name string) *types.Named {
	if x := p.pkgs[p.mod+"/"+pkg]; x != nil {
		if t := x.Type(name); t != nil {
			n, _ := t.Type().(*types.Named)
			return n
		}
	}
	return nil
}

func (p *Program) Method(pkg, typ, name string) *ssa.Function {
	n := p.Named(pkg, typ)
	if n == nil {
		return nil
	}
	for _, t := range []types.Type{n, types.NewPointer(n)} {
		ms := p.prog.MethodSets.MethodSet(t)
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Name() == name {
				f := p.prog.MethodValue(ms.At(i))
				if f != nil && f.Synthetic != "" && !types.Identical(t, types.NewPointer(n)) {
					continue
				}
				// prefer the declared method over a wrapper
				if fo, ok := ms.At(i).Obj().(*types.Func); ok {
					if d := p.prog.FuncValue(fo); d != nil {
						return d
					}
				}
				return f
			}
		}
	}
	return nil
}

// Functions returns all functions with bodies of the repository (excluding package bench if asked).
func (p *Program) Functions(skip ...string) []*ssa.Function {
	var r []*ssa.Function
	seen := map[*ssa.Function]bool{}
	var addFn func(f *ssa.Function)
	addFn = func(f *ssa.Function) {
		if f == nil || seen[f] || len(f.Blocks) == 0 {
			return
		}
		seen[f] = true
		r = append(r, f)
		for _, a := range f.AnonFuncs {
			addFn(a)
		}
	}
	for path, pkg := range p.pkgs {
		sk := false
		for _, s := range skip {
			if path == p.mod+"/"+s {
				sk = true
			}
		}
		if sk {
			continue
		}
		for _, m := range pkg.Members {
			switch x := m.(type) {
			case *ssa.Function:
				addFn(x)
			case *ssa.Type:
				for _, t := range []types.Type{x.Type(), types.NewPointer(x.Type())} {
					ms := p.prog.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						if fo, ok := ms.At(i).Obj().(*types.Func); ok {
							if d := p.prog.FuncValue(fo); d != nil && p.ownPkg(d) {
								addFn(d)
							}
						}
					}
				}
			}
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].String() < r[j].String() })
	return r
}

// ---- per-function control-flow information ----

type loop struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	rpo    []*ssa.BasicBlock
}

type fnInfo struct {
	rpo     []*ssa.BasicBlock
	loops   map[*ssa.BasicBlock]*loop
	tailRec bool
	selfRec bool
}

func (p *Program) info(fn *ssa.Function) *fnInfo {
	if i := p.infos[fn]; i != nil {
		return i
	}
	inf := &fnInfo{loops: map[*ssa.BasicBlock]*loop{}}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		if seen[b] {
			return
		}
		seen[b] = true
		for _, s := range b.Succs {
			dfs(s)
		}
		post = append(post, b)
	}
	if len(fn.Blocks) > 0 {
		dfs(fn.Blocks[0])
	}
	for i := len(post) - 1; i >= 0; i-- {
		inf.rpo = append(inf.rpo, post[i])
	}
	for _, b := range inf.rpo {
		for _, s := range b.Succs {
			if s.Dominates(b) { // back edge
				l := inf.loops[s]
				if l == nil {
					l = &loop{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					inf.loops[s] = l
				}
				stack := []*ssa.BasicBlock{b}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					if l.blocks[x] || !seen[x] {
						continue
					}
					l.blocks[x] = true
					stack = append(stack, x.Preds...)
				}
			}
		}
	}
	for _, l := range inf.loops {
		for _, b := range inf.rpo {
			if l.blocks[b] {
				l.rpo = append(l.rpo, b)
			}
		}
	}
	self, tail := 0, 0
	for _, b := range fn.Blocks {
		for i, ins := range b.Instrs {
			c, ok := ins.(*ssa.Call)
			if !ok || c.Call.StaticCallee() != fn {
				continue
			}
			self++
			if isTailCall(b, i, c) {
				tail++
			}
		}
	}
	inf.selfRec = self > 0
	inf.tailRec = self > 0 && self == tail && fn.Recover == nil
	p.infos[fn] = inf
	return inf
}

// isTailCall: the results of the call are returned unchanged and nothing happens in between.
func isTailCall(b *ssa.BasicBlock, i int, c *ssa.Call) bool {
	rest := b.Instrs[i+1:]
	ex := map[ssa.Value]int{}
	for _, r := range rest {
		switch x := r.(type) {
		case *ssa.DebugRef:
		case *ssa.Extract:
			if x.Tuple != c {
				return false
			}
			ex[x] = x.Index
		case *ssa.Return:
			if len(x.Results) == 1 {
				return x.Results[0] == c
			}
			for k, v := range x.Results {
				if n, ok := ex[v]; !ok || n != k {
					return false
				}
			}
			return len(x.Results) > 0
		default:
			return false
		}
	}
	return false
}
