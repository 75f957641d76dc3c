package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Loop struct {
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
	pos    token.Pos
}

type Prog struct {
	fset   *token.FileSet
	sizes  types.Sizes
	ssa    *ssa.Program
	pkgs   []*packages.Package
	loops  map[*ssa.Function][]*Loop
	byPath map[string]*ssa.Package
	fns    map[string]*ssa.Function
	tcache map[string]types.Type
	mutGlb map[string]bool // globals assigned outside their package's init
}

func loadProg(dir string) (*Prog, error) {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: dir, Env: append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local")}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	for _, p := range pkgs {
		if len(p.Errors) > 0 {
			return nil, fmt.Errorf("package %s: %v", p.PkgPath, p.Errors[0])
		}
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.NaiveForm|ssa.InstantiateGenerics)
	prog.Build()
	P := &Prog{fset: prog.Fset, sizes: types.SizesFor("gc", "amd64"), ssa: prog, pkgs: pkgs, loops: map[*ssa.Function][]*Loop{},
		byPath: map[string]*ssa.Package{}, fns: map[string]*ssa.Function{}, tcache: map[string]types.Type{}, mutGlb: map[string]bool{}}
	for _, p := range prog.AllPackages() {
		P.byPath[p.Pkg.Path()] = p
	}
	all := ssautil.AllFunctions(prog)
	for f := range all {
		if f.Blocks == nil {
			continue
		}
		k := fnKey(f)
		if g, ok := P.fns[k]; ok && (g.Synthetic == "" || f.Synthetic != "" && !ptrRecv(f)) {
			continue
		}
		P.fns[k] = f
	}
	for f := range all {
		if f.Pkg == nil || !strings.HasPrefix(f.Pkg.Pkg.Path(), modPrefix) {
			if f.Parent() == nil {
				continue
			}
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					a := s.Addr
					for {
						if fa, ok := a.(*ssa.FieldAddr); ok {
							a = fa.X
							continue
						}
						break
					}
					if g, ok := a.(*ssa.Global); ok && !(f.Name() == "init" && f.Synthetic != "") {
						P.mutGlb["V:"+shortPkg(g.Pkg.Pkg.Path())+"."+g.Name()] = true
					}
				}
			}
		}
	}
	return P, nil
}

// natural loops ------------------------------------------------------------

func (p *Prog) loopsOf(fn *ssa.Function) []*Loop {
	if l, ok := p.loops[fn]; ok {
		return l
	}
	byH := map[*ssa.BasicBlock]*Loop{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				L := byH[s]
				if L == nil {
					L = &Loop{header: s, body: map[*ssa.BasicBlock]bool{s: true}}
					byH[s] = L
				}
				stack := []*ssa.BasicBlock{b}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					if L.body[x] {
						continue
					}
					L.body[x] = true
					stack = append(stack, x.Preds...)
				}
			}
		}
	}
	var out []*Loop
	for _, L := range byH {
		for b := range L.body {
			for _, in := range b.Instrs {
				if q := in.Pos(); q.IsValid() && (L.pos == 0 || q < L.pos) {
					if _, ok := in.(*ssa.Alloc); ok {
						continue
					}
					L.pos = q
				}
			}
		}
		out = append(out, L)
	}
	sort.Slice(out, func(i, j int) bool {
		if out[i].pos != out[j].pos {
			return out[i].pos < out[j].pos
		}
		if len(out[i].body) != len(out[j].body) {
			return len(out[i].body) > len(out[j].body)
		}
		return out[i].header.Index < out[j].header.Index
	})
	p.loops[fn] = out
	return out
}

func (p *Prog) loopOf(fn *ssa.Function, b *ssa.BasicBlock) *Loop {
	for _, L := range p.loopsOf(fn) {
		if L.header == b {
			return L
		}
	}
	return nil
}

// numberLoops assigns numbers to the loops of the function and of everything it
// inlines, in source order of the expanded text.
func (ex *Exec) numberLoops(fn *ssa.Function) {
	ex.loopNums = map[string]int{}
	n := 0
	var rec func(f *ssa.Function, chain string, stack []*ssa.Function)
	rec = func(f *ssa.Function, chain string, stack []*ssa.Function) {
		if len(stack) > 12 {
			return
		}
		for _, g := range stack {
			if g == f {
				return
			}
		}
		type item struct {
			pos  token.Pos
			ord  int
			loop *Loop
			call ssa.CallInstruction
			fn   *ssa.Function
		}
		var items []item
		for i, L := range ex.prog.loopsOf(f) {
			items = append(items, item{pos: L.pos, ord: -1000 + i, loop: L})
		}
		for bi, b := range f.Blocks {
			for ii, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				g := c.Common().StaticCallee()
				if g == nil {
					continue
				}
				k := fnKey(g)
				if models[k] != nil {
					// function values a model calls
					for _, a := range c.Common().Args {
						switch x := a.(type) {
						case *ssa.MakeClosure:
							items = append(items, item{pos: in.Pos(), ord: bi*1000 + ii, call: c, fn: x.Fn.(*ssa.Function)})
						case *ssa.Function:
							items = append(items, item{pos: in.Pos(), ord: bi*1000 + ii, call: c, fn: x})
						}
					}
				}
				if fs := ex.spec.Funcs[k]; fs != nil && !ex.fs.Inline[k] && !ex.fs.Inline[k[strings.LastIndex(k, ".")+1:]] {
					continue
				}
				if models[k] != nil || !ex.inlinable(g) {
					continue
				}
				items = append(items, item{pos: in.Pos(), ord: bi*1000 + ii, call: c, fn: g})
			}
		}
		sort.SliceStable(items, func(i, j int) bool {
			if items[i].pos != items[j].pos {
				return items[i].pos < items[j].pos
			}
			return items[i].ord < items[j].ord
		})
		for _, it := range items {
			if it.loop != nil {
				n++
				ex.loopNums[fmt.Sprintf("%s#%d", chain, it.loop.header.Index)] = n
				continue
			}
			in := it.call.(ssa.Instruction)
			rec(it.fn, chain+"/"+fmt.Sprintf("%s@%d.%d", f.Name(), blockIdx(in), instrIdx(in)), append(stack, f))
		}
	}
	rec(fn, "", nil)
}

// lookups --------------------------------------------------------------------

func (p *Prog) lookupMethod(t types.Type, m *types.Func) *ssa.Function {
	ms := p.ssa.MethodSets.MethodSet(t)
	sel := ms.Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	return p.ssa.MethodValue(sel)
}

// specFor finds a contract for an interface method, also through embedding.
func (p *Prog) specFor(sp *Spec, key string) *FuncSpec { return sp.Funcs[key] }

func (p *Prog) pkgByName(name string, from *types.Package) *types.Package {
	if from != nil {
		for _, im := range from.Imports() {
			if im.Name() == name {
				return im
			}
		}
	}
	var best *types.Package
	for _, q := range p.byPath {
		if q.Pkg.Name() == name {
			if strings.HasPrefix(q.Pkg.Path(), modPrefix) || q.Pkg.Path() == name {
				return q.Pkg
			}
			if best == nil || q.Pkg.Path() < best.Path() {
				best = q.Pkg
			}
		}
	}
	return best
}

func (p *Prog) typeByKey(k string) types.Type {
	if t, ok := p.tcache[k]; ok {
		return t
	}
	ptr := 0
	s := k
	for strings.HasPrefix(s, "*") {
		s = s[1:]
		ptr++
	}
	var t types.Type
	if i := strings.LastIndex(s, "."); i >= 0 {
		pk, n := s[:i], s[i+1:]
		for path, q := range p.byPath {
			if shortPkg(path) == pk {
				if o, ok := q.Pkg.Scope().Lookup(n).(*types.TypeName); ok {
					t = o.Type()
				}
			}
		}
	} else if o, ok := types.Universe.Lookup(s).(*types.TypeName); ok {
		t = o.Type()
	}
	if t == nil {
		return nil
	}
	for ; ptr > 0; ptr-- {
		t = types.NewPointer(t)
	}
	p.tcache[k] = t
	return t
}

func (p *Prog) pkgOfKey(key string) *types.Package {
	k := strings.TrimPrefix(key, "type ")
	for {
		i := strings.LastIndex(k, ".")
		if i < 0 {
			return nil
		}
		k = k[:i]
		for path, q := range p.byPath {
			if shortPkg(path) == k {
				return q.Pkg
			}
		}
	}
}

func ptrRecv(f *ssa.Function) bool {
	if f.Signature.Recv() == nil {
		return false
	}
	_, ok := f.Signature.Recv().Type().(*types.Pointer)
	return ok
}
