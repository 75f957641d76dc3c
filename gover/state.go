package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Frame struct {
	id     int
	fn     *ssa.Function
	env    map[ssa.Value]Val
	parent *Frame
	defers []*deferred
	chain  string // static call chain (for loop numbering)
	pred   *ssa.BasicBlock
	free   []Val
	depth  int
	allocs []*Cell // in order of allocation (for name lookup)
	heapv  []namedPtr
}

type namedPtr struct {
	name string
	v    PtrV
	al   *ssa.Alloc
}

type deferred struct {
	call *ssa.CallCommon
	args []Val
	fn   Val
	pos  ssa.Instruction
}

type State struct {
	heap  map[string]*Term
	cells map[*Cell]Val
	pc    []*Term
	pcset map[*Term]bool
	next  *Term
	fr    *Frame
	epoch string
	iters []*iterInfo // active loops (innermost last)
	ghost map[string]*Term
}

type iterInfo struct {
	key   string
	iter  *Term
	start *State
	num   int
	fr    int
}

func (st *State) clone() *State {
	n := *st
	n.heap = make(map[string]*Term, len(st.heap))
	for k, v := range st.heap {
		n.heap[k] = v
	}
	n.cells = make(map[*Cell]Val, len(st.cells))
	for k, v := range st.cells {
		n.cells[k] = v
	}
	n.pc = st.pc[:len(st.pc):len(st.pc)]
	n.pcset = make(map[*Term]bool, len(st.pcset))
	for k := range st.pcset {
		n.pcset[k] = true
	}
	n.fr = st.fr.clone()
	n.iters = st.iters[:len(st.iters):len(st.iters)]
	n.ghost = map[string]*Term{}
	for k, v := range st.ghost {
		n.ghost[k] = v
	}
	return &n
}

func (f *Frame) clone() *Frame {
	if f == nil {
		return nil
	}
	n := *f
	n.env = make(map[ssa.Value]Val, len(f.env))
	for k, v := range f.env {
		n.env[k] = v
	}
	n.defers = f.defers[:len(f.defers):len(f.defers)]
	n.allocs = f.allocs[:len(f.allocs):len(f.allocs)]
	n.heapv = f.heapv[:len(f.heapv):len(f.heapv)]
	n.parent = f.parent // callers' registers are not changed by callees; cloned when resumed
	return &n
}

func (st *State) assume(t *Term) {
	if t == nil || t.isTrue() {
		return
	}
	if t.Op == "band" {
		for _, a := range t.Args {
			st.assume(a)
		}
		return
	}
	if st.pcset[t] {
		return
	}
	st.pcset[t] = true
	st.pc = append(st.pc, t)
}

// known reports whether the path condition syntactically decides c.
func (st *State) known(c *Term) (bool, bool) {
	if c.isTrue() {
		return true, true
	}
	if c.isFalse() {
		return false, true
	}
	if st.pcset[c] {
		return true, true
	}
	if st.pcset[mkBNot(c)] {
		return false, true
	}
	switch c.Op {
	case "le": // a<=b known from a<b ; false from b<a (handled by bnot)
		if st.pcset[mkLt(c.Args[0], c.Args[1])] || st.pcset[mkEq(c.Args[0], c.Args[1])] {
			return true, true
		}
	case "lt":
		if st.pcset[mkEq(c.Args[0], c.Args[1])] {
			return false, true
		}
	case "eq":
		if st.pcset[mkLt(c.Args[0], c.Args[1])] || st.pcset[mkLt(c.Args[1], c.Args[0])] {
			return false, true
		}
		// x == const and another equality x == const' known
		x, k := c.Args[0], c.Args[1]
		if x.isConst() {
			x, k = k, x
		}
		if k.isConst() {
			for _, p := range st.pc {
				if p.Op == "eq" && (p.Args[0] == x && p.Args[1].isConst() && p.Args[1] != k || p.Args[1] == x && p.Args[0].isConst() && p.Args[0] != k) {
					return false, true
				}
			}
		}
	case "band":
		all := true
		for _, a := range c.Args {
			v, ok := st.known(a)
			if ok && !v {
				return false, true
			}
			if !ok {
				all = false
			}
		}
		if all {
			return true, true
		}
	case "bor":
		all := true
		for _, a := range c.Args {
			v, ok := st.known(a)
			if ok && v {
				return true, true
			}
			if !ok {
				all = false
			}
		}
		if all {
			return false, true
		}
	case "bnot":
		v, ok := st.known(c.Args[0])
		return !v, ok
	}
	return false, false
}

type unsupported struct{ msg string }

func (ex *Exec) unsup(f string, a ...interface{}) {
	panic(unsupported{fmt.Sprintf(f, a...)})
}

// ------------------------------------------------------------ components

var varBirth = map[*Term]int{}
var birthCnt int

func born(t *Term) *Term {
	if _, ok := varBirth[t]; !ok {
		birthCnt++
		varBirth[t] = birthCnt
	}
	return t
}

func (ex *Exec) comp(st *State, name string, s *Sort) *Term {
	if t, ok := st.heap[name]; ok {
		return t
	}
	n := "H" + st.epoch + ":" + name
	t := mkVar(n, s)
	if _, ok := varBirth[t]; !ok {
		varBirth[t] = 0
	}
	if holdsRefs(s) && st.epoch == "" {
		refBelow[t] = 0
	}
	ex.compSort[name] = s
	return t
}

func holdsRefs(s *Sort) bool {
	for s.K == KArr {
		s = s.B
	}
	return s.K == KRef
}

func (ex *Exec) leafGet(st *State, name string, keys []*Term, s *Sort) *Term {
	t := ex.comp(st, name, nestSort(keys, s))
	for _, k := range keys {
		t = mkSelect(t, k)
	}
	return t
}

func (ex *Exec) leafSet(st *State, name string, keys []*Term, v *Term) {
	c := ex.comp(st, name, nestSort(keys, v.S))
	var rec func(a *Term, ks []*Term) *Term
	rec = func(a *Term, ks []*Term) *Term {
		if len(ks) == 0 {
			return v
		}
		if len(ks) == 1 {
			return mkStore(a, ks[0], v)
		}
		return mkStore(a, ks[0], rec(mkSelect(a, ks[0]), ks[1:]))
	}
	st.heap[name] = rec(c, keys)
	ex.logWrite(st, name, keys)
}

// rowSet replaces a whole row of a two-level component.
func (ex *Exec) rowSet(st *State, name string, ref *Term, row *Term) {
	c := ex.comp(st, name, SArr(SRef, row.S))
	st.heap[name] = mkStore(c, ref, row)
	ex.logWrite(st, name, []*Term{ref})
}

type writeLog struct {
	cells map[*Cell]bool
	comps map[string]map[*Term]bool // comp -> first keys (nil key: whole)
	whole map[string]bool
	dyn   []dynWrite
}

func newLog() *writeLog {
	return &writeLog{cells: map[*Cell]bool{}, comps: map[string]map[*Term]bool{}, whole: map[string]bool{}}
}

func (ex *Exec) logWrite(st *State, name string, keys []*Term) {
	for _, l := range ex.logs {
		if len(keys) == 0 {
			l.whole[name] = true
			continue
		}
		l.dyn = append(l.dyn, dynWrite{name, keys[0], st.pc[:len(st.pc):len(st.pc)]})
		m := l.comps[name]
		if m == nil {
			m = map[*Term]bool{}
			l.comps[name] = m
		}
		m[keys[0]] = true
	}
}

func (ex *Exec) logCell(c *Cell) {
	for _, l := range ex.logs {
		l.cells[c] = true
	}
}

// ------------------------------------------------------------ references

func derivedRef(r *Term, id int) *Term {
	return mkAdd(mkMul(r, mkI(-1024, SRef)), mkI(int64(-id), SRef))
}

func (ex *Exec) toRef(p PtrV) *Term {
	if p.Cell != nil {
		ex.unsup("address of local variable %s escapes", p.Cell.name)
	}
	if p.Path == "" && len(p.Keys) == 1 && !strings.HasPrefix(p.Base, "V:") {
		return p.Keys[0]
	}
	if strings.HasPrefix(p.Base, "V:") {
		return mkI(int64(-ex.lay.deriv("global "+p.Base+p.Path)), SRef)
	}
	if len(p.Keys) == 1 {
		if ex.lay.isOpaque(p.Elem) || isArr(p.Elem) {
			return derivedRef(p.Keys[0], ex.lay.deriv(p.Base+p.Path))
		}
	}
	ex.unsup("interior pointer %s%s escapes", p.Base, p.Path)
	return nil
}

func isArr(t types.Type) bool { _, ok := t.Underlying().(*types.Array); return ok }

func (ex *Exec) mkPtr(ref *Term, elem types.Type) PtrV {
	if ex.lay.isOpaque(elem) {
		return PtrV{Base: "X:" + typeKey(elem), Keys: []*Term{ref}, Elem: elem}
	}
	if isStruct(elem) {
		return PtrV{Base: "O:" + structKey(elem), Keys: []*Term{ref}, Elem: elem}
	}
	if a, ok := elem.Underlying().(*types.Array); ok {
		return PtrV{Base: ex.lay.elemBase(a.Elem()), Keys: []*Term{ref}, Elem: elem}
	}
	return PtrV{Base: "P:" + typeKey(elem.Underlying()), Keys: []*Term{ref}, Elem: elem}
}

func (ex *Exec) ptrOf(ref *Term, t types.Type) Val {
	return ex.mkPtr(ref, t.Underlying().(*types.Pointer).Elem())
}

// ------------------------------------------------------------ load / store

func (ex *Exec) wfRef(st *State, r *Term) {
	if st == nil || r.isConst() || r.fb {
		return
	}
	if !olderThan(r, st.next) {
		b, _ := splitAdd(r)
		if b != nil && strings.HasPrefix(b.Name, "next") && b.Op == "var" {
			return
		}
		st.assume(mkLt(r, st.next))
	}
}

var maxLen = mkConst(pow2(56), SInt)

func (ex *Exec) wfSlice(st *State, s SliceV) {
	if st == nil || s.Len.fb || s.Arr.fb || s.Off.fb {
		return
	}
	z := mkI(0, SInt)
	ex.wfRef(st, s.Arr)
	if s.Arr.Op == "var" && ex.mode == ModeInt {
		st.assume(mkLt(mkMul(st.next, mkI(-1024, SRef)), s.Arr))
	}
	st.assume(mkLe(z, s.Off))
	st.assume(mkLe(z, s.Len))
	st.assume(mkLe(s.Len, s.Cap))
	if !(s.Off.isConst() && s.Cap.isConst()) {
		st.assume(mkLe(mkAdd(s.Off, s.Cap), maxLen))
	}
	if ex.mode == ModeBV && !(s.Off.isConst() && s.Cap.isConst()) {
		st.assume(mkLe(s.Cap, maxLen))
		st.assume(mkLe(s.Off, maxLen))
	}
	st.assume(mkImp(mkEq(s.Arr, mkI(0, SRef)), mkEq(s.Cap, z)))
}

// loadAt reads a value of type t at the location; wf facts go to sink.
func (ex *Exec) loadAt(st *State, base string, keys []*Term, path string, t types.Type, sink *State) Val {
	if st == nil {
		ex.unsup("no state to load from")
	}
	g := func(suf string, s *Sort) *Term { return ex.leafGet(st, base+path+suf, keys, s) }
	if ex.lay.isOpaque(t) {
		return g("", SUn("T_"+sanit(typeKey(t))))
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return g("", ex.lay.leaves(t)[0].sort)
	case *types.Pointer:
		r := g("", SRef)
		ex.wfRef(sink, r)
		if sink != nil && !r.fb && !ex.lay.isOpaque(u.Elem()) && isStruct(u.Elem()) && !r.isConst() {
			sink.assume(mkLe(mkI(0, SRef), r))
		}
		return ex.mkPtr(r, u.Elem())
	case *types.Slice:
		s := SliceV{g("#arr", SRef), g("#off", SInt), g("#len", SInt), g("#cap", SInt), u.Elem()}
		ex.wfSlice(sink, s)
		return s
	case *types.Interface:
		v := IfaceV{Tag: g("#tag", SInt), Ref: g("", SRef), T: t}
		ex.wfIface(sink, v)
		return v
	case *types.Struct:
		sv := StructV{T: t}
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			sv.F = append(sv.F, ex.loadField(st, base, keys, path, f, sink))
		}
		return sv
	case *types.Map:
		r := g("", SRef)
		ex.wfRef(sink, r)
		return MapV{r, u}
	case *types.Signature:
		return FuncV{Ref: g("", SRef), T: t}
	case *types.Array:
		return ex.loadArr(st, base, keys, path, u)
	}
	return g("", SRef)
}

func (ex *Exec) loadArr(st *State, base string, keys []*Term, path string, u *types.Array) Val {
	// base is an element family, keys[0] the region
	if len(keys) != 1 || path != "" {
		ex.unsup("array value inside aggregate")
	}
	av := ArrV{Elem: u.Elem(), N: u.Len()}
	for _, lf := range ex.lay.leaves(u.Elem()) {
		av.Rows = append(av.Rows, mkSelect(ex.comp(st, base+lf.path, SArr(SRef, SArr(SInt, lf.sort))), keys[0]))
	}
	return av
}

func (ex *Exec) loadField(st *State, base string, keys []*Term, path string, f *types.Var, sink *State) Val {
	if a, ok := f.Type().Underlying().(*types.Array); ok {
		if len(keys) != 1 {
			return ArrV{Elem: a.Elem(), N: -1} // array inside slice element: opaque
		}
		reg := derivedRef(keys[0], ex.lay.deriv(base+path+"."+f.Name()))
		return ex.loadArr(st, ex.lay.elemBase(a.Elem()), []*Term{reg}, "", a)
	}
	return ex.loadAt(st, base, keys, path+"."+f.Name(), f.Type(), sink)
}

func (ex *Exec) wfIface(st *State, v IfaceV) {
	if st == nil || v.Tag.fb || v.Ref.fb || v.Tag.isConst() {
		return
	}
	z := mkI(0, SInt)
	ex.wfRef(st, v.Ref)
	st.assume(mkLe(z, v.Tag))
	st.assume(mkImp(mkEq(v.Tag, z), mkEq(v.Ref, mkI(0, SRef))))
}

func (ex *Exec) load(st *State, p PtrV, sink *State) Val {
	if p.Cell != nil {
		v, ok := st.cells[p.Cell]
		if !ok {
			ex.unsup("load from dead cell %s", p.Cell.name)
		}
		for _, i := range p.CP {
			sv, ok := v.(StructV)
			if !ok {
				ex.unsup("cell path on %T", v)
			}
			v = sv.F[i]
		}
		return v
	}
	if strings.HasPrefix(p.Base, "V:") && p.Path == "" {
		if v, ok := ex.globalConst(p.Base); ok {
			return v
		}
	}
	return ex.loadAt(st, p.Base, p.Keys, p.Path, p.Elem, sink)
}

func (ex *Exec) store(st *State, p PtrV, v Val) {
	if p.Cell != nil {
		ex.logCell(p.Cell)
		st.cells[p.Cell] = setPath(st.cells[p.Cell], p.CP, v)
		return
	}
	ex.checkWrite(st, p.Base+p.Path, p.Keys)
	ex.storeAt(st, p.Base, p.Keys, p.Path, p.Elem, v)
}

func setPath(old Val, cp []int, v Val) Val {
	if len(cp) == 0 {
		return v
	}
	sv := old.(StructV)
	nf := append([]Val{}, sv.F...)
	nf[cp[0]] = setPath(nf[cp[0]], cp[1:], v)
	return StructV{sv.T, nf}
}

func (ex *Exec) storeAt(st *State, base string, keys []*Term, path string, t types.Type, v Val) {
	set := func(suf string, x *Term) { ex.leafSet(st, base+path+suf, keys, x) }
	if ex.lay.isOpaque(t) {
		set("", ex.flatTerm(v))
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		set("", v.(*Term))
	case *types.Pointer:
		set("", ex.toRef(v.(PtrV)))
	case *types.Slice:
		s := v.(SliceV)
		set("#arr", s.Arr)
		set("#off", s.Off)
		set("#len", s.Len)
		set("#cap", s.Cap)
	case *types.Interface:
		i := v.(IfaceV)
		set("#tag", i.Tag)
		set("", ex.ifaceRef(st, i))
	case *types.Struct:
		sv := v.(StructV)
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			if a, ok := f.Type().Underlying().(*types.Array); ok {
				if len(keys) != 1 {
					continue
				}
				reg := derivedRef(keys[0], ex.lay.deriv(base+path+"."+f.Name()))
				ex.storeArr(st, reg, a, sv.F[i])
				continue
			}
			ex.storeAt(st, base, keys, path+"."+f.Name(), f.Type(), sv.F[i])
		}
	case *types.Map:
		set("", v.(MapV).Ref)
	case *types.Signature:
		set("", ex.funcRef(v.(FuncV)))
	case *types.Array:
		if len(keys) != 1 || path != "" {
			ex.unsup("array store inside aggregate")
		}
		ex.storeArr(st, keys[0], u, v)
	default:
		set("", v.(*Term))
	}
}

func (ex *Exec) storeArr(st *State, reg *Term, u *types.Array, v Val) {
	av := v.(ArrV)
	if av.N < 0 {
		ex.unsup("opaque array value")
	}
	for i, lf := range ex.lay.leaves(u.Elem()) {
		ex.rowSet(st, ex.lay.elemBase(u.Elem())+lf.path, reg, av.Rows[i])
	}
}

func (ex *Exec) flatTerm(v Val) *Term {
	if t, ok := v.(*Term); ok {
		return t
	}
	ex.unsup("cannot flatten %T", v)
	return nil
}

func (ex *Exec) funcRef(f FuncV) *Term {
	if f.Ref != nil {
		return f.Ref
	}
	return mkI(int64(-ex.lay.deriv("func "+f.Fn.String())), SRef)
}

// ifaceRef gives the reference under which a boxed value is known.
func (ex *Exec) ifaceRef(st *State, i IfaceV) *Term { return i.Ref }

// ------------------------------------------------------------ allocation

func (ex *Exec) alloc(st *State) *Term {
	r := st.next
	st.next = mkAdd(st.next, mkI(1, SRef))
	return r
}

func (ex *Exec) newNext(st *State, why string) *Term {
	n := born(mkFresh("next"+why, SRef))
	ex.ordCnt++
	frontierOrd[n] = ex.ordCnt
	st.assume(mkLe(st.next, n))
	st.next = n
	return n
}

func (ex *Exec) zero(t types.Type) Val {
	if ex.lay.isOpaque(t) {
		s := SUn("T_" + sanit(typeKey(t)))
		return mkVar("zero:"+s.key, s)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		s := ex.lay.leaves(t)[0].sort
		switch s.K {
		case KBool:
			return mkFalse()
		case KStr:
			return mkStrConst("")
		case KNum:
			return mkI(0, s)
		case KRef:
			return mkI(0, SRef)
		}
		return mkVar("zero:"+s.key, s)
	case *types.Pointer:
		return ex.mkPtr(mkI(0, SRef), u.Elem())
	case *types.Slice:
		return mkNilSlice(u.Elem())
	case *types.Interface:
		return IfaceV{Tag: mkI(0, SInt), Ref: mkI(0, SRef), T: t}
	case *types.Struct:
		sv := StructV{T: t}
		for i := 0; i < u.NumFields(); i++ {
			sv.F = append(sv.F, ex.zero(u.Field(i).Type()))
		}
		return sv
	case *types.Map:
		return MapV{mkI(0, SRef), u}
	case *types.Signature:
		return FuncV{Ref: mkI(0, SRef), T: t}
	case *types.Array:
		av := ArrV{Elem: u.Elem(), N: u.Len()}
		for _, lf := range ex.lay.leaves(u.Elem()) {
			av.Rows = append(av.Rows, mkConstArr(SArr(SInt, lf.sort), ex.zeroLeaf(lf)))
		}
		return av
	}
	return mkI(0, SRef)
}

func (ex *Exec) zeroLeaf(lf leaf) *Term {
	switch lf.sort.K {
	case KBool:
		return mkFalse()
	case KStr:
		return mkStrConst("")
	case KNum, KInt, KRef:
		return mkI(0, lf.sort)
	}
	return mkVar("zero:"+lf.sort.key, lf.sort)
}

// newObject allocates a zeroed object of type t and returns the pointer.
func (ex *Exec) newObject(st *State, t types.Type) PtrV {
	r := ex.alloc(st)
	p := ex.mkPtr(r, t)
	ex.initAt(st, p, t)
	return p
}

func (ex *Exec) initAt(st *State, p PtrV, t types.Type) {
	switch {
	case ex.lay.isOpaque(t):
		ex.zeroGhost(st, p.Keys[0], t)
	case isArr(t):
		ex.storeArr(st, p.Keys[0], t.Underlying().(*types.Array), ex.zero(t))
	default:
		ex.storeAt(st, p.Base, p.Keys, p.Path, t, ex.zero(t))
		ex.zeroFields(st, p, t)
	}
}

// zeroFields assumes the zero ghost state of opaque fields of a new struct.
func (ex *Exec) zeroFields(st *State, p PtrV, t types.Type) {
	u, ok := t.Underlying().(*types.Struct)
	if !ok {
		return
	}
	for i := 0; i < u.NumFields(); i++ {
		f := u.Field(i)
		if ex.lay.isOpaque(f.Type()) {
			q := PtrV{Base: p.Base, Keys: p.Keys, Path: p.Path + "." + f.Name(), Elem: f.Type()}
			ex.zeroGhost(st, ex.toRef(q), f.Type())
		} else if isStruct(f.Type()) {
			q := PtrV{Base: p.Base, Keys: p.Keys, Path: p.Path + "." + f.Name(), Elem: f.Type()}
			ex.zeroFields(st, q, f.Type())
		}
	}
}

func (ex *Exec) zeroGhost(st *State, r *Term, t types.Type) {
	if e, ok := ex.spec.Zeros[typeKey(t)]; ok {
		c := ex.ctx(st, st)
		c.env = map[string]Val{"self": ex.mkPtr(r, t)}
		st.assume(c.evalBool(e))
	}
}

// freshVal makes an unknown value of type t.
func (ex *Exec) freshVal(st *State, name string, t types.Type) Val {
	fv := func(suf string, s *Sort) *Term { return born(mkFresh(name+suf, s)) }
	if ex.lay.isOpaque(t) {
		return fv("", SUn("T_"+sanit(typeKey(t))))
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return fv("", ex.lay.leaves(t)[0].sort)
	case *types.Pointer:
		r := fv("", SRef)
		ex.below(st, r)
		if !ex.lay.isOpaque(u.Elem()) && isStruct(u.Elem()) {
			st.assume(mkLe(mkI(0, SRef), r))
		}
		return ex.mkPtr(r, u.Elem())
	case *types.Slice:
		s := SliceV{fv("#arr", SRef), fv("#off", SInt), fv("#len", SInt), fv("#cap", SInt), u.Elem()}
		ex.below(st, s.Arr)
		ex.wfSlice(st, s)
		return s
	case *types.Interface:
		v := IfaceV{Tag: fv("#tag", SInt), Ref: fv("#ref", SRef), T: t}
		ex.below(st, v.Ref)
		ex.wfIface(st, v)
		return v
	case *types.Struct:
		sv := StructV{T: t}
		for i := 0; i < u.NumFields(); i++ {
			sv.F = append(sv.F, ex.freshVal(st, name+"."+u.Field(i).Name(), u.Field(i).Type()))
		}
		return sv
	case *types.Map:
		r := fv("", SRef)
		ex.below(st, r)
		return MapV{r, u}
	case *types.Signature:
		return FuncV{Ref: fv("", SRef), T: t}
	case *types.Array:
		av := ArrV{Elem: u.Elem(), N: u.Len()}
		for _, lf := range ex.lay.leaves(u.Elem()) {
			av.Rows = append(av.Rows, born(mkFresh(name+lf.path, SArr(SInt, lf.sort))))
		}
		return av
	case *types.Tuple:
		var tv TupleV
		for i := 0; i < u.Len(); i++ {
			tv = append(tv, ex.freshVal(st, fmt.Sprintf("%s.%d", name, i), u.At(i).Type()))
		}
		return tv
	}
	return fv("", SRef)
}

// below records that a fresh reference is below the current frontier.
func (ex *Exec) below(st *State, r *Term) {
	if o, ok := frontierOrd[st.next]; ok {
		refBelow[r] = o
	}
	st.assume(mkLt(r, st.next))
}

func baseOf(t *Term) *Term {
	b, _ := splitAdd(t)
	return b
}

// havocLike makes a value of the same shape with fresh leaves.
func (ex *Exec) havocLike(st *State, name string, v Val) Val {
	switch x := v.(type) {
	case *Term:
		return born(mkFresh(name, x.S))
	case PtrV:
		if x.Cell != nil || x.Path != "" || len(x.Keys) != 1 {
			ex.unsup("loop modifies pointer variable %s with structured value", name)
		}
		r := born(mkFresh(name, SRef))
		ex.below(st, r)
		if !ex.lay.isOpaque(x.Elem) && isStruct(x.Elem) {
			st.assume(mkLe(mkI(0, SRef), r))
		}
		return ex.mkPtr(r, x.Elem)
	case SliceV:
		s := SliceV{born(mkFresh(name+"#arr", SRef)), born(mkFresh(name+"#off", SInt)), born(mkFresh(name+"#len", SInt)), born(mkFresh(name+"#cap", SInt)), x.Elem}
		ex.below(st, s.Arr)
		ex.wfSlice(st, s)
		return s
	case IfaceV:
		n := IfaceV{Tag: born(mkFresh(name+"#tag", SInt)), Ref: born(mkFresh(name+"#ref", SRef)), T: x.T}
		ex.below(st, n.Ref)
		ex.wfIface(st, n)
		return n
	case StructV:
		sv := StructV{T: x.T}
		for i, f := range x.F {
			sv.F = append(sv.F, ex.havocLike(st, fmt.Sprintf("%s.%d", name, i), f))
		}
		return sv
	case MapV:
		r := born(mkFresh(name, SRef))
		ex.below(st, r)
		return MapV{r, x.T}
	case FuncV:
		return FuncV{Ref: born(mkFresh(name, SRef)), T: x.T}
	case ArrV:
		av := ArrV{Elem: x.Elem, N: x.N}
		for i, r := range x.Rows {
			av.Rows = append(av.Rows, born(mkFresh(fmt.Sprintf("%s.%d", name, i), r.S)))
		}
		return av
	case nil:
		return nil
	}
	ex.unsup("havoc of %T", v)
	return nil
}

func sortedKeys[T any](m map[string]T) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
