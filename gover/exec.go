package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Obl struct {
	Fn, Kind, Label, Src, Pos string
	Assume                    []*Term
	Goal                      *Term
	Mode                      Mode
	Cover                     bool // expected satisfiable
	Fuel                      int
	Hide                      map[string]bool
	Timeout                   int
	trivial                   bool
	mu                        sync.Mutex
	done, parts               int
	pend                      []job
	// results
	Status, Solver string
	Dur            time.Duration
	Out            string
	Query          string
	wit            []*Term
	witName        []string
}

type outKind int

const (
	oReturn outKind = iota
	oBack
	oExit
)

type Outcome struct {
	kind outKind
	st   *State
	to   *ssa.BasicBlock
	res  []Val
}

type loopCtx struct {
	header   *ssa.BasicBlock
	body     map[*ssa.BasicBlock]bool
	unroll   bool // exit conditions must be syntactically decided
	headExit bool // the header tests for the end
	rounds   int
}

type Exec struct {
	prog *Prog
	spec *Spec
	lay  *Lay
	fs   *FuncSpec
	fn   *ssa.Function
	mode Mode

	obls     []*Obl
	logs     []*writeLog
	compSort map[string]*Sort
	ordCnt   int
	entry    *State
	entryEnv map[string]Val
	quiet    int
	dry      int
	loopNums map[string]int
	frCnt    int
	cellCnt  int
	allowed  []modLoc
	modAll   bool
	used     map[string]bool // external contracts and models relied upon
	inlined  map[string]bool
	depth    int
	returns  []*State
	freshOK  map[[2]*Term]bool
	coll     bool
	houdini  int
	nquery   int
	steps    int
	guards   map[string]string
	lemmas   map[string]bool
}

type dynWrite struct {
	comp string
	ref  *Term
	pc   []*Term
}

type modLoc struct {
	comp string
	key  *Term // nil: whole component
}

type unrollFail struct{}

func (ex *Exec) ctx(st, old *State) *evalCtx {
	c := &evalCtx{spec: ex.spec, env: map[string]Val{}, mode: ex.mode, ex: ex, st: st, old: old, sink: st}
	if ex.fn != nil && ex.fn.Pkg != nil {
		c.pkg = ex.fn.Pkg.Pkg
	}
	return c
}

// ------------------------------------------------------------ obligations

func (ex *Exec) pos(in ssa.Instruction) string {
	if in == nil {
		return ""
	}
	p := ex.prog.fset.Position(in.Pos())
	if !p.IsValid() {
		if in.Block() != nil {
			for _, x := range in.Block().Instrs {
				if q := ex.prog.fset.Position(x.Pos()); q.IsValid() {
					p = q
					break
				}
			}
		}
	}
	f := p.Filename
	if i := strings.LastIndex(f, "/repo/"); i >= 0 {
		f = f[i+6:]
	}
	return fmt.Sprintf("%s:%d", f, p.Line)
}

func (ex *Exec) emit(st *State, kind, label, src string, goal *Term, at ssa.Instruction) {
	if v, ok := st.known(goal); ok && v {
		if ex.quiet == 0 {
			ex.obls = append(ex.obls, &Obl{Fn: ex.fs.Key, Kind: kind, Label: label, Src: src, Pos: ex.pos(at), trivial: true, Status: "unsat", Solver: "simplifier", Goal: goal, Mode: ex.mode})
		}
		return
	}
	if ex.quiet == 0 {
		o := &Obl{Fn: ex.fs.Key, Kind: kind, Label: label, Src: src, Pos: ex.pos(at), Assume: st.pc[:len(st.pc):len(st.pc)], Goal: goal, Mode: ex.mode, Fuel: ex.fs.Fuel, Hide: ex.fs.Hide, Timeout: ex.fs.Timeout}
		ex.obls = append(ex.obls, o)
	}
}

var safetyKinds = map[string]bool{"index": true, "nil": true, "slice": true, "div": true, "make": true, "typeassert": true, "panic": true, "shift": true, "mapnil": true}

func (ex *Exec) safe(st *State, kind string, goal *Term, at ssa.Instruction) {
	if !ex.fs.NoSafety {
		ex.emit(st, kind, "", "", goal, at)
	}
	st.assume(goal)
}

// ------------------------------------------------------------ frames

func (ex *Exec) freshRef(old *State, r *Term) *Term {
	base := old.next
	b, c := splitAdd(r)
	if b == base {
		return mkBool(c.Sign() >= 0)
	}
	if olderThan(r, base) && !(r.Op == "mul" || b != nil && b.Op == "mul") {
		return mkFalse()
	}
	if b != nil && b.Op == "var" && strings.HasPrefix(b.Name, "next") && frontierOrd[b] >= frontierOrd[base] {
		return mkTrue()
	}
	if b != nil && b.Op == "mul" && b.Args[1].isConst() && b.Args[1].N.Int64() == -1024 {
		in := b.Args[0]
		if in.Op == "var" && strings.HasPrefix(in.Name, "next") && frontierOrd[in] >= frontierOrd[base] && c.Sign() <= 0 {
			return mkTrue()
		}
	}
	return mkOr(mkLe(base, r), mkLe(r, mkMul(base, mkI(-1024, SRef))))
}

func (ex *Exec) checkWrite(st *State, comp string, keys []*Term) {
	ex.checkGuard(st, comp, keys, true)
	if ex.modAll || ex.entry == nil {
		return
	}
	var alts []*Term
	if len(keys) > 0 {
		alts = append(alts, ex.freshRef(ex.entry, keys[0]))
	}
	for _, m := range ex.allowed {
		if m.comp == comp || strings.HasPrefix(comp, m.comp) && strings.IndexAny(comp[len(m.comp):], "#.") == 0 || strings.HasPrefix(m.comp, comp+"#") {
			// (the leaves of a slice or interface are only ever allowed together)
			if m.key == nil {
				return
			}
			if len(keys) > 0 {
				alts = append(alts, mkEq(m.key, keys[0]))
			}
		}
	}
	if strings.HasPrefix(comp, "M:") && len(keys) > 0 {
		alts = append(alts, mkEq(keys[0], mkI(0, keys[0].S))) // no memory at the nil array
	}
	g := mkOr(alts...)
	if g.isTrue() {
		return
	}
	ex.emit(st, "frame", comp, "writes only what modifies allows", g, nil)
}

func (ex *Exec) checkGuard(st *State, comp string, keys []*Term, write bool) {
	if len(ex.guards) == 0 || len(keys) == 0 || ex.entry == nil {
		return
	}
	for g, lock := range ex.guards {
		if comp == "O:"+g || strings.HasPrefix(comp, "O:"+g+"#") {
			tn := g[:strings.LastIndex(g, ".")]
			lk := derivedRef(keys[0], ex.lay.deriv("O:"+tn+"."+lock))
			held := ex.leafGet(st, "G:held", []*Term{lk}, SBool)
			ex.emit(st, "guard", g, "accessed with "+lock+" held", mkOr(ex.freshRef(ex.entry, keys[0]), held), nil)
		}
	}
}

// ------------------------------------------------------------ running

func (ex *Exec) newFrame(fn *ssa.Function, parent *Frame, chain string) *Frame {
	ex.frCnt++
	f := &Frame{id: ex.frCnt, fn: fn, env: map[ssa.Value]Val{}, parent: parent, chain: chain}
	if parent != nil {
		f.depth = parent.depth + 1
	}
	return f
}

func (ex *Exec) runBlock(st *State, b *ssa.BasicBlock, lc *loopCtx, first bool) []Outcome {
	if lc != nil && !first {
		if b == lc.header {
			return []Outcome{{kind: oBack, st: st, to: b}}
		}
		if !lc.body[b] {
			return []Outcome{{kind: oExit, st: st, to: b}}
		}
	}
	if !first || lc == nil {
		if L := ex.prog.loopOf(st.fr.fn, b); L != nil && (lc == nil || lc.header != b) {
			return ex.runLoop(st, L, lc)
		}
	}
	return ex.runFrom(st, b, 0, lc)
}

func (ex *Exec) runFrom(st *State, b *ssa.BasicBlock, i int, lc *loopCtx) []Outcome {
	ex.steps++
	if ex.steps > 60000 {
		ex.unsup("path explosion")
	}
	for ; i < len(b.Instrs); i++ {
		in := b.Instrs[i]
		switch x := in.(type) {
		case *ssa.Call:
			outs := ex.doCall(st, x, &x.Call)
			if len(outs) == 1 {
				st = outs[0].st
				st.fr.env[x] = ex.tuple(x.Type(), outs[0].res)
				continue
			}
			var all []Outcome
			for _, o := range outs {
				o.st.fr.env[x] = ex.tuple(x.Type(), o.res)
				all = append(all, ex.runFrom(o.st, b, i+1, lc)...)
			}
			return all
		case *ssa.RunDefers:
			outs := ex.runDefers(st)
			if len(outs) == 1 {
				st = outs[0]
				continue
			}
			var all []Outcome
			for _, o := range outs {
				all = append(all, ex.runFrom(o, b, i+1, lc)...)
			}
			return all
		case *ssa.Jump:
			st.fr.pred = b
			return ex.runBlock(st, b.Succs[0], lc, false)
		case *ssa.If:
			c := ex.val(st, x.Cond).(*Term)
			if lc != nil && lc.unroll && lc.body[b] && (b == lc.header || !lc.headExit || lc.rounds > 4) {
				for _, s := range b.Succs {
					if !lc.body[s] {
						if _, ok := st.known(c); !ok {
							panic(unrollFail{})
						}
					}
				}
			}
			if v, ok := st.known(c); ok {
				k := 1
				if v {
					k = 0
				}
				st.fr.pred = b
				return ex.runBlock(st, b.Succs[k], lc, false)
			}
			s2 := st.clone()
			st.assume(c)
			s2.assume(mkBNot(c))
			st.fr.pred, s2.fr.pred = b, b
			o1 := ex.runBlock(st, b.Succs[0], lc, false)
			o2 := ex.runBlock(s2, b.Succs[1], lc, false)
			return append(o1, o2...)
		case *ssa.Return:
			var res []Val
			for _, r := range x.Results {
				res = append(res, ex.val(st, r))
			}
			return []Outcome{{kind: oReturn, st: st, res: res}}
		case *ssa.Panic:
			ex.safe(st, "panic", mkFalse(), x)
			return nil
		default:
			ex.instr(st, in)
		}
	}
	return nil
}

func (ex *Exec) tuple(t types.Type, res []Val) Val {
	if tt, ok := t.(*types.Tuple); ok {
		if tt.Len() == 0 {
			return nil
		}
		return TupleV(res)
	}
	if len(res) == 1 {
		return res[0]
	}
	return TupleV(res)
}

func (ex *Exec) runDefers(st *State) []*State {
	states := []*State{st}
	ds := st.fr.defers
	for k := len(ds) - 1; k >= 0; k-- {
		d := ds[k]
		var nx []*State
		for _, s := range states {
			s.fr.defers = nil
			for _, o := range ex.callWith(s, d.pos, d.call, d.fn, d.args) {
				nx = append(nx, o.st)
			}
		}
		states = nx
	}
	return states
}

// val evaluates an SSA operand.
func (ex *Exec) val(st *State, v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Const:
		return ex.constVal(x)
	case *ssa.Global:
		el := x.Type().(*types.Pointer).Elem()
		p := PtrV{Base: "V:" + shortPkg(x.Pkg.Pkg.Path()) + "." + x.Name(), Elem: el}
		if ex.lay.isOpaque(el) {
			return PtrV{Base: "X:" + typeKey(el), Keys: []*Term{mkI(int64(-ex.lay.deriv("global "+p.Base)), SRef)}, Elem: el}
		}
		return p
	case *ssa.Function:
		return FuncV{Fn: x, T: x.Type()}
	case *ssa.Builtin:
		return x
	case *ssa.FreeVar:
		for i, fv := range st.fr.fn.FreeVars {
			if fv == x {
				return st.fr.free[i]
			}
		}
	}
	r, ok := st.fr.env[v]
	if !ok {
		ex.unsup("undefined value %s in %s", v.Name(), st.fr.fn)
	}
	return r
}

func (ex *Exec) constVal(x *ssa.Const) Val {
	t := x.Type()
	if x.Value == nil {
		return ex.zero(t)
	}
	switch x.Value.Kind() {
	case constant.Bool:
		return mkBool(constant.BoolVal(x.Value))
	case constant.String:
		return mkStrConst(constant.StringVal(x.Value))
	case constant.Int:
		n, _ := new(big.Int).SetString(x.Value.ExactString(), 10)
		if b, ok := t.Underlying().(*types.Basic); ok {
			if s := numSort(b); s != nil {
				return mkConst(n, s)
			}
		}
	}
	ex.unsup("constant %s", x)
	return nil
}

func (ex *Exec) instr(st *State, in ssa.Instruction) {
	env := st.fr.env
	switch x := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		env[x] = ex.doAlloc(st, x)
	case *ssa.Store:
		p := ex.val(st, x.Addr).(PtrV)
		ex.nilCheck(st, p, x)
		ex.store(st, p, ex.val(st, x.Val))
	case *ssa.UnOp:
		env[x] = ex.unop(st, x)
	case *ssa.BinOp:
		env[x] = ex.binop(st, x)
	case *ssa.FieldAddr:
		p := ex.val(st, x.X).(PtrV)
		ex.nilCheck(st, p, x)
		env[x] = ex.fieldAddr(p, x.Field)
	case *ssa.Field:
		sv, ok := ex.val(st, x.X).(StructV)
		if !ok {
			ex.unsup("field of %T", ex.val(st, x.X))
		}
		env[x] = sv.F[x.Field]
	case *ssa.IndexAddr:
		env[x] = ex.indexAddr(st, x)
	case *ssa.Index:
		i := ex.intOf(ex.val(st, x.Index))
		switch v := ex.val(st, x.X).(type) {
		case *Term: // string
			ex.boundsCheck(st, i, mkSlen(v), x)
			env[x] = mkSat(v, i)
		case ArrV:
			ex.boundsCheck(st, i, mkI(v.N, SInt), x)
			if len(v.Rows) != 1 {
				ex.unsup("index of array of aggregates")
			}
			env[x] = mkSelect(v.Rows[0], i)
		default:
			ex.unsup("index of %T", v)
		}
	case *ssa.Extract:
		tv, ok := env[x.Tuple].(TupleV)
		if !ok {
			ex.unsup("extract from %T", env[x.Tuple])
		}
		env[x] = tv[x.Index]
	case *ssa.Phi:
		for i, p := range x.Block().Preds {
			if p == st.fr.pred {
				env[x] = ex.val(st, x.Edges[i])
				return
			}
		}
		ex.unsup("phi without predecessor")
	case *ssa.MakeInterface:
		env[x] = ex.makeIface(st, ex.val(st, x.X), x.X.Type(), x.Type())
	case *ssa.ChangeInterface:
		v := ex.val(st, x.X).(IfaceV)
		v.T = x.Type()
		env[x] = v
	case *ssa.ChangeType:
		env[x] = ex.retype(ex.val(st, x.X), x.Type())
	case *ssa.Convert:
		env[x] = ex.convert(st, x)
	case *ssa.MultiConvert:
		ex.unsup("multiconvert")
	case *ssa.TypeAssert:
		env[x] = ex.typeAssert(st, x)
	case *ssa.MakeClosure:
		f := FuncV{Fn: x.Fn.(*ssa.Function), T: x.Type()}
		for _, b := range x.Bindings {
			f.Bind = append(f.Bind, ex.val(st, b))
		}
		env[x] = f
	case *ssa.MakeSlice:
		env[x] = ex.makeSlice(st, x)
	case *ssa.Slice:
		env[x] = ex.sliceOp(st, x)
	case *ssa.MakeMap:
		r := ex.alloc(st)
		m := x.Type().Underlying().(*types.Map)
		k := typeKey(m)
		ex.rowSet(st, "MD:"+k, r, mkConstArr(SArr(ex.keySort(m), SBool), mkFalse()))
		ex.leafSet(st, "ML:"+k, []*Term{r}, mkI(0, SInt))
		env[x] = MapV{r, m}
	case *ssa.MapUpdate:
		m := ex.val(st, x.Map).(MapV)
		ex.safe(st, "mapnil", mkBNot(mkEq(m.Ref, mkI(0, SRef))), x)
		ex.mapUpdate(st, m, ex.keyTerm(ex.val(st, x.Key)), ex.val(st, x.Value))
	case *ssa.Lookup:
		env[x] = ex.lookup(st, x)
	case *ssa.Range:
		v := ex.val(st, x.X)
		if m, ok := v.(MapV); ok {
			// the keys a range has produced
			ex.rangeRef(st, m, x)
		}
		env[x] = v
	case *ssa.Next:
		env[x] = ex.next(st, x)
	case *ssa.Defer:
		d := &deferred{call: &x.Call, pos: x}
		d.fn, d.args = ex.callee(st, &x.Call)
		st.fr.defers = append(st.fr.defers, d)
	default:
		ex.unsup("instruction %T in %s", in, st.fr.fn)
	}
}

func (ex *Exec) nilCheck(st *State, p PtrV, at ssa.Instruction) {
	n := ex.ptrNil(p)
	if n.isFalse() {
		return
	}
	if p.Keys[0].Op == "const" && p.Keys[0].N.Sign() < 0 {
		return
	}
	b, _ := splitAdd(p.Keys[0])
	if b != nil && b.Op == "var" && strings.HasPrefix(b.Name, "next") {
		return
	}
	ex.safe(st, "nil", mkBNot(n), at)
}

func (ex *Exec) doAlloc(st *State, x *ssa.Alloc) Val {
	t := x.Type().Underlying().(*types.Pointer).Elem()
	if isArr(t) {
		p := ex.newObject(st, t)
		st.fr.heapv = append(st.fr.heapv, namedPtr{x.Comment, p, x})
		return p
	}
	if x.Heap && (isStruct(t) || ex.lay.isOpaque(t)) || ex.lay.isOpaque(t) && !isTimeLike(t) {
		p := ex.newObject(st, t)
		st.fr.heapv = append(st.fr.heapv, namedPtr{x.Comment, p, x})
		return p
	}
	if x.Heap && x.Comment == "new" {
		return ex.newObject(st, t)
	}
	ex.cellCnt++
	c := &Cell{id: ex.cellCnt, name: x.Comment, T: t, al: x, fr: st.fr.id}
	st.cells[c] = ex.zero(t)
	st.fr.allocs = append(st.fr.allocs, c)
	return PtrV{Cell: c, Elem: t}
}

func isTimeLike(t types.Type) bool {
	k := typeKey(t)
	return k == "time.Time"
}

func (ex *Exec) fieldAddr(p PtrV, i int) PtrV {
	st := p.Elem.Underlying().(*types.Struct)
	f := st.Field(i)
	if p.Cell != nil {
		return PtrV{Cell: p.Cell, CP: append(append([]int{}, p.CP...), i), Elem: f.Type()}
	}
	q := PtrV{Base: p.Base, Keys: p.Keys, Path: p.Path + "." + f.Name(), Elem: f.Type()}
	if a, ok := f.Type().Underlying().(*types.Array); ok {
		if len(p.Keys) != 1 {
			ex.unsup("array field inside slice element")
		}
		return PtrV{Base: ex.lay.elemBase(a.Elem()), Keys: []*Term{derivedRef(p.Keys[0], ex.lay.deriv(q.Base+q.Path))}, Elem: f.Type()}
	}
	return q
}

func (ex *Exec) intOf(v Val) *Term {
	t, ok := v.(*Term)
	if !ok {
		ex.unsup("integer expected, got %T", v)
	}
	return mkConv(t, SInt)
}

// idxTerm converts an index to a mathematical integer; unsigned 64-bit values
// in bv mode are checked against the sign bit by the bounds check itself.
func (ex *Exec) boundsCheck(st *State, i, n *Term, at ssa.Instruction) {
	ex.safe(st, "index", mkAnd(mkLe(mkI(0, SInt), i), mkLt(i, n)), at)
}

func (ex *Exec) indexAddr(st *State, x *ssa.IndexAddr) Val {
	i := ex.intOf(ex.val(st, x.Index))
	switch v := ex.val(st, x.X).(type) {
	case SliceV:
		ex.boundsCheck(st, i, v.Len, x)
		return PtrV{Base: ex.lay.elemBase(v.Elem), Keys: []*Term{v.Arr, mkAdd(v.Off, i)}, Elem: v.Elem}
	case PtrV:
		a := v.Elem.Underlying().(*types.Array)
		ex.nilCheck(st, v, x)
		ex.boundsCheck(st, i, mkI(a.Len(), SInt), x)
		if v.Cell != nil {
			ex.unsup("array cell")
		}
		return PtrV{Base: v.Base, Keys: []*Term{v.Keys[0], i}, Elem: a.Elem()}
	}
	ex.unsup("index of %T", ex.val(st, x.X))
	return nil
}

func (ex *Exec) unop(st *State, x *ssa.UnOp) Val {
	v := ex.val(st, x.X)
	switch x.Op {
	case token.MUL:
		p := v.(PtrV)
		ex.nilCheck(st, p, x)
		if p.Cell == nil {
			ex.checkGuard(st, p.Base+p.Path, p.Keys, false)
		}
		return ex.load(st, p, st)
	case token.NOT:
		return mkBNot(v.(*Term))
	case token.SUB:
		t := v.(*Term)
		return mkSub(mkI(0, t.S), t)
	case token.XOR:
		return mkNot(v.(*Term))
	}
	ex.unsup("unop %s", x.Op)
	return nil
}

func (ex *Exec) binop(st *State, x *ssa.BinOp) Val {
	a, b := ex.val(st, x.X), ex.val(st, x.Y)
	switch x.Op {
	case token.EQL:
		return ex.eq(st, a, b)
	case token.NEQ:
		return mkBNot(ex.eq(st, a, b))
	}
	ta, ok1 := a.(*Term)
	tb, ok2 := b.(*Term)
	if !ok1 || !ok2 {
		ex.unsup("binop on %T, %T", a, b)
	}
	if ta.S == SStr {
		switch x.Op {
		case token.ADD:
			return mkScat(ta, tb)
		case token.LSS:
			return mkApp("strlt", SBool, ta, tb)
		case token.GTR:
			return mkApp("strlt", SBool, tb, ta)
		case token.LEQ:
			return mkBNot(mkApp("strlt", SBool, tb, ta))
		case token.GEQ:
			return mkBNot(mkApp("strlt", SBool, ta, tb))
		}
	}
	switch x.Op {
	case token.ADD:
		return mkAdd(ta, tb)
	case token.SUB:
		return mkSub(ta, tb)
	case token.MUL:
		return mkMul(ta, tb)
	case token.QUO, token.REM:
		if ta.S.K != KNum {
			ex.unsup("float arithmetic")
		}
		ex.safe(st, "div", mkBNot(mkEq(tb, mkI(0, tb.S))), x)
		if x.Op == token.QUO {
			return mkDiv(ta, tb)
		}
		return mkRem(ta, tb)
	case token.AND:
		return mkBit("and", ta, tb)
	case token.OR:
		return mkBit("or", ta, tb)
	case token.XOR:
		return mkBit("xor", ta, tb)
	case token.AND_NOT:
		return mkBit("and", ta, mkNot(tb))
	case token.SHL, token.SHR:
		if tb.S.Sg {
			ex.safe(st, "shift", mkLe(mkI(0, tb.S), tb), x)
		}
		cnt := tb
		if !(tb.isConst()) && tb.S.W > ta.S.W || tb.S.W == ta.S.W && tb.S.Sg && !tb.isConst() {
			w := mkI(int64(ta.S.W), tb.S)
			cnt = mkIte(mkLt(tb, w), tb, w)
		}
		if cnt.isConst() && cnt.N.Cmp(big.NewInt(int64(ta.S.W))) > 0 {
			cnt = mkI(int64(ta.S.W), cnt.S)
		}
		cnt = mkConv(cnt, ta.S)
		if x.Op == token.SHL {
			return mkShift("shl", ta, cnt)
		}
		return mkShift("shr", ta, cnt)
	case token.LSS:
		return mkLt(ta, tb)
	case token.LEQ:
		return mkLe(ta, tb)
	case token.GTR:
		return mkLt(tb, ta)
	case token.GEQ:
		return mkLe(tb, ta)
	}
	ex.unsup("binop %s", x.Op)
	return nil
}

func (ex *Exec) eq(st *State, a, b Val) *Term {
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		if !ok {
			ex.unsup("compare %T %T", a, b)
		}
		return mkEq(x, y)
	case IfaceV:
		y := b.(IfaceV)
		return mkAnd(mkEq(x.Tag, y.Tag), mkEq(x.Ref, y.Ref))
	case PtrV:
		return ex.ptrEq(x, b.(PtrV))
	case SliceV:
		y := b.(SliceV)
		if y.Arr.isConst() {
			return mkEq(x.Arr, y.Arr)
		}
		if x.Arr.isConst() {
			return mkEq(x.Arr, y.Arr)
		}
	case MapV:
		return mkEq(x.Ref, b.(MapV).Ref)
	case FuncV:
		y := b.(FuncV)
		return mkEq(ex.funcRef(x), ex.funcRef(y))
	case StructV:
		y := b.(StructV)
		var cs []*Term
		for i := range x.F {
			cs = append(cs, ex.eq(st, x.F[i], y.F[i]))
		}
		return mkAnd(cs...)
	case ArrV:
		y := b.(ArrV)
		if x.N <= 64 && len(x.Rows) == 1 {
			var cs []*Term
			for i := int64(0); i < x.N; i++ {
				cs = append(cs, mkEq(mkSelect(x.Rows[0], mkI(i, SInt)), mkSelect(y.Rows[0], mkI(i, SInt))))
			}
			return mkAnd(cs...)
		}
	}
	ex.unsup("compare %T with %T", a, b)
	return nil
}

func (ex *Exec) makeIface(st *State, v Val, t, it types.Type) Val {
	tag := mkI(int64(ex.lay.tagOf(t)), SInt)
	switch x := v.(type) {
	case PtrV:
		var r *Term
		if x.Cell != nil || len(x.Keys) != 1 || x.Path != "" && !ex.lay.isOpaque(x.Elem) {
			// pointer to a local or interior location: usable only by models that look at Dyn
			if x.Cell == nil && len(x.Keys) == 2 && x.Path == "" {
				r = mkApp("elemref:"+x.Base, SRef, x.Keys[0], x.Keys[1])
				refBelow[r] = 0
			} else {
				r = born(mkFresh("cellref", SRef))
			}
			st.assume(mkLt(r, mkI(-(1<<50), SRef)))
		} else {
			r = ex.toRef(x)
		}
		return IfaceV{Tag: tag, Ref: r, Dyn: x, DynT: t, T: it}
	case MapV:
		return IfaceV{Tag: tag, Ref: x.Ref, Dyn: x, DynT: t, T: it}
	case FuncV:
		return IfaceV{Tag: tag, Ref: ex.funcRef(x), Dyn: x, DynT: t, T: it}
	}
	// boxed value: a reference determined by the value when it is a single term
	var r *Term
	if tm, ok := v.(*Term); ok {
		r = mkApp("box:"+typeKey(t), SRef, tm)
		refBelow[r] = 0
	} else {
		r = ex.alloc(st)
		if sv, ok := v.(StructV); ok && ex.storable(sv) {
			p := ex.mkPtr(r, t)
			ex.storeAt(st, p.Base, p.Keys, "", t, v)
		}
	}
	return IfaceV{Tag: tag, Ref: r, Dyn: v, DynT: t, T: it}
}

func (ex *Exec) storable(v Val) bool {
	switch x := v.(type) {
	case StructV:
		for _, f := range x.F {
			if !ex.storable(f) {
				return false
			}
		}
	case PtrV:
		if x.Cell != nil || len(x.Keys) != 1 || x.Path != "" && !ex.lay.isOpaque(x.Elem) {
			return false
		}
	}
	return true
}

func (ex *Exec) retype(v Val, t types.Type) Val {
	switch x := v.(type) {
	case StructV:
		x.T = t
		return x
	case FuncV:
		x.T = t
		return x
	case PtrV:
		if p, ok := t.Underlying().(*types.Pointer); ok && x.Cell == nil && x.Path == "" && len(x.Keys) == 1 {
			return ex.mkPtr(x.Keys[0], p.Elem())
		}
	case SliceV:
		if s, ok := t.Underlying().(*types.Slice); ok {
			x.Elem = s.Elem()
			return x
		}
	}
	return v
}

func (ex *Exec) convert(st *State, x *ssa.Convert) Val {
	v := ex.val(st, x.X)
	ft, tt := x.X.Type().Underlying(), x.Type().Underlying()
	if tb, ok := tt.(*types.Basic); ok {
		if s := numSort(tb); s != nil {
			if t, ok := v.(*Term); ok && t.S.K == KNum {
				return mkConv(t, s)
			}
		}
		if tb.Info()&types.IsString != 0 {
			switch y := v.(type) {
			case SliceV:
				if b, ok := y.Elem.Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
					row := mkSelect(ex.comp(st, "M:uint8", SArr(SRef, SBytes)), y.Arr)
					return ex.strOf(row, y.Off, y.Len)
				}
			case *Term:
				return mkApp("runestr", SStr, mkConv(y, SInt))
			}
		}
	}
	if ts, ok := tt.(*types.Slice); ok {
		if t, ok := v.(*Term); ok && t.S == SStr {
			if b, ok := ts.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
				r := ex.alloc(st)
				row := born(mkFresh("strbytes", SBytes))
				k := mkBVar("k", SInt)
				n := mkSlen(t)
				st.assume(mkForall([]*Term{k}, mkImp(mkAnd(mkLe(mkI(0, SInt), k), mkLt(k, n)), mkEq(mkSelect(row, k), mkSat(t, k))), [][]*Term{{mkSelect(row, k)}}))
				st.assume(mkEq(ex.strOf(row, mkI(0, SInt), n), t))
				ex.rowSet(st, "M:uint8", r, row)
				return SliceV{r, mkI(0, SInt), n, n, ts.Elem()}
			}
		}
	}
	_ = ft
	ex.unsup("conversion %s -> %s", x.X.Type(), x.Type())
	return nil
}

// strOf makes the string with the given bytes.
func (ex *Exec) strOf(row, off, n *Term) *Term {
	if n.isConst() && n.N.Sign() == 0 {
		return mkStrConst("")
	}
	if n.isConst() && n.N.IsInt64() && n.N.Int64() <= 32 {
		// known bytes
		b := make([]byte, n.N.Int64())
		for i := range b {
			c := mkSelect(row, mkAdd(off, mkI(int64(i), SInt)))
			if !c.isConst() {
				b = nil
				break
			}
			b[i] = byte(c.N.Uint64())
		}
		if b != nil {
			return mkStrConst(string(b))
		}
	}
	return mkApp("strof", SStr, row, off, n)
}

func (ex *Exec) implTerm(tag *Term, it types.Type) *Term {
	ifc := it.Underlying().(*types.Interface)
	if tag.isConst() {
		if tag.N.Sign() == 0 {
			return mkFalse()
		}
		dt := ex.lay.tagT[int(tag.N.Int64())]
		return mkBool(types.Implements(dt, ifc))
	}
	if tag.Op == "ite" {
		return mkIte(tag.Args[0], ex.implTerm(tag.Args[1], it), ex.implTerm(tag.Args[2], it))
	}
	return mkAnd(mkBNot(mkEq(tag, mkI(0, SInt))), mkApp("impl:"+typeKey(it), SBool, tag))
}

func (ex *Exec) typeAssert(st *State, x *ssa.TypeAssert) Val {
	v := ex.val(st, x.X).(IfaceV)
	var ok *Term
	var res Val
	if types.IsInterface(x.AssertedType) {
		if types.Implements(x.X.Type(), x.AssertedType.Underlying().(*types.Interface)) {
			ok = mkBNot(mkEq(v.Tag, mkI(0, SInt)))
		} else {
			ok = ex.implTerm(v.Tag, x.AssertedType)
		}
		r := v
		r.T = x.AssertedType
		res = r
		if x.CommaOk && !ok.isTrue() {
			res = IfaceV{Tag: mkIte(ok, v.Tag, mkI(0, SInt)), Ref: mkIte(ok, v.Ref, mkI(0, SRef)), T: x.AssertedType}
			if ok.isFalse() {
				res = ex.zero(x.AssertedType)
			}
		}
	} else {
		ok = mkEq(v.Tag, mkI(int64(ex.lay.tagOf(x.AssertedType)), SInt))
		if v.Dyn != nil && v.DynT != nil && types.Identical(v.DynT, x.AssertedType) {
			res = v.Dyn
		} else if p, isP := x.AssertedType.Underlying().(*types.Pointer); isP {
			r := v.Ref
			if x.CommaOk {
				r = mkIte(ok, v.Ref, mkI(0, SRef))
			} else {
				st.assume(mkImp(ok, mkLe(mkI(0, SRef), r)))
			}
			res = ex.mkPtr(r, p.Elem())
		} else if m, isM := x.AssertedType.Underlying().(*types.Map); isM {
			res = MapV{mkIte(ok, v.Ref, mkI(0, SRef)), m}
		} else if _, isF := x.AssertedType.Underlying().(*types.Signature); isF {
			res = FuncV{Ref: mkIte(ok, v.Ref, mkI(0, SRef)), T: x.AssertedType}
		} else if isStruct(x.AssertedType) && !ok.isFalse() {
			p := ex.mkPtr(v.Ref, x.AssertedType)
			res = ex.load(st, p, st)
		} else {
			res = ex.zero(x.AssertedType)
			if !ok.isFalse() {
				res = ex.freshVal(st, "assert", x.AssertedType)
			}
		}
	}
	if x.CommaOk {
		return TupleV{res, ok}
	}
	ex.safe(st, "typeassert", ok, x)
	return res
}

func (ex *Exec) makeSlice(st *State, x *ssa.MakeSlice) Val {
	el := x.Type().Underlying().(*types.Slice).Elem()
	lv, cv := ex.val(st, x.Len).(*Term), ex.val(st, x.Cap).(*Term)
	n, c := mkConv(lv, SInt), mkConv(cv, SInt)
	lim := int64(1) << 47
	if sz := ex.prog.sizes.Sizeof(el); sz > 0 {
		lim /= sz
	}
	ex.safe(st, "make", mkAnd(mkLe(mkI(0, SInt), n), mkLe(n, c), mkLe(c, mkI(lim, SInt))), x)
	return ex.newSlice(st, el, n, c)
}

func (ex *Exec) newSlice(st *State, el types.Type, n, c *Term) SliceV {
	r := ex.alloc(st)
	for _, lf := range ex.lay.leaves(el) {
		ex.rowSet(st, ex.lay.elemBase(el)+lf.path, r, mkConstArr(SArr(SInt, lf.sort), ex.zeroLeaf(lf)))
	}
	return SliceV{r, mkI(0, SInt), n, c, el}
}

func (ex *Exec) sliceOp(st *State, x *ssa.Slice) Val {
	z := mkI(0, SInt)
	get := func(v ssa.Value, def *Term) *Term {
		if v == nil {
			return def
		}
		return ex.intOf(ex.val(st, v))
	}
	switch v := ex.val(st, x.X).(type) {
	case *Term: // string
		n := mkSlen(v)
		lo, hi := get(x.Low, z), get(x.High, n)
		ex.safe(st, "slice", mkAnd(mkLe(z, lo), mkLe(lo, hi), mkLe(hi, n)), x)
		return mkSsub(v, lo, hi)
	case SliceV:
		lo, hi := get(x.Low, z), get(x.High, v.Len)
		mx := get(x.Max, v.Cap)
		ex.safe(st, "slice", mkAnd(mkLe(z, lo), mkLe(lo, hi), mkLe(hi, mx), mkLe(mx, v.Cap)), x)
		return SliceV{v.Arr, mkAdd(v.Off, lo), mkSub(hi, lo), mkSub(mx, lo), v.Elem}
	case PtrV:
		a := v.Elem.Underlying().(*types.Array)
		n := mkI(a.Len(), SInt)
		lo, hi := get(x.Low, z), get(x.High, n)
		mx := get(x.Max, n)
		ex.nilCheck(st, v, x)
		ex.safe(st, "slice", mkAnd(mkLe(z, lo), mkLe(lo, hi), mkLe(hi, mx), mkLe(mx, n)), x)
		return SliceV{v.Keys[0], lo, mkSub(hi, lo), mkSub(mx, lo), a.Elem()}
	}
	ex.unsup("slice of %T", ex.val(st, x.X))
	return nil
}

// ------------------------------------------------------------ maps

func (ex *Exec) keySort(m *types.Map) *Sort {
	lf := ex.lay.leaves(m.Key())
	if len(lf) != 1 {
		ex.unsup("map key type %s", m.Key())
	}
	return lf[0].sort
}

func (ex *Exec) keyTerm(v Val) *Term {
	switch x := v.(type) {
	case *Term:
		return x
	case PtrV:
		return ex.toRef(x)
	}
	ex.unsup("map key %T", v)
	return nil
}

func (ex *Exec) mapUpdate(st *State, m MapV, k *Term, v Val) {
	tk := typeKey(m.T)
	ex.checkWrite(st, "MD:"+tk, []*Term{m.Ref, k})
	had := ex.leafGet(st, "MD:"+tk, []*Term{m.Ref, k}, SBool)
	n := ex.leafGet(st, "ML:"+tk, []*Term{m.Ref}, SInt)
	ex.leafSet(st, "ML:"+tk, []*Term{m.Ref}, mkIte(had, n, mkAdd(n, mkI(1, SInt))))
	ex.leafSet(st, "MD:"+tk, []*Term{m.Ref, k}, mkTrue())
	ex.storeAt(st, "MV:"+tk, []*Term{m.Ref, k}, "", m.T.Elem(), v)
}

func (ex *Exec) mapDelete(st *State, m MapV, k *Term) {
	tk := typeKey(m.T)
	ex.checkWrite(st, "MD:"+tk, []*Term{m.Ref, k})
	had := ex.leafGet(st, "MD:"+tk, []*Term{m.Ref, k}, SBool)
	n := ex.leafGet(st, "ML:"+tk, []*Term{m.Ref}, SInt)
	ex.leafSet(st, "ML:"+tk, []*Term{m.Ref}, mkIte(had, mkSub(n, mkI(1, SInt)), n))
	ex.leafSet(st, "MD:"+tk, []*Term{m.Ref, k}, mkFalse())
}

func (ex *Exec) lookup(st *State, x *ssa.Lookup) Val {
	switch m := ex.val(st, x.X).(type) {
	case MapV:
		tk := typeKey(m.T)
		k := ex.keyTerm(ex.val(st, x.Index))
		ok := mkAnd(mkBNot(mkEq(m.Ref, mkI(0, SRef))), ex.leafGet(st, "MD:"+tk, []*Term{m.Ref, k}, SBool))
		v := ex.loadAt(st, "MV:"+tk, []*Term{m.Ref, k}, "", m.T.Elem(), st)
		zv := ex.zero(m.T.Elem())
		r := ex.iteVal(ok, v, zv)
		if x.CommaOk {
			return TupleV{r, ok}
		}
		return r
	case *Term:
		i := ex.intOf(ex.val(st, x.Index))
		ex.boundsCheck(st, i, mkSlen(m), x)
		return mkSat(m, i)
	}
	ex.unsup("lookup")
	return nil
}

func (ex *Exec) iteVal(c *Term, a, b Val) Val {
	if c.isTrue() {
		return a
	}
	if c.isFalse() {
		return b
	}
	switch x := a.(type) {
	case *Term:
		return mkIte(c, x, b.(*Term))
	case PtrV:
		y := b.(PtrV)
		return ex.mkPtr(mkIte(c, ex.toRef(x), ex.toRef(y)), x.Elem)
	case SliceV:
		y := b.(SliceV)
		return SliceV{mkIte(c, x.Arr, y.Arr), mkIte(c, x.Off, y.Off), mkIte(c, x.Len, y.Len), mkIte(c, x.Cap, y.Cap), x.Elem}
	case IfaceV:
		y := b.(IfaceV)
		return IfaceV{Tag: mkIte(c, x.Tag, y.Tag), Ref: mkIte(c, x.Ref, y.Ref), T: x.T}
	case MapV:
		return MapV{mkIte(c, x.Ref, b.(MapV).Ref), x.T}
	case FuncV:
		return FuncV{Ref: mkIte(c, ex.funcRef(x), ex.funcRef(b.(FuncV))), T: x.T}
	case StructV:
		y := b.(StructV)
		r := StructV{T: x.T}
		for i := range x.F {
			r.F = append(r.F, ex.iteVal(c, x.F[i], y.F[i]))
		}
		return r
	}
	ex.unsup("ite of %T", a)
	return nil
}

func rangeKey(v ssa.Value) string { return fmt.Sprintf("range:%p", v) }

func (ex *Exec) rangeRef(st *State, m MapV, x *ssa.Range) {
	ks := ex.keySort(m.T)
	rs := SArr(ks, SBool)
	it := ex.alloc(st)
	ex.rowSet(st, "RS:"+ks.key, it, mkConstArr(rs, mkFalse()))
	st.ghost[rangeKey(x)] = it
	st.ghost["range"] = it
	st.ghost[rangeKey(x)+"#dom"] = mkSelect(ex.comp(st, "MD:"+typeKey(m.T), SArr(SRef, rs)), m.Ref)
}

func (ex *Exec) next(st *State, x *ssa.Next) Val {
	if x.IsString {
		ex.unsup("range over string")
	}
	m := ex.val(st, x.Iter).(MapV)
	tk := typeKey(m.T)
	ok := born(mkFresh("mapok", SBool))
	k := born(mkFresh("mapkey", ex.keySort(m.T)))
	has := ex.leafGet(st, "MD:"+tk, []*Term{m.Ref, k}, SBool)
	st.assume(mkImp(ok, has))
	if it := st.ghost[rangeKey(x.Iter)]; it != nil {
		// every key is produced once, and all of them when the map is not changed meanwhile
		ks := k.S
		rs := SArr(ks, SBool)
		seen := mkSelect(ex.comp(st, "RS:"+ks.key, SArr(SRef, rs)), it)
		dom := mkSelect(ex.comp(st, "MD:"+tk, SArr(SRef, rs)), m.Ref)
		st.assume(mkImp(ok, mkBNot(mkSelect(seen, k))))
		if d0 := st.ghost[rangeKey(x.Iter)+"#dom"]; d0 == dom {
			q := mkBVar("k", ks)
			st.assume(mkImp(mkBNot(ok), mkForall([]*Term{q}, mkImp(mkSelect(dom, q), mkSelect(seen, q)), [][]*Term{{mkSelect(dom, q)}})))
		}
		ex.rowSet(st, "RS:"+ks.key, it, mkIte(ok, mkStore(seen, k, mkTrue()), seen))
	}
	v := ex.loadAt(st, "MV:"+tk, []*Term{m.Ref, k}, "", m.T.Elem(), st)
	return TupleV{ok, k, v}
}

// ------------------------------------------------------------ calls

func fnKey(f *ssa.Function) string {
	if f == nil {
		return ""
	}
	if o := f.Origin(); o != nil {
		f = o
	}
	name := f.Name()
	if f.Parent() != nil {
		return fnKey(f.Parent()) + "$" + name[strings.LastIndex(name, "$")+1:]
	}
	if r := f.Signature.Recv(); r != nil {
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if n, ok := types.Unalias(t).(*types.Named); ok {
			pk := ""
			if n.Obj().Pkg() != nil {
				pk = shortPkg(n.Obj().Pkg().Path()) + "."
			}
			return pk + n.Obj().Name() + "." + name
		}
		return typeKey(t) + "." + name
	}
	if f.Pkg != nil {
		return shortPkg(f.Pkg.Pkg.Path()) + "." + name
	}
	if f.Object() != nil && f.Object().Pkg() != nil {
		return shortPkg(f.Object().Pkg().Path()) + "." + name
	}
	return name
}

func methodKey(m *types.Func) string {
	sig := m.Type().(*types.Signature)
	t := sig.Recv().Type()
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := types.Unalias(t).(*types.Named); ok {
		pk := ""
		if n.Obj().Pkg() != nil {
			pk = shortPkg(n.Obj().Pkg().Path()) + "."
		}
		return pk + n.Obj().Name() + "." + m.Name()
	}
	return "?." + m.Name()
}

// callee evaluates function value and arguments of a call.
func (ex *Exec) callee(st *State, c *ssa.CallCommon) (Val, []Val) {
	var args []Val
	fn := ex.val(st, c.Value)
	for _, a := range c.Args {
		args = append(args, ex.val(st, a))
	}
	return fn, args
}

func (ex *Exec) doCall(st *State, at ssa.Instruction, c *ssa.CallCommon) []Outcome {
	fn, args := ex.callee(st, c)
	return ex.callWith(st, at, c, fn, args)
}

func one(st *State, res ...Val) []Outcome { return []Outcome{{kind: oReturn, st: st, res: res}} }

func (ex *Exec) callWith(st *State, at ssa.Instruction, c *ssa.CallCommon, fn Val, args []Val) []Outcome {
	if c.IsInvoke() {
		recv, ok := fn.(IfaceV)
		if !ok {
			ex.unsup("invoke on %T", fn)
		}
		return ex.invokeMethod(st, at, recv, c.Method, args, c.Signature())
	}
	switch f := fn.(type) {
	case *ssa.Builtin:
		return ex.builtin(st, at, f, c, args)
	case FuncV:
		if f.Fn != nil {
			return ex.callFn(st, at, f.Fn, args, f.Bind)
		}
		if u, ok := c.Value.(*ssa.UnOp); ok {
			if g, ok := u.X.(*ssa.Global); ok && g.Pkg != nil {
				// a package-level function variable under contract
				if fs := ex.spec.Funcs[shortPkg(g.Pkg.Pkg.Path())+"."+g.Name()]; fs != nil {
					return ex.callContract(st, at, fs, args, c.Signature())
				}
			}
		}
		tk := "type " + typeKey(f.T)
		ex.safe(st, "nil", mkBNot(mkEq(f.Ref, mkI(0, SRef))), at)
		if fs := ex.spec.Funcs[tk]; fs != nil {
			return ex.callContract(st, at, fs, append([]Val{f}, args...), c.Signature())
		}
		// all functions with a known identity
		ex.unsup("call of unknown function value of type %s", typeKey(f.T))
	}
	ex.unsup("call of %T", fn)
	return nil
}

func (ex *Exec) invokeMethod(st *State, at ssa.Instruction, recv IfaceV, method *types.Func, args []Val, sig *types.Signature) []Outcome {
	ex.safe(st, "nil", mkBNot(mkEq(recv.Tag, mkI(0, SInt))), at)
	// statically known dynamic type
	if t := ex.knownTag(st, recv.Tag); t != nil {
		recv.Tag = t
	}
	if recv.Tag.isConst() && recv.Tag.N.Sign() != 0 {
		dt := ex.lay.tagT[int(recv.Tag.N.Int64())]
		if m := ex.prog.lookupMethod(dt, method); m != nil {
			var rv Val = recv.Dyn
			if rv == nil {
				if _, isP := dt.Underlying().(*types.Pointer); isP {
					rv = ex.ptrOf(recv.Ref, dt)
				} else if isStruct(dt) {
					rv = ex.load(st, ex.mkPtr(recv.Ref, dt), st)
				}
			}
			if rv != nil && ex.canEnter(m) {
				return ex.callFn(st, at, m, append([]Val{rv}, args...), nil)
			}
		}
	}
	k := methodKey(method)
	if fs := ex.prog.specFor(ex.spec, k); fs != nil {
		return ex.callContract(st, at, fs, append([]Val{recv}, args...), sig)
	}
	if r, ok := ex.modelCall(st, at, k, append([]Val{recv}, args...), sig); ok {
		return r
	}
	ex.unsup("no contract for interface method %s", k)
	return nil
}

// knownTag: the constant an assumption makes a term (a dynamic type tag, a length) equal to.
func (ex *Exec) knownTag(st *State, tag *Term) *Term {
	if tag.isConst() {
		return tag
	}
	for i := len(st.pc) - 1; i >= 0; i-- {
		p := st.pc[i]
		if p.Op == "eq" && len(p.Args) == 2 {
			if p.Args[0] == tag && p.Args[1].isConst() {
				return p.Args[1]
			}
			if p.Args[1] == tag && p.Args[0].isConst() {
				return p.Args[0]
			}
		}
		// an implication whose hypothesis holds on this path
		if p.Op == "imp" {
			q := p.Args[1]
			cs := []*Term{q}
			if q.Op == "band" {
				cs = q.Args
			}
			for _, c := range cs {
				if c.Op == "eq" && len(c.Args) == 2 && (c.Args[0] == tag && c.Args[1].isConst() || c.Args[1] == tag && c.Args[0].isConst()) && holdsIn(st.pc, p.Args[0]) {
					if c.Args[0] == tag {
						return c.Args[1]
					}
					return c.Args[0]
				}
			}
		}
	}
	return nil
}

// holdsIn: every conjunct of a is among the assumptions (or their conjuncts)
func holdsIn(pc []*Term, a *Term) bool {
	if a.Op == "band" {
		for _, x := range a.Args {
			if !holdsIn(pc, x) {
				return false
			}
		}
		return true
	}
	for _, p := range pc {
		if p == a {
			return true
		}
		if p.Op == "band" {
			for _, x := range p.Args {
				if x == a {
					return true
				}
			}
		}
	}
	return false
}

// canEnter: contract, model or inlinable body exists for a static method.
func (ex *Exec) canEnter(f *ssa.Function) bool {
	k := fnKey(f)
	if ex.spec.Funcs[k] != nil || models[k] != nil {
		return true
	}
	return ex.inlinable(f)
}

func (ex *Exec) inlinable(f *ssa.Function) bool {
	if o := f.Origin(); o != nil && f.Blocks == nil {
		return false
	}
	if len(f.Blocks) == 0 {
		return false
	}
	if f.Synthetic != "" && f.Pkg == nil {
		return true // wrappers, thunks, bound methods
	}
	p := f.Pkg
	if p == nil && f.Parent() != nil {
		return ex.inlinable(f.Parent())
	}
	if p == nil {
		if f.Object() != nil && f.Object().Pkg() != nil {
			pp := f.Object().Pkg().Path()
			return strings.HasPrefix(pp, modPrefix) || inlineDeps[pp]
		}
		return false
	}
	pp := p.Pkg.Path()
	return strings.HasPrefix(pp, modPrefix) || inlineDeps[pp] || inlineFns[fnKey(f)]
}

var inlineDeps = map[string]bool{
	"github.com/bodgit/plumbing": true, "github.com/bodgit/windows": true, "slices": true, "cmp": true, "maps": true,
}
var inlineFns = map[string]bool{
	"io.NopCloser": true, "io.TeeReader": true, "io.MultiWriter": true, "io.multiWriter.Write": true, "math/bits.LeadingZeros8x": true,
	"strings.HasPrefix": true, "strings.HasSuffix": true, "strings.TrimPrefix": true, "strings.TrimSuffix": true,
	"internal/stringslite.HasPrefix": true, "internal/stringslite.HasSuffix": true, "internal/stringslite.TrimPrefix": true, "internal/stringslite.TrimSuffix": true,
	"io/fs.FileMode.IsDir": true, "io/fs.FileMode.Type": true, "io/fs.FileMode.IsRegular": true, "io/fs.FileMode.Perm": true,
}

func (ex *Exec) callFn(st *State, at ssa.Instruction, f *ssa.Function, args []Val, bind []Val) []Outcome {
	k := fnKey(f)
	if fs := ex.spec.Funcs[k]; fs != nil && !ex.fs.Inline[k] && !ex.fs.Inline[k[strings.LastIndex(k, ".")+1:]] {
		sig := f.Signature
		return ex.callContract(st, at, ex.variant(st, k, fs, args), args, sig)
	}
	if m := models[k]; m != nil {
		if r, ok := m(ex, st, at, args, f.Signature); ok {
			ex.used["model "+k] = true
			return r
		}
	}
	if !ex.inlinable(f) {
		ex.unsup("no contract for %s", k)
	}
	if st.fr != nil && st.fr.depth > 12 {
		ex.unsup("inlining too deep at %s", k)
	}
	for g := st.fr; g != nil; g = g.parent {
		if g.fn == f {
			ex.unsup("recursive inlining of %s", k)
		}
	}
	ex.inlined[k] = true
	chain := st.fr.chain + "/" + fmt.Sprintf("%s@%d.%d", st.fr.fn.Name(), blockIdx(at), instrIdx(at))
	caller := st.fr
	fr := ex.newFrame(f, caller, chain)
	fr.free = bind
	for i, p := range f.Params {
		fr.env[p] = args[i]
	}
	st.fr = fr
	nit := len(st.iters)
	outs := ex.runBlock(st, f.Blocks[0], nil, false)
	var res []Outcome
	for i, o := range outs {
		if o.kind != oReturn {
			ex.unsup("bad outcome from inlined %s", k)
		}
		o.st.iters = o.st.iters[:nit]
		if i == len(outs)-1 {
			o.st.fr = caller
		} else {
			o.st.fr = caller.clone()
		}
		res = append(res, o)
	}
	return res
}

// variant: a contract "f@T" stands for f when an interface argument is known to hold a T.
func (ex *Exec) variant(st *State, k string, fs *FuncSpec, args []Val) *FuncSpec {
	for _, a := range args {
		x, ok := a.(IfaceV)
		if !ok {
			continue
		}
		if t := ex.knownTag(st, x.Tag); t != nil && t.N.Sign() != 0 {
			if v := ex.spec.Funcs[k+"@"+strings.TrimPrefix(typeKey(ex.lay.tagT[int(t.N.Int64())]), "*")]; v != nil {
				return v
			}
		}
	}
	return fs
}

func blockIdx(in ssa.Instruction) int {
	if in == nil || in.Block() == nil {
		return -1
	}
	return in.Block().Index
}
func instrIdx(in ssa.Instruction) int {
	if in == nil || in.Block() == nil {
		return -1
	}
	for i, x := range in.Block().Instrs {
		if x == in {
			return i
		}
	}
	return -1
}

// ------------------------------------------------------------ contracts at call sites

func (ex *Exec) bindContract(fs *FuncSpec, args []Val, ctx *evalCtx) {
	if len(fs.Params) != len(args) {
		panic(specErr(fmt.Sprintf("contract %s: %d parameters declared, %d actual", fs.Key, len(fs.Params), len(args))))
	}
	for i, p := range fs.Params {
		ctx.env[p] = args[i]
	}
}

func (ex *Exec) specPkg(fs *FuncSpec) *types.Package { return ex.prog.pkgOfKey(fs.Key) }

func (ex *Exec) callContract(st *State, at ssa.Instruction, fs *FuncSpec, args []Val, sig *types.Signature) []Outcome {
	if fs.Extern || fs.Trusted != "" {
		ex.used["contract "+fs.Key] = true
	}
	c := ex.ctx(st, st)
	if p := ex.specPkg(fs); p != nil {
		c.pkg = p
	}
	ex.bindContract(fs, args, c)
	for i, r := range fs.Req {
		g := c.evalBool(r.E)
		lab := r.Label
		if lab == "" {
			lab = fmt.Sprintf("%s.pre%d", fs.Key, i)
		} else {
			lab = fs.Key + "." + lab
		}
		ex.emit(st, "pre", lab, r.Src, g, at)
		st.assume(g)
	}
	old := st.clone()
	// havoc
	if fs.ModAll {
		ex.unsup("modifies * at call site of %s", fs.Key)
	}
	for _, m := range fs.Mod {
		for _, ml := range ex.modLocs(c, m) {
			ex.havocLoc(st, ml, true)
		}
	}
	ex.newNext(st, "")
	var res []Val
	rt := sig.Results()
	c2 := ex.ctx(st, old)
	c2.pkg = c.pkg
	for k, v := range c.env {
		c2.env[k] = v
	}
	// definitional postconditions: res == expr(args, old)
	defs := map[string]*Expr{}
	for _, e := range fs.Ens {
		ex.findDefs(fs, e.E, defs)
	}
	for i := 0; i < rt.Len(); i++ {
		n := fmt.Sprintf("res%d", i)
		if i < len(fs.Results) {
			n = fs.Results[i]
		}
		res = append(res, ex.freshVal(st, "r_"+n, rt.At(i).Type()))
		c2.env[n] = res[i]
	}
	for i := 0; i < rt.Len() && i < len(fs.Results); i++ {
		if d := defs[fs.Results[i]]; d != nil {
			v := c2.eval(d)
			if t, ok := v.(*Term); ok {
				if rtm, ok := res[i].(*Term); ok {
					if t.S.isInt() && rtm.S.isInt() {
						if t.S.K == KInt && rtm.S.K == KNum {
							continue
						}
						t = mkConv(t, rtm.S)
					}
					if t.S == rtm.S {
						res[i] = t
						c2.env[fs.Results[i]] = t
					}
				}
			}
		}
	}
	for _, e := range fs.Ens {
		st.assume(c2.evalBool(e.E))
	}
	return one(st, res...)
}

// findDefs recognises top-level conjuncts of the form result == expression.
func (ex *Exec) findDefs(fs *FuncSpec, e *Expr, out map[string]*Expr) {
	if e.Op == "bin" && e.Name == "&&" {
		ex.findDefs(fs, e.Args[0], out)
		ex.findDefs(fs, e.Args[1], out)
		return
	}
	if e.Op != "bin" || e.Name != "==" || e.Args[0].Op != "id" {
		return
	}
	isRes := func(n string) bool {
		for _, r := range fs.Results {
			if r == n {
				return true
			}
		}
		return false
	}
	if !isRes(e.Args[0].Name) || out[e.Args[0].Name] != nil {
		return
	}
	used := false
	var walk func(x *Expr)
	walk = func(x *Expr) {
		if x.Op == "id" && isRes(x.Name) {
			used = true
		}
		for _, a := range x.Args {
			walk(a)
		}
	}
	walk(e.Args[1])
	if !used {
		out[e.Args[0].Name] = e.Args[1]
	}
}

// modLocs evaluates a modifies target.
func (ex *Exec) modLocs(c *evalCtx, e *Expr) []modLoc {
	switch {
	case e.Op == "call" && e.Name == "all":
		n := e.Args[0].Name
		if e.Args[0].Op == "str" {
			return []modLoc{{n, nil}}
		}
		return []modLoc{{"G:" + n, nil}}
	case e.Op == "call" && e.Name == "mem8":
		// the bytes of the byte array a reference names
		ex.regComp("M:uint8", SArr(SRef, SArr(SInt, SU8)))
		return []modLoc{{"M:uint8", c.toTerm(c.eval(e.Args[0]))}}
	case e.Op == "call" && e.Name == "smap":
		ex.regComp("SM#tag", SArr(SRef, SArr(SStr, SInt)))
		ex.regComp("SM#ref", SArr(SRef, SArr(SStr, SRef)))
		m := c.toTerm(c.eval(e.Args[0]))
		return []modLoc{{"SM#tag", m}, {"SM#ref", m}}
	case e.Op == "call" && e.Name == "elems":
		switch s := c.eval(e.Args[0]).(type) {
		case SliceV:
			var out []modLoc
			for _, lf := range ex.lay.leaves(s.Elem) {
				ex.regComp(ex.lay.elemBase(s.Elem)+lf.path, SArr(SRef, SArr(SInt, lf.sort)))
				out = append(out, modLoc{ex.lay.elemBase(s.Elem) + lf.path, s.Arr})
			}
			return out
		case MapV:
			tk := typeKey(s.T)
			ex.regComp("MD:"+tk, SArr(SRef, SArr(ex.keySort(s.T), SBool)))
			ex.regComp("ML:"+tk, SArr(SRef, SInt))
			for _, lf := range ex.lay.leaves(s.T.Elem()) {
				ex.regComp("MV:"+tk+lf.path, SArr(SRef, SArr(ex.keySort(s.T), lf.sort)))
			}
			out := []modLoc{{"MD:" + tk, s.Ref}, {"ML:" + tk, s.Ref}}
			for _, lf := range ex.lay.leaves(s.T.Elem()) {
				out = append(out, modLoc{"MV:" + tk + lf.path, s.Ref})
			}
			return out
		}
		c.fail(e, "elems of non-slice")
	case e.Op == "call" && e.Name == "objs":
		// every object of a struct type: objs("pkg.T")
		t := ex.prog.typeByKey(e.Args[0].Name)
		var out []modLoc
		for _, lf := range ex.lay.leaves(t) {
			ex.regComp("O:"+structKey(t)+lf.path, SArr(SRef, lf.sort))
			out = append(out, modLoc{"O:" + structKey(t) + lf.path, nil})
		}
		return out
	case e.Op == "call" && e.Name == "obj":
		p := c.eval(e.Args[0]).(PtrV)
		var out []modLoc
		for _, lf := range ex.lay.leaves(p.Elem) {
			ex.regComp(p.Base+p.Path+lf.path, nestSort(p.Keys, lf.sort))
			out = append(out, modLoc{p.Base + p.Path + lf.path, p.Keys[0]})
		}
		if s, ok := p.Elem.Underlying().(*types.Struct); ok {
			for i := 0; i < s.NumFields(); i++ {
				if isArr(s.Field(i).Type()) {
					q := ex.fieldAddr(p, i)
					a := q.Elem.Underlying().(*types.Array)
					for _, lf := range ex.lay.leaves(a.Elem()) {
						ex.regComp(ex.lay.elemBase(a.Elem())+lf.path, SArr(SRef, SArr(SInt, lf.sort)))
						out = append(out, modLoc{ex.lay.elemBase(a.Elem()) + lf.path, q.Keys[0]})
					}
				}
			}
		}
		return out
	case e.Op == "field":
		v := c.eval(e.Args[0])
		if _, ok := c.spec.Ghosts[e.Name]; ok {
			return []modLoc{{"G:" + e.Name, c.toTerm(v)}}
		}
		p, ok := v.(PtrV)
		if !ok {
			c.fail(e, "modifies target %T", v)
		}
		for _, i := range fieldPath(p.Elem, e.Name) {
			p = ex.fieldAddr(p, i)
		}
		if isArr(p.Elem) {
			a := p.Elem.Underlying().(*types.Array)
			var out []modLoc
			for _, lf := range ex.lay.leaves(a.Elem()) {
				ex.regComp(ex.lay.elemBase(a.Elem())+lf.path, SArr(SRef, SArr(SInt, lf.sort)))
				out = append(out, modLoc{ex.lay.elemBase(a.Elem()) + lf.path, p.Keys[0]})
			}
			return out
		}
		var key *Term
		if len(p.Keys) > 0 {
			key = p.Keys[0]
		}
		var out []modLoc
		for _, lf := range ex.lay.leaves(p.Elem) {
			ex.regComp(p.Base+p.Path+lf.path, nestSort(p.Keys, lf.sort))
			out = append(out, modLoc{p.Base + p.Path + lf.path, key})
		}
		return out
	case e.Op == "un" && e.Name == "*":
		p := c.eval(e.Args[0]).(PtrV)
		var out []modLoc
		for _, lf := range ex.lay.leaves(p.Elem) {
			var key *Term
			if len(p.Keys) > 0 {
				key = p.Keys[0]
			}
			ex.regComp(p.Base+p.Path+lf.path, nestSort(p.Keys, lf.sort))
			out = append(out, modLoc{p.Base + p.Path + lf.path, key})
		}
		return out
	case e.Op == "id":
		// global variable
		if c.pkg != nil {
			if v, ok := c.pkg.Scope().Lookup(e.Name).(*types.Var); ok {
				base := "V:" + shortPkg(c.pkg.Path()) + "." + e.Name
				var out []modLoc
				for _, lf := range ex.lay.leaves(v.Type()) {
					ex.regComp(base+lf.path, lf.sort)
					out = append(out, modLoc{base + lf.path, nil})
				}
				return out
			}
		}
	}
	c.fail(e, "bad modifies target")
	return nil
}

func (ex *Exec) regComp(name string, s *Sort) {
	if _, ok := ex.compSort[name]; !ok {
		ex.compSort[name] = s
	}
}

func (ex *Exec) sortOfComp(st *State, name string) *Sort {
	if t, ok := st.heap[name]; ok {
		return t.S
	}
	if s, ok := ex.compSort[name]; ok {
		return s
	}
	if strings.HasPrefix(name, "G:") {
		return SArr(SRef, ex.spec.Ghosts[name[2:]])
	}
	return nil
}

func (ex *Exec) havocLoc(st *State, m modLoc, check bool) {
	s := ex.sortOfComp(st, m.comp)
	if s == nil {
		panic(specErr("modifies target " + m.comp + " has unknown type; name a location of it first"))
	}
	cur := ex.comp(st, m.comp, s)
	if m.key == nil {
		if check {
			ex.checkWrite(st, m.comp, nil)
		}
		nv := born(mkFresh("hv:"+m.comp, s))
		st.heap[m.comp] = nv
		ex.logWrite(st, m.comp, nil)
		return
	}
	if check {
		ex.checkWrite(st, m.comp, []*Term{m.key})
	}
	nv := born(mkFresh("hv:"+m.comp, s.B))
	st.heap[m.comp] = mkStore(cur, m.key, nv)
	ex.logWrite(st, m.comp, []*Term{m.key})
}

// ------------------------------------------------------------ loops

type slot struct {
	name string
	hv   *Term
	get  func(*State) *Term
}

func flat(v Val, out *[]*Term) {
	switch x := v.(type) {
	case *Term:
		*out = append(*out, x)
	case PtrV:
		if x.Cell == nil && len(x.Keys) == 1 && x.Path == "" {
			*out = append(*out, x.Keys[0])
		} else {
			*out = append(*out, nil)
		}
	case SliceV:
		*out = append(*out, x.Arr, x.Off, x.Len, x.Cap)
	case IfaceV:
		*out = append(*out, x.Tag, x.Ref)
	case StructV:
		for _, f := range x.F {
			flat(f, out)
		}
	case MapV:
		*out = append(*out, x.Ref)
	case FuncV:
		*out = append(*out, x.Ref)
	case ArrV:
		*out = append(*out, x.Rows...)
	}
}

func flatOf(v Val) []*Term {
	var o []*Term
	flat(v, &o)
	return o
}

type loopMods struct {
	cells map[*Cell]bool
	refs  map[string]map[*Term]bool
	dyn   map[string]bool
	whole map[string]bool
}

func (m *loopMods) size() int {
	n := len(m.cells) + len(m.dyn) + len(m.whole)
	for _, r := range m.refs {
		n += len(r)
	}
	return n
}

func maxBirth(t *Term) int {
	m := 0
	vs := map[*Term]bool{}
	termVars(t, map[*Term]bool{}, vs)
	for v := range vs {
		b, ok := varBirth[v]
		if !ok {
			b = 1 << 60
		}
		if b > m {
			m = b
		}
	}
	return m
}

func (ex *Exec) runLoop(st *State, L *Loop, lc *loopCtx) []Outcome {
	key := fmt.Sprintf("%s#%d", st.fr.chain, L.header.Index)
	num := ex.loopNums[key]
	ls := ex.fs.Loops[num]
	outs := ex.loopOuts(st, L, lc, key, num, ls)
	var all []Outcome
	for _, o := range outs {
		switch o.kind {
		case oExit:
			all = append(all, ex.runBlock(o.st, o.to, lc, false)...)
		default:
			all = append(all, o)
		}
	}
	return all
}

func (ex *Exec) loopOuts(st *State, L *Loop, lc *loopCtx, key string, num int, ls *LoopSpec) []Outcome {
	if ls != nil && ls.Unroll > 0 {
		return ex.unrollLoop(st, L, ls.Unroll, false)
	}
	if ls == nil {
		if o, ok := ex.tryUnroll(st, L); ok {
			return o
		}
	}
	return ex.invLoop(st, L, key, num, ls)
}

func (ex *Exec) tryUnroll(st *State, L *Loop) (outs []Outcome, ok bool) {
	no, steps := len(ex.obls), ex.steps
	save := st.clone()
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(unrollFail); is {
				ex.obls = ex.obls[:no]
				ex.steps = steps
				*st = *save
				outs, ok = nil, false
				return
			}
			panic(r)
		}
	}()
	return ex.unrollLoop(st, L, 70, true), true
}

func (ex *Exec) unrollLoop(st *State, L *Loop, max int, strict bool) []Outcome {
	lc := &loopCtx{header: L.header, body: L.body, unroll: strict}
	for _, s := range L.header.Succs {
		lc.headExit = lc.headExit || !L.body[s]
	}
	var res []Outcome
	cur := []*State{st}
	for n := 0; len(cur) > 0; n++ {
		lc.rounds = n
		if n > max {
			if strict {
				panic(unrollFail{})
			}
			for _, s := range cur {
				if !ex.infeasible(s) {
					ex.emit(s, "unroll", fmt.Sprintf("loop bound %d", max), "", mkFalse(), L.header.Instrs[0])
				}
			}
			break
		}
		var nx []*State
		for _, s := range cur {
			if n > 0 && !strict && ex.infeasible(s) {
				continue
			}
			for _, o := range ex.runBlock(s, L.header, lc, true) {
				if o.kind == oBack {
					nx = append(nx, o.st)
				} else {
					res = append(res, o)
				}
			}
		}
		cur = nx
	}
	return res
}

func (ex *Exec) infeasible(st *State) bool {
	ex.nquery++
	q, err := buildQuery(ex.spec, ex.mode, st.pc, mkFalse(), 1, "", nil)
	if err != nil {
		return false
	}
	r := solve(q, 2*time.Second, 0)
	return r.status == "unsat"
}

func (ex *Exec) makeHeader(st0 *State, L *Loop, m *loopMods, key string, num int) (*State, *Term, []slot) {
	h := st0.clone()
	n0 := st0.next
	ex.newNext(h, "L")
	it := born(mkFresh("iter", SInt))
	h.iters = append(h.iters, &iterInfo{key: key, iter: it, start: st0, num: num, fr: st0.fr.id})
	h.assume(mkLe(mkI(0, SInt), it))
	var slots []slot
	cells := make([]*Cell, 0, len(m.cells))
	for c := range m.cells {
		cells = append(cells, c)
	}
	sort.Slice(cells, func(i, j int) bool { return cells[i].id < cells[j].id })
	for _, c := range cells {
		c := c
		nv := ex.havocLike(h, c.name, st0.cells[c])
		h.cells[c] = nv
		for k, t := range flatOf(nv) {
			if t == nil {
				continue
			}
			k := k
			slots = append(slots, slot{c.name, t, func(s *State) *Term {
				f := flatOf(s.cells[c])
				if k < len(f) {
					return f[k]
				}
				return nil
			}})
		}
	}
	names := map[string]bool{}
	for n := range m.refs {
		names[n] = true
	}
	for n := range m.dyn {
		names[n] = true
	}
	for n := range m.whole {
		names[n] = true
	}
	for _, n := range sortedKeys(names) {
		n := n
		s := ex.sortOfComp(st0, n)
		cur := ex.comp(h, n, s)
		if m.whole[n] {
			h.heap[n] = born(mkFresh("L:"+n, s))
			continue
		}
		refs := sortedTerms(m.refs[n])
		if m.dyn[n] {
			nv := born(mkFresh("L:"+n, s))
			if holdsRefs(s) {
				refBelow[nv] = frontierOrd[h.next]
			}
			h.heap[n] = nv
			// frame: rows of objects that existed before the loop and are not in refs
			r := mkBVar("r", SRef)
			g := []*Term{mkLt(r, n0), mkLt(mkMul(n0, mkI(-1024, SRef)), r)}
			for _, x := range refs {
				g = append(g, mkBNot(mkEq(r, x)))
			}
			fr := mkForall([]*Term{r}, mkImp(mkAnd(g...), mkEq(mkSelect(nv, r), mkSelect(cur, r))), [][]*Term{{mkSelect(nv, r)}})
			h.ghost["frame:"+key+":"+n] = fr
			h.assume(fr)
		} else {
			for _, x := range refs {
				nv := born(mkFresh("L:"+n, s.B))
				if holdsRefs(s.B) {
					refBelow[nv] = frontierOrd[h.next]
				}
				cur = mkStore(cur, x, nv)
				if s.B.K != KArr {
					x, s := x, s
					slots = append(slots, slot{n, nv, func(q *State) *Term { return mkSelect(ex.comp(q, n, s), x) }})
				}
			}
			h.heap[n] = cur
		}
	}
	return h, it, slots
}

func (ex *Exec) loopCtxEval(st *State, header *State, ls *LoopSpec, fr int, it *Term) *evalCtx {
	c := ex.ctx(st, ex.entry)
	c.prev = header
	var vars []Param
	if ls != nil {
		vars = ls.Vars
	}
	c.lookup = func(name string, which int) (Val, bool) {
		s := st
		if which == 1 {
			if v, ok := ex.entryEnv[name]; ok {
				return v, true
			}
			s = ex.entry
		}
		if which == 2 {
			s = header
		}
		if name == "$i" {
			if which == 2 {
				return header.iters[len(header.iters)-1].iter, true
			}
			return it, true
		}
		if strings.HasPrefix(name, "$i") {
			for _, x := range st.iters {
				if fmt.Sprintf("$i%d", x.num) == name {
					return x.iter, true
				}
			}
		}
		if v, ok := ex.findLocal(s, st.fr, name); ok {
			return v, true
		}
		for _, v := range vars {
			if v.Name == name {
				if x, ok := ex.findByType(s, st.fr, v.Type); ok {
					return x, true
				}
			}
		}
		if v, ok := ex.entryEnv[name]; ok {
			return v, true
		}
		return nil, false
	}
	return c
}

// findLocal finds a local variable by name, innermost frame first.
func (ex *Exec) findLocal(s *State, fr *Frame, name string) (Val, bool) {
	for f := fr; f != nil; f = f.parent {
		for i := len(f.allocs) - 1; i >= 0; i-- {
			c := f.allocs[i]
			if c.name == name {
				if v, ok := s.cells[c]; ok {
					return v, true
				}
			}
		}
		for i := len(f.heapv) - 1; i >= 0; i-- {
			h := f.heapv[i]
			if h.name == name {
				if isArr(h.v.Elem) || ex.lay.isOpaque(h.v.Elem) {
					return h.v, true
				}
				return h.v, true
			}
		}
	}
	return nil, false
}

func (ex *Exec) findByType(s *State, fr *Frame, ty string) (Val, bool) {
	for f := fr; f != nil; f = f.parent {
		for i := len(f.allocs) - 1; i >= 0; i-- {
			c := f.allocs[i]
			if typeKey(c.T) == ty {
				if v, ok := s.cells[c]; ok {
					return v, true
				}
			}
		}
		for i := len(f.heapv) - 1; i >= 0; i-- {
			if typeKey(f.heapv[i].v.Elem) == ty {
				return f.heapv[i].v, true
			}
		}
	}
	return nil, false
}

func (ex *Exec) invLoop(st0 *State, L *Loop, key string, num int, ls *LoopSpec) []Outcome {
	at := L.header.Instrs[0]
	birth0 := birthCnt
	lc := &loopCtx{header: L.header, body: L.body}
	zero := mkI(0, SInt)
	label := func(c Clause, i int) string {
		if c.Label != "" {
			return fmt.Sprintf("loop%d.%s", num, c.Label)
		}
		return fmt.Sprintf("loop%d.inv%d", num, i)
	}
	// user invariants hold on entry
	if ls != nil {
		e := st0
		e.iters = append(e.iters, &iterInfo{key: key, iter: zero, start: st0, num: num, fr: st0.fr.id})
		c := ex.loopCtxEval(e, e, ls, st0.fr.id, zero)
		for _, u := range ls.Uses {
			st0.assume(ex.useLemma(c, u))
		}
		for i, inv := range ls.Inv {
			ex.emit(st0, "inv-init", label(inv, i), inv.Src, c.evalBool(inv.E), at)
		}
		e.iters = e.iters[:len(e.iters)-1]
	}
	assumeInv := func(h *State, it *Term) {
		if ls == nil {
			return
		}
		c := ex.loopCtxEval(h, h, ls, h.fr.id, it)
		for _, inv := range ls.Inv {
			h.assume(c.evalBool(inv.E))
		}
		for _, u := range ls.Uses {
			h.assume(ex.useLemma(c, u))
		}
	}
	m := &loopMods{cells: map[*Cell]bool{}, refs: map[string]map[*Term]bool{}, dyn: map[string]bool{}, whole: map[string]bool{}}
	for round := 0; ; round++ {
		if round > 8 {
			ex.unsup("modified set of loop %s does not stabilise", key)
		}
		h, it, _ := ex.makeHeader(st0, L, m, key, num)
		assumeInv(h, it)
		log := newLog()
		ex.logs = append(ex.logs, log)
		ex.quiet++
		ex.dry++
		ex.runBlock(h, L.header, lc, true)
		ex.quiet--
		ex.dry--
		ex.logs = ex.logs[:len(ex.logs)-1]
		before := m.size()
		loopFresh := map[string]bool{}
		for _, w := range log.dyn {
			if m.whole[w.comp] || maxBirth(w.ref) <= birth0 {
				continue
			}
			k := fmt.Sprintf("%s@%d", w.comp, w.ref.id)
			if loopFresh[k] {
				continue
			}
			loopFresh[k] = true
			// a reference computed inside the loop: must be an object allocated since the loop began
			if !ex.provenFresh(st0, w.ref, w.pc) {
				m.whole[w.comp] = true
			}
		}
		for c := range log.cells {
			if _, ok := st0.cells[c]; ok {
				m.cells[c] = true
			}
		}
		for n := range log.whole {
			m.whole[n] = true
		}
		for n, rs := range log.comps {
			for r := range rs {
				if maxBirth(r) <= birth0 {
					if m.refs[n] == nil {
						m.refs[n] = map[*Term]bool{}
					}
					m.refs[n][r] = true
				} else {
					m.dyn[n] = true
				}
			}
		}
		if m.size() == before && round > 0 {
			break
		}
	}
	hb, it, slots := ex.makeHeader(st0, L, m, key, num)
	assumeInv(hb, it)

	// candidate invariants
	var cands []*Term
	if ex.dry == 0 {
		cands = ex.candidates(st0, hb, it, slots, L, lc, ls)
	}
	// final pass
	h := hb.clone()
	for _, cd := range cands {
		h.assume(cd)
	}
	pre := h.clone()
	flog := newLog()
	if ex.dry == 0 {
		ex.logs = append(ex.logs, flog)
	}
	outs := ex.runBlock(h, L.header, lc, true)
	if ex.dry == 0 {
		ex.logs = ex.logs[:len(ex.logs)-1]
		// the frame assumed at the loop head: every write goes to a listed
		// reference or to an object allocated since the loop was entered
		seen := map[string]bool{}
		for _, w := range flog.dyn {
			if m.whole[w.comp] || m.refs[w.comp][w.ref] {
				continue
			}
			k := fmt.Sprintf("%s@%d", w.comp, w.ref.id)
			if seen[k] {
				continue
			}
			seen[k] = true
			g := ex.freshRef(st0, w.ref)
			if !m.dyn[w.comp] {
				g = mkFalse()
			}
			if g.isTrue() {
				continue
			}
			for _, x := range sortedTerms(m.refs[w.comp]) {
				g = mkOr(g, mkEq(w.ref, x))
			}
			ws := &State{pc: w.pc, pcset: map[*Term]bool{}}
			ex.emit(ws, "frame", "loop "+w.comp, "loop writes only listed or new objects", g, at)
		}
		for c := range flog.cells {
			if _, ok := st0.cells[c]; ok && !m.cells[c] {
				ex.unsup("loop modifies an unlisted variable %s", c.name)
			}
		}
		for c := range flog.whole {
			if !m.whole[c] {
				ex.unsup("loop modifies unlisted component %s", c)
			}
		}
	}
	var res []Outcome
	for _, o := range outs {
		if o.kind != oBack {
			if n := len(st0.iters); len(o.st.iters) > n {
				o.st.iters = o.st.iters[:n]
			}
			res = append(res, o)
			continue
		}
		if ls == nil {
			continue
		}
		nit := mkAdd(it, mkI(1, SInt))
		b := o.st
		b.iters = append(b.iters[:len(b.iters)-1:len(b.iters)-1], &iterInfo{key: key, iter: nit, start: st0, num: num, fr: b.fr.id})
		c := ex.loopCtxEval(b, pre, ls, b.fr.id, nit)
		for _, u := range ls.Uses {
			b.assume(ex.useLemma(c, u))
		}
		for i, s := range ls.Step {
			g := c.evalBool(s.E)
			lab := s.Label
			if lab == "" {
				lab = fmt.Sprintf("step%d", i)
			}
			ex.emit(b, "step", fmt.Sprintf("loop%d.%s", num, lab), s.Src, g, at)
			b.assume(g)
		}
		for i, inv := range ls.Inv {
			ex.emit(b, "inv-keep", label(inv, i), inv.Src, c.evalBool(inv.E), at)
		}
		if ls.Dec != nil {
			d1 := c.evalInt(ls.Dec)
			c0 := ex.loopCtxEval(pre, pre, ls, b.fr.id, it)
			d0 := c0.evalInt(ls.Dec)
			ex.emit(b, "decreases", fmt.Sprintf("loop%d", num), "", mkAnd(mkLe(zero, d0), mkLt(d1, d0)), at)
		}
	}
	return res
}

// provenFresh: the object was allocated after st0.
func (ex *Exec) provenFresh(st0 *State, r *Term, pc []*Term) bool {
	g := ex.freshRef(st0, r)
	if g.isTrue() {
		return true
	}
	if g.isFalse() {
		return false
	}
	q, err := buildQuery(ex.spec, ex.mode, pc, g, 1, "", nil)
	ex.nquery++
	return err == nil && solve(q, 1500*time.Millisecond, 0).status == "unsat"
}

func (ex *Exec) useLemma(c *evalCtx, u Clause) *Term {
	e := u.E
	if e.Op == "bin" && e.Name == "==>" {
		g := c.evalBool(e.Args[0])
		return mkImp(g, ex.useLemma(c, Clause{E: e.Args[1]}))
	}
	if e.Op == "forall" {
		n := c
		var vs []*Term
		for _, p := range e.Vars {
			b := mkBVar(p.Name, c.spec.sortOf(p.Type))
			vs = append(vs, b)
			n = n.bind(p.Name, b)
		}
		var pats [][]*Term
		for _, p := range e.Pats {
			var ps []*Term
			for _, x := range p {
				ps = append(ps, c.patTerm(n, x))
			}
			pats = append(pats, ps)
		}
		return mkForall(vs, ex.useLemma(n, Clause{E: e.Args[0]}), pats)
	}
	if e.Op != "call" {
		c.fail(e, "use expects a lemma application")
	}
	l := c.spec.Lemmas[e.Name]
	if l == nil {
		c.fail(e, "unknown lemma %s", e.Name)
	}
	if len(l.Params) != len(e.Args) {
		c.fail(e, "arity of lemma %s", e.Name)
	}
	ex.lemmas[e.Name] = true
	return l.Instance(c, e.Args)
}

var dbg = os.Getenv("GV_DEBUG") != ""

// candidates proposes and filters loop invariants (Houdini).
func (ex *Exec) candidates(st0, hb *State, it *Term, slots []slot, L *Loop, lc *loopCtx, ls *LoopSpec) []*Term {
	ex.quiet++
	defer func() { ex.quiet-- }()
	run := func(h *State) []*State {
		var bs []*State
		for _, o := range ex.runBlock(h, L.header, lc, true) {
			if o.kind == oBack {
				bs = append(bs, o.st)
			}
		}
		return bs
	}
	ex.dry++
	backs := run(hb.clone())
	ex.dry--
	if len(backs) == 0 {
		return nil
	}
	var cands []*Term
	seen := map[*Term]bool{}
	add := func(t *Term) {
		if t == nil || t.isTrue() || t.isFalse() || seen[t] {
			return
		}
		seen[t] = true
		cands = append(cands, t)
	}
	hvset := map[*Term]bool{it: true}
	for _, s := range slots {
		hvset[s.hv] = true
	}
	for _, s := range slots {
		v0 := s.get(st0)
		if v0 == nil {
			continue
		}
		if s.hv.S.isInt() && s.hv.S.K != KRef {
			var delta *big.Int
			same := true
			for _, b := range backs {
				v := s.get(b)
				if v == nil {
					same = false
					break
				}
				bb, cc := splitAdd(v)
				if bb != s.hv || (delta != nil && delta.Cmp(cc) != 0) {
					same = false
					break
				}
				delta = cc
			}
			if same && delta != nil {
				d := delta
				if s.hv.S.K == KNum && !s.hv.S.Sg && d.Cmp(pow2(s.hv.S.W-1)) > 0 {
					d = new(big.Int).Sub(d, pow2(s.hv.S.W))
				}
				if ex.mode == ModeBV {
					add(mkEq(s.hv, mkAdd(v0, mkMul(mkConv(it, s.hv.S), mkConst(d, s.hv.S)))))
				}
				if ex.mode == ModeInt || s.hv.S.K == KInt {
					add(mkEq(mkConv(s.hv, SInt), mkAdd(mkConv(v0, SInt), mkMul(it, mkConst(d, SInt)))))
				}
				if ex.mode == ModeBV && s.hv.S == SI64 {
					add(mkEq(mkConv(s.hv, SInt), mkAdd(mkConv(v0, SInt), mkMul(it, mkConst(d, SInt)))))
				}
				add(mkLe(v0, s.hv))
			} else {
				add(mkEq(s.hv, v0))
				add(mkLe(v0, s.hv))
				add(mkLe(s.hv, v0))
			}
			if s.hv.S.K == KNum && s.hv.S.Sg {
				add(mkLe(mkI(0, s.hv.S), s.hv))
			}
		} else {
			add(mkEq(s.hv, v0))
			if s.hv.S.K == KRef {
				add(mkBNot(mkEq(s.hv, mkI(0, SRef))))
				add(ex.freshRef(ex.entry, s.hv))
				add(mkOr(mkEq(s.hv, v0), ex.freshRef(st0, s.hv)))
			}
		}
	}
	// atoms from the path conditions
	npc := len(hb.pc)
	ok := func(t *Term) bool {
		vs := map[*Term]bool{}
		termVars(t, map[*Term]bool{}, vs)
		for v := range vs {
			if varBirth[v] > 0 && !hvset[v] {
				if b, k := varBirth[v]; !k || b > varBirth[it]-0 && !hvset[v] {
					return false
				}
			}
			if _, k := varBirth[v]; !k && v.Op == "var" && !strings.HasPrefix(v.Name, "zero:") {
				return false
			}
		}
		for v := range vs {
			if hvset[v] {
				return true
			}
		}
		return false
	}
	atomCount := 0
	for _, b := range backs {
		sig, sig2 := map[*Term]*Term{}, map[*Term]*Term{}
		for _, s := range slots {
			v := s.get(b)
			if v != nil && v != s.hv && !v.isConst() {
				if _, dup := sig[v]; !dup {
					sig[v] = s.hv
				}
				sig2[v] = s.hv
			}
		}
		if npc > len(b.pc) {
			continue
		}
		for _, a := range b.pc[npc:] {
			switch a.Op {
			case "lt", "le", "eq", "bnot":
			default:
				continue
			}
			if a.fb || atomCount > 60 {
				continue
			}
			for _, m := range []map[*Term]*Term{sig, sig2} {
				if g := subst(a, m); ok(g) && !seen[g] {
					add(g)
					atomCount++
				}
			}
			if a.Op == "lt" && ok(a) {
				add(mkLe(a.Args[0], a.Args[1]))
				atomCount++
			}
		}
	}
	// entry filter
	entryMap := func(s *State, itv *Term) map[*Term]*Term {
		mp := map[*Term]*Term{it: itv}
		for _, sl := range slots {
			if v := sl.get(s); v != nil {
				mp[sl.hv] = v
			}
		}
		return mp
	}
	m0 := entryMap(st0, mkI(0, SInt))
	if dbg {
		fmt.Fprintf(os.Stderr, "  [%s] loop cands: %d backs %d\n", ex.fs.Key, len(cands), len(backs))
	}
	cands = ex.filter(st0.pc, cands, m0)
	for round := 0; round < 12 && len(cands) > 0; round++ {
		h := hb.clone()
		for _, c := range cands {
			h.assume(c)
		}
		if round > 0 || ex.hasInner(L) {
			backs = run(h)
		} else {
			// same back edges, with the candidates added
			var nb []*State
			for _, b := range backs {
				x := b.clone()
				for _, c := range cands {
					x.assume(c)
				}
				nb = append(nb, x)
			}
			backs = nb
			if len(cands) > 0 {
				backs = run(h)
			}
		}
		n := len(cands)
		for _, b := range backs {
			mp := entryMap(b, mkAdd(it, mkI(1, SInt)))
			cands = ex.filter(b.pc, cands, mp)
		}
		if len(cands) == n {
			break
		}
	}
	if dbg {
		for _, c := range cands {
			fmt.Fprintf(os.Stderr, "    cand %s\n", c)
		}
	}
	return cands
}

func (ex *Exec) hasInner(L *Loop) bool { return true }

// filter keeps the candidates provable under pc after substitution.
func (ex *Exec) filter(pc []*Term, cands []*Term, mp map[*Term]*Term) []*Term {
	var insts []*Term
	for _, c := range cands {
		insts = append(insts, subst(c, mp))
	}
	pcset := map[*Term]bool{}
	for _, p := range pc {
		pcset[p] = true
	}
	keep := make([]bool, len(cands))
	var todo []int
	for i, t := range insts {
		if t.isTrue() || pcset[t] {
			keep[i] = true
			continue
		}
		if t.isFalse() {
			continue
		}
		todo = append(todo, i)
	}
	if len(todo) > 0 {
		// all at once first
		var cs []*Term
		for _, i := range todo {
			cs = append(cs, insts[i])
		}
		lq := buildLight(ex.spec, ex.mode, pc, mkAnd(cs...), 1, "")
		q, err := buildQuery(ex.spec, ex.mode, pc, mkAnd(cs...), 1, "", nil)
		ex.houdini++
		if lq != "" && solve(lq, 1000*time.Millisecond, 0).status == "unsat" || err == nil && solve(q, 1500*time.Millisecond, 0).status == "unsat" {
			for _, i := range todo {
				keep[i] = true
			}
		} else {
			qs := make([]string, len(todo))
			lqs := make([]string, len(todo))
			for k, i := range todo {
				lqs[k] = buildLight(ex.spec, ex.mode, pc, insts[i], 1, "")
				qs[k], err = buildQuery(ex.spec, ex.mode, pc, insts[i], 1, "", nil)
				if err != nil {
					qs[k] = ""
				}
			}
			type rr struct {
				k  int
				ok bool
			}
			ch := make(chan rr)
			sem := make(chan bool, 8)
			for k := range todo {
				k := k
				go func() {
					sem <- true
					ok := lqs[k] != "" && solve(lqs[k], 700*time.Millisecond, 0).status == "unsat" || qs[k] != "" && solve(qs[k], 1200*time.Millisecond, 0).status == "unsat"
					<-sem
					ch <- rr{k, ok}
				}()
			}
			for range todo {
				r := <-ch
				keep[todo[r.k]] = r.ok
			}
			ex.houdini += len(todo)
		}
	}
	var out []*Term
	for i, c := range cands {
		if keep[i] {
			out = append(out, c)
		}
	}
	return out
}
