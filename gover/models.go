package main

// Built-in functions and the few library functions that need more than a contract.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type model func(ex *Exec, st *State, at ssa.Instruction, args []Val, sig *types.Signature) ([]Outcome, bool)

var models map[string]model

func init() {
	models = map[string]model{
		"errors.New": func(ex *Exec, st *State, at ssa.Instruction, a []Val, sig *types.Signature) ([]Outcome, bool) {
			return one(st, ex.newErr(st, nil)), true
		},
		"fmt.Errorf": mErrorf,
		"errors.Is": func(ex *Exec, st *State, at ssa.Instruction, a []Val, sig *types.Signature) ([]Outcome, bool) {
			return one(st, ex.isErr(a[0].(IfaceV), a[1].(IfaceV))), true
		},
		"errors.Join":                         mJoin,
		"fmt.Sprintf":                         mSprintf,
		"encoding/binary.Read":                mBinRead,
		"encoding/binary.Write":               mBinWrite,
		"encoding/binary.littleEndian.Uint16": mUint(2, true), "encoding/binary.littleEndian.Uint32": mUint(4, true), "encoding/binary.littleEndian.Uint64": mUint(8, true),
		"encoding/binary.bigEndian.Uint16": mUint(2, false), "encoding/binary.bigEndian.Uint32": mUint(4, false), "encoding/binary.bigEndian.Uint64": mUint(8, false),
		"encoding/binary.littleEndian.PutUint16": mPut(2, true), "encoding/binary.littleEndian.PutUint32": mPut(4, true), "encoding/binary.littleEndian.PutUint64": mPut(8, true),
		"encoding/binary.bigEndian.PutUint16": mPut(2, false), "encoding/binary.bigEndian.PutUint32": mPut(4, false), "encoding/binary.bigEndian.PutUint64": mPut(8, false),
		"encoding/binary.Size":    mBinSize,
		"math/bits.LeadingZeros8": mLZ8,
		"runtime.NumCPU":          mNumCPU,
		"sync/atomic.AddUint64":   mAtomicAdd,
		"sync/atomic.LoadUint64":  mAtomicLoad,
		"runtime.SetFinalizer":    mNop,
		"runtime.KeepAlive":       mNop,
		"runtime.GC":              mNop,
		"sort.Search":             mSearch,
		"sort.Slice":              mSortSlice,
		"slices.Reverse":          nil,
		"sync.Once.Do":            mOnceDo,
		"bytes.Equal":             mBytesEqual,
		"sync.Map.Load":           mSyncLoad,
		"sync.Map.Store":          mSyncStore,
	}
	for k, v := range models {
		if v == nil {
			delete(models, k)
		}
	}
}

// sync.Map with string keys: two arrays from the map and the key to the type
// tag (0: absent) and the reference of the value.
func (ex *Exec) syncMap(st *State) (tag, ref *Term) {
	return ex.comp(st, "SM#tag", SArr(SRef, SArr(SStr, SInt))), ex.comp(st, "SM#ref", SArr(SRef, SArr(SStr, SRef)))
}

func (ex *Exec) syncKey(v Val) *Term {
	if k, ok := v.(IfaceV); ok {
		if t, ok := k.Dyn.(*Term); ok && t.S == SStr && typeKey(k.DynT) == "string" {
			return t
		}
	}
	ex.unsup("sync.Map key")
	return nil
}

func mSyncLoad(ex *Exec, st *State, at ssa.Instruction, a []Val, sig *types.Signature) ([]Outcome, bool) {
	m, k := ex.toRef(a[0].(PtrV)), ex.syncKey(a[1])
	tg, rf := ex.syncMap(st)
	t := mkSelect(mkSelect(tg, m), k)
	v := IfaceV{Tag: t, Ref: mkSelect(mkSelect(rf, m), k), T: sig.Results().At(0).Type()}
	return one(st, v, mkBNot(mkEq(t, mkI(0, SInt)))), true
}

func mSyncStore(ex *Exec, st *State, at ssa.Instruction, a []Val, sig *types.Signature) ([]Outcome, bool) {
	m, k, v := ex.toRef(a[0].(PtrV)), ex.syncKey(a[1]), a[2].(IfaceV)
	ex.syncMap(st)
	ex.leafSet(st, "SM#tag", []*Term{m, k}, v.Tag)
	ex.leafSet(st, "SM#ref", []*Term{m, k}, v.Ref)
	return one(st), true
}

func mNop(ex *Exec, st *State, at ssa.Instruction, a []Val, sig *types.Signature) ([]Outcome, bool) {
	return one(st), true
}

func mNumCPU(ex *Exec, st *State, at ssa.Instruction, a []Val, sig *types.Signature) ([]Outcome, bool) {
	n := born(mkFresh("ncpu", SI64))
	st.assume(mkLe(mkI(1, SI64), n))
	st.assume(mkLe(n, mkI(1<<20, SI64)))
	return one(st, n), true
}

func (ex *Exec) modelCall(st *State, at ssa.Instruction, k string, args []Val, sig *types.Signature) ([]Outcome, bool) {
	if m := models["I "+k]; m != nil {
		return m(ex, st, at, args, sig)
	}
	return nil, false
}

// ---------------------------------------------------------------- errors

func (ex *Exec) errTag(n string) *Term {
	if t := ex.prog.typeByKey(n); t != nil {
		return mkI(int64(ex.lay.tagOf(types.NewPointer(t))), SInt)
	}
	return mkI(int64(ex.lay.tagOf(types.Universe.Lookup("error").Type())), SInt)
}

func errT() types.Type { return types.Universe.Lookup("error").Type() }

// newErr makes a fresh non-nil error wrapping the given ones.
func (ex *Exec) newErr(st *State, wraps []IfaceV) IfaceV {
	r := ex.alloc(st)
	e := IfaceV{Tag: ex.errTag("errors.errorString"), Ref: r, T: errT()}
	if len(wraps) > 0 {
		e.Tag = ex.errTag("fmt.wrapError")
	}
	y := mkBVar("y", SRef)
	alts := []*Term{mkEq(y, r)}
	for _, w := range wraps {
		alts = append(alts, mkAnd(mkBNot(mkEq(w.Tag, mkI(0, SInt))), ex.errIsT(w.Ref, y)))
	}
	app := mkApp("errIs", SBool, r, y)
	st.assume(mkForall([]*Term{y}, mkEq(app, mkOr(alts...)), [][]*Term{{app}}))
	return e
}

// errIsT: does the error object x match target object y.
func (ex *Exec) errIsT(x, y *Term) *Term {
	if x == y {
		return mkTrue()
	}
	if sentinelRefs[x] {
		return mkEq(x, y)
	}
	return mkOr(mkEq(x, y), mkApp("errIs", SBool, x, y))
}

var sentinelRefs = map[*Term]bool{}

func (ex *Exec) isErr(x, y IfaceV) *Term {
	z := mkI(0, SInt)
	return mkIte(mkEq(x.Tag, z), mkEq(y.Tag, z), mkAnd(mkBNot(mkEq(y.Tag, z)), ex.errIsT(x.Ref, y.Ref)))
}

// globalConst gives the value of package-level error sentinels, which are
// created once by errors.New and never assigned again.
func (ex *Exec) globalConst(base string) (Val, bool) {
	if ex.prog.mutGlb[base] {
		return nil, false
	}
	k := strings.TrimPrefix(base, "V:")
	i := strings.LastIndex(k, ".")
	p := ex.prog.pkgPath(k[:i])
	if p == nil {
		return nil, false
	}
	g, ok := p.Members[k[i+1:]].(*ssa.Global)
	if !ok {
		return nil, false
	}
	t := g.Type().(*types.Pointer).Elem()
	if types.Identical(t, errT()) {
		r := mkI(int64(-ex.lay.deriv("global "+base)), SRef)
		sentinelRefs[r] = true
		return IfaceV{Tag: ex.errTag("errors.errorString"), Ref: r, T: t}, true
	}
	if v, ok := ex.constGlobal(g); ok {
		return v, ok
	}
	return nil, false
}

// constGlobal: value of a global initialised once with a constant.
func (ex *Exec) constGlobal(g *ssa.Global) (Val, bool) {
	t := g.Type().(*types.Pointer).Elem()
	if _, ok := t.Underlying().(*types.Basic); !ok || g.Pkg == nil || g.Pkg.Func("init") == nil {
		return nil, false
	}
	var val Val
	n := 0
	for _, b := range g.Pkg.Func("init").Blocks {
		for _, in := range b.Instrs {
			if s, ok := in.(*ssa.Store); ok && s.Addr == g {
				n++
				if c, ok := s.Val.(*ssa.Const); ok {
					val = ex.constVal(c)
				}
			}
		}
	}
	if n == 1 && val != nil && strings.HasPrefix(g.Pkg.Pkg.Path(), modPrefix) {
		return val, true
	}
	return nil, false
}

func (p *Prog) pkgPath(short string) *ssa.Package {
	if short == "sevenzip" {
		return p.byPath[modPrefix]
	}
	if q, ok := p.byPath[short]; ok {
		return q
	}
	for path, q := range p.byPath {
		if shortPkg(path) == short {
			return q
		}
	}
	return nil
}

// variadic returns the interface values of a variadic argument of constant length.
func (ex *Exec) variadic(st *State, v Val) ([]IfaceV, bool) {
	s, ok := v.(SliceV)
	if !ok || !s.Len.isConst() {
		return nil, false
	}
	var out []IfaceV
	for i := int64(0); i < s.Len.N.Int64(); i++ {
		out = append(out, ex.loadAt(st, ex.lay.elemBase(s.Elem), []*Term{s.Arr, mkAdd(s.Off, mkI(i, SInt))}, "", s.Elem, nil).(IfaceV))
	}
	return out, true
}

func mErrorf(ex *Exec, st *State, at ssa.Instruction, a []Val, sig *types.Signature) ([]Outcome, bool) {
	f, ok := a[0].(*Term)
	vs, ok2 := ex.variadic(st, a[1])
	if !ok || f.Op != "strc" || !ok2 {
		return one(st, ex.newErr(st, nil)), true
	}
	var wraps []IfaceV
	k := 0
	s := f.Name
	for i := 0; i < len(s); i++ {
		if s[i] != '%' {
			continue
		}
		i++
		for i < len(s) && strings.IndexByte("+-# 0123456789.", s[i]) >= 0 {
			i++
		}
		if i >= len(s) {
			break
		}
		if s[i] == '%' {
			continue
		}
		if s[i] == 'w' && k < len(vs) {
			wraps = append(wraps, vs[k])
		}
		k++
	}
	return one(st, ex.newErr(st, wraps)), true
}

func mJoin(ex *Exec, st *State, at ssa.Instruction, a []Val, sig *types.Signature) ([]Outcome, bool) {
	z := mkI(0, SInt)
	if vs, ok := ex.variadic(st, a[0]); ok {
		var nn []*Term
		for _, v := range vs {
			nn = append(nn, mkBNot(mkEq(v.Tag, z)))
		}
		any := mkOr(nn...)
		if any.isFalse() {
			return one(st, ex.zero(errT())), true
		}
		e := ex.newErr(st, vs)
		return one(st, ex.iteVal(any, e, ex.zero(errT()))), true
	}
	s := a[0].(SliceV)
	e := ex.freshVal(st, "joined", errT()).(IfaceV)
	i := mkBVar("i", SInt)
	tags := mkSelect(ex.comp(st, "M:iface#tag", SArr(SRef, SArr(SInt, SInt))), s.Arr)
	el := mkSelect(tags, mkAdd(s.Off, i))
	st.assume(mkEq(mkEq(e.Tag, z), mkForall([]*Term{i}, mkImp(mkAnd(mkLe(z, i), mkLt(i, s.Len)), mkEq(el, z)), [][]*Term{{el}})))
	return one(st, e), true
}

func mSprintf(ex *Exec, st *State, at ssa.Instruction, a []Val, sig *types.Signature) ([]Outcome, bool) {
	f, ok := a[0].(*Term)
	vs, ok2 := ex.variadic(st, a[1])
	if !ok || f.Op != "strc" || !ok2 {
		return one(st, ex.freshVal(st, "sprintf", types.Typ[types.String])), true
	}
	var as []*Term
	for _, v := range vs {
		as = append(as, v.Ref)
	}
	return one(st, mkApp("sprintf:"+f.Name, SStr, as...)), true
}

// ---------------------------------------------------------------- binary

func (ex *Exec) leTerm(row, off *Term, n int, le bool) *Term {
	s := SNum(n*8, false)
	nm := fmt.Sprintf("le%d", n*8)
	if !le {
		nm = fmt.Sprintf("be%d", n*8)
	}
	if pf := ex.spec.Pures[nm]; pf != nil && pf.Mode == "bv" && ex.mode == ModeInt {
		return mkApp(nm, s, row, off) // defined in bit-vector mode, uninterpreted otherwise
	}
	var r *Term
	for i := 0; i < n; i++ {
		k := i
		if !le {
			k = n - 1 - i
		}
		b := mkShift("shl", mkConv(mkSelect(row, mkAdd(off, mkI(int64(k), SInt))), s), mkI(int64(8*i), s))
		if r == nil {
			r = b
		} else {
			r = mkBit("or", r, b)
		}
	}
	return r
}

func mUint(n int, le bool) model {
	return func(ex *Exec, st *State, at ssa.Instruction, a []Val, sig *types.Signature) ([]Outcome, bool) {
		s := a[len(a)-1].(SliceV)
		ex.safe(st, "index", mkLe(mkI(int64(n), SInt), s.Len), at)
		row := mkSelect(ex.comp(st, "M:uint8", SArr(SRef, SBytes)), s.Arr)
		return one(st, ex.leTerm(row, s.Off, n, le)), true
	}
}

func mPut(n int, le bool) model {
	return func(ex *Exec, st *State, at ssa.Instruction, a []Val, sig *types.Signature) ([]Outcome, bool) {
		s := a[len(a)-2].(SliceV)
		v := a[len(a)-1].(*Term)
		ex.safe(st, "index", mkLe(mkI(int64(n), SInt), s.Len), at)
		ex.checkWrite(st, "M:uint8", []*Term{s.Arr})
		for i := 0; i < n; i++ {
			k := i
			if !le {
				k = n - 1 - i
			}
			b := mkConv(mkShift("shr", v, mkI(int64(8*i), v.S)), SU8)
			ex.leafSet(st, "M:uint8", []*Term{s.Arr, mkAdd(s.Off, mkI(int64(k), SInt))}, b)
		}
		return one(st), true
	}
}

// binSize computes the encoded size of a fixed-size value.
func binSize(t types.Type) (int64, bool) {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if s := numSort(u); s != nil {
			switch u.Kind() {
			case types.Int, types.Uint, types.Uintptr:
				return 0, false
			}
			return int64(s.W / 8), true
		}
		if u.Kind() == types.Bool {
			return 1, true
		}
	case *types.Struct:
		var n int64
		for i := 0; i < u.NumFields(); i++ {
			k, ok := binSize(u.Field(i).Type())
			if !ok {
				return 0, false
			}
			n += k
		}
		return n, true
	case *types.Array:
		k, ok := binSize(u.Elem())
		return k * u.Len(), ok
	}
	return 0, false
}

func mBinSize(ex *Exec, st *State, at ssa.Instruction, a []Val, sig *types.Signature) ([]Outcome, bool) {
	v := a[0].(IfaceV)
	if v.DynT == nil {
		ex.unsup("binary.Size of unknown type")
	}
	t := v.DynT
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := binSize(t); ok {
		return one(st, mkI(n, SI64)), true
	}
	ex.unsup("binary.Size of %s", t)
	return nil, false
}

// decodeAt builds the value of type t encoded at row[off:].
func (ex *Exec) decodeAt(t types.Type, row, off *Term, le bool) (Val, int64) {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		n, _ := binSize(t)
		if n == 1 {
			b := mkSelect(row, off)
			if u.Kind() == types.Bool {
				return mkBNot(mkEq(b, mkI(0, SU8))), 1
			}
			return mkConv(b, numSort(u)), 1
		}
		return mkConv(ex.leTerm(row, off, int(n), le), numSort(u)), n
	case *types.Struct:
		sv := StructV{T: t}
		var o int64
		for i := 0; i < u.NumFields(); i++ {
			v, n := ex.decodeAt(u.Field(i).Type(), row, mkAdd(off, mkI(o, SInt)), le)
			sv.F = append(sv.F, v)
			o += n
		}
		return sv, o
	case *types.Array:
		k, _ := binSize(u.Elem())
		if k == 1 {
			lf := ex.lay.leaves(u.Elem())
			r := mkConstArr(SArr(SInt, lf[0].sort), ex.zeroLeaf(lf[0]))
			for i := int64(0); i < u.Len(); i++ {
				v, _ := ex.decodeAt(u.Elem(), row, mkAdd(off, mkI(i, SInt)), le)
				r = mkStore(r, mkI(i, SInt), v.(*Term))
			}
			return ArrV{Rows: []*Term{r}, Elem: u.Elem(), N: u.Len()}, u.Len()
		}
	}
	ex.unsup("binary decoding of %s", t)
	return nil, 0
}

func (ex *Exec) orderOf(v IfaceV) bool {
	if v.DynT != nil {
		switch typeKey(v.DynT) {
		case "encoding/binary.littleEndian":
			return true
		case "encoding/binary.bigEndian":
			return false
		}
	}
	ex.unsup("byte order not statically known")
	return true
}

// ghost accessors of the stream model
func (ex *Exec) gget(st *State, name string, r *Term) *Term {
	return ex.leafGet(st, "G:"+name, []*Term{r}, ex.spec.Ghosts[name])
}

func (ex *Exec) gset(st *State, name string, r, v *Term) {
	ex.checkWrite(st, "G:"+name, []*Term{r})
	ex.leafSet(st, "G:"+name, []*Term{r}, v)
}

// ghostSet runs a set clause.
func (ex *Exec) ghostSet(st *State, c *evalCtx, q [3]*Expr) {
	cond := c.evalBool(q[0])
	if cond.isFalse() {
		return
	}
	g, ok := c.spec.Ghosts[q[1].Name]
	if q[1].Op != "field" || !ok {
		c.fail(q[1], "set needs a ghost")
	}
	r := c.toTerm(c.eval(q[1].Args[0]))
	v := c.coerce(c.toTerm(c.eval(q[2])), g)
	pr := st.clone()
	pr.assume(cond)
	ex.checkWrite(pr, "G:"+q[1].Name, []*Term{r})
	old := ex.leafGet(st, "G:"+q[1].Name, []*Term{r}, g)
	ex.leafSet(st, "G:"+q[1].Name, []*Term{r}, mkIte(cond, v, old))
}

// binary.Read from a stream: all bytes or an error.
func mBinRead(ex *Exec, st *State, at ssa.Instruction, a []Val, sig *types.Signature) ([]Outcome, bool) {
	r := a[0].(IfaceV)
	le := ex.orderOf(a[1].(IfaceV))
	d := a[2].(IfaceV)
	ex.safe(st, "nil", mkBNot(mkEq(r.Tag, mkI(0, SInt))), at)
	if d.Dyn == nil {
		ex.unsup("binary.Read into unknown value")
	}
	p, ok := d.Dyn.(PtrV)
	if !ok {
		ex.unsup("binary.Read into %T", d.Dyn)
	}
	n, ok := binSize(p.Elem)
	if !ok {
		ex.unsup("binary.Read into %s", p.Elem)
	}
	ex.nilCheck(st, p, at)
	if t := ex.knownTag(st, r.Tag); t != nil && t.N.Sign() != 0 && typeKey(ex.lay.tagT[int(t.N.Int64())]) == "*io.teeReader" {
		return ex.readTee(st, at, r, n, p, le), true
	}
	outs := ex.readExact(st, r.Ref, n, func(s *State, row, pos *Term) {
		v, _ := ex.decodeAt(p.Elem, row, pos, le)
		ex.store(s, p, v)
		if ex.spec.Ghosts["secTee"] != nil && isSection(ex, s, r) {
			// a section of a source whose reads are also written to a hash
			h := ex.gget(s, "secTee", r.Ref)
			ex.gset(s, "crc", h, mkApp("crcOf", SU32, ex.gget(s, "crc", h), row, pos, mkAdd(pos, mkI(n, SInt))))
		}
	})
	for _, o := range outs {
		if e, ok := o.res[0].(IfaceV); !(ok && e.Tag.isConst() && e.Tag.N.Sign() == 0) && ex.spec.Ghosts["secTee"] != nil && isSection(ex, o.st, r) {
			ex.gset(o.st, "crc", ex.gget(o.st, "secTee", r.Ref), born(mkFresh("teecrc", SU32)))
		}
	}
	return outs, true
}

func isSection(ex *Exec, st *State, r IfaceV) bool {
	t := ex.knownTag(st, r.Tag)
	return t != nil && t.N.Sign() != 0 && typeKey(ex.lay.tagT[int(t.N.Int64())]) == "*io.SectionReader"
}

// readTee: binary.Read from an io.TeeReader. Everything read is also written
// to the tee's writer, which is a bytes.Buffer or unknown; how much it got
// when the read fails is left open.
func (ex *Exec) readTee(st *State, at ssa.Instruction, r IfaceV, n int64, p PtrV, le bool) []Outcome {
	tt := ex.prog.typeByKey("io.teeReader")
	tp := ex.mkPtr(r.Ref, tt)
	in := ex.load(st, ex.fieldAddr(tp, 0), st).(IfaceV)
	w := ex.load(st, ex.fieldAddr(tp, 1), st).(IfaceV)
	wi := ex.prog.typeByKey("io.Writer").Underlying().(*types.Interface)
	s := ex.newSlice(st, types.Typ[types.Uint8], mkI(n, SInt), mkI(n, SInt))
	var outs []Outcome
	for _, o := range ex.readExact(st, in.Ref, n, func(s2 *State, row, pos *Term) {
		v, _ := ex.decodeAt(p.Elem, row, pos, le)
		ex.store(s2, p, v)
		for i := int64(0); i < n; i++ {
			ex.leafSet(s2, "M:uint8", []*Term{s.Arr, mkI(i, SInt)}, mkSelect(row, mkAdd(pos, mkI(i, SInt))))
		}
	}) {
		if e, ok := o.res[0].(IfaceV); ok && e.Tag.isConst() && e.Tag.N.Sign() == 0 {
			for _, q := range ex.invokeMethod(o.st, at, w, wi.Method(0), []Val{s}, wi.Method(0).Type().(*types.Signature)) {
				outs = append(outs, Outcome{kind: oReturn, st: q.st, res: q.res[1:]})
			}
			continue
		}
		// the failed read: the writer is left in an unknown state
		ws := ex.newSlice(o.st, types.Typ[types.Uint8], ex.freshLen(o.st), mkI(n, SInt))
		for _, q := range ex.invokeMethod(o.st, at, w, wi.Method(0), []Val{ws}, wi.Method(0).Type().(*types.Signature)) {
			outs = append(outs, Outcome{kind: oReturn, st: q.st, res: o.res})
		}
	}
	return outs
}

func (ex *Exec) freshLen(st *State) *Term {
	t := mkFresh("teelen", SInt)
	st.assume(mkLe(mkI(0, SInt), t))
	return t
}

// binary.Write of a fixed-size integer: its bytes are handed to the writer's Write.
func mBinWrite(ex *Exec, st *State, at ssa.Instruction, a []Val, sig *types.Signature) ([]Outcome, bool) {
	w := a[0].(IfaceV)
	le := ex.orderOf(a[1].(IfaceV))
	v, ok := a[2].(IfaceV).Dyn.(*Term)
	if !ok || !v.S.isInt() || v.S.K != KNum {
		ex.unsup("binary.Write of unknown value")
	}
	t := a[2].(IfaceV).DynT
	n, ok := binSize(t)
	if !ok {
		ex.unsup("binary.Write of %s", t)
	}
	wi := ex.prog.typeByKey("io.Writer").Underlying().(*types.Interface)
	s := ex.newSlice(st, types.Typ[types.Uint8], mkI(n, SInt), mkI(n, SInt))
	for i := int64(0); i < n; i++ {
		k := i
		if !le {
			k = n - 1 - i
		}
		ex.leafSet(st, "M:uint8", []*Term{s.Arr, mkI(k, SInt)}, mkConv(mkShift("shr", v, mkI(8*i, v.S)), SU8))
	}
	if n > 1 {
		row := mkSelect(ex.comp(st, "M:uint8", SArr(SRef, SBytes)), s.Arr)
		st.assume(mkEq(mkConv(ex.leTerm(row, mkI(0, SInt), int(n), le), v.S), v))
	}
	var outs []Outcome
	for _, o := range ex.invokeMethod(st, at, w, wi.Method(0), []Val{s}, wi.Method(0).Type().(*types.Signature)) {
		outs = append(outs, Outcome{kind: oReturn, st: o.st, res: o.res[1:]})
	}
	return outs, true
}

func (ex *Exec) readExact(st *State, r *Term, n int64, f func(s *State, row, pos *Term)) []Outcome {
	pos, end, data := ex.gget(st, "pos", r), ex.gget(st, "end", r), ex.gget(st, "data", r)
	nn := mkI(n, SInt)
	okc := mkLe(mkAdd(pos, nn), end)
	bad := st.clone()
	var outs []Outcome
	if v, k := st.known(okc); !k || v {
		st.assume(okc)
		st.assume(mkLe(mkI(0, SInt), pos))
		f(st, data, pos)
		ex.gset(st, "pos", r, mkAdd(pos, nn))
		outs = append(outs, Outcome{kind: oReturn, st: st, res: []Val{ex.zero(errT())}})
	}
	if v, k := bad.known(okc); !k || !v {
		bad.assume(mkBNot(okc))
		ex.gset(bad, "pos", r, end)
		e := ex.streamErr(bad, r, mkEq(pos, end))
		outs = append(outs, Outcome{kind: oReturn, st: bad, res: []Val{e}})
	}
	return outs
}

// streamErr: the error reported at the end of stream r; io.EOF only if nothing was read.
func (ex *Exec) streamErr(st *State, r, none *Term) IfaceV {
	e := ex.freshVal(st, "rderr", errT()).(IfaceV)
	st.assume(mkBNot(mkEq(e.Tag, mkI(0, SInt))))
	eof, _ := ex.globalConst("V:io.EOF")
	if ev, ok := eof.(IfaceV); ok {
		st.assume(mkImp(ex.isErr(e, ev), none))
	}
	return e
}

func mLZ8(ex *Exec, st *State, at ssa.Instruction, a []Val, sig *types.Signature) ([]Outcome, bool) {
	x := a[0].(*Term)
	r := mkI(8, SI64)
	for i := 0; i < 8; i++ {
		r = mkIte(mkLe(mkI(int64(1)<<i, SU8), x), mkI(int64(7-i), SI64), r)
	}
	// highest bit first: rebuild so that larger thresholds dominate
	r = mkI(8, SI64)
	for i := 0; i < 8; i++ {
		r = mkIte(mkLt(x, mkI(int64(1)<<i, SU8)), r, mkI(int64(7-i), SI64))
	}
	return one(st, r), true
}

// sort.Search(n, f): smallest index at which the (monotone) predicate holds. The
// predicate is evaluated symbolically; monotonicity is not assumed, so only
// f(i) and not f(i-1) are known.
func mSearch(ex *Exec, st *State, at ssa.Instruction, a []Val, sig *types.Signature) ([]Outcome, bool) {
	n := mkConv(a[0].(*Term), SInt)
	f, ok := a[1].(FuncV)
	if !ok || f.Fn == nil {
		return nil, false
	}
	i := born(mkFresh("found", SI64))
	im := mkConv(i, SInt)
	z := mkI(0, SInt)
	st.assume(mkLe(z, n))
	st.assume(mkLe(z, im))
	st.assume(mkLe(im, n))
	// arbitrary probe: the predicate must not panic anywhere in range
	pr := st.clone()
	j := born(mkFresh("probe", SI64))
	pr.assume(mkLe(z, mkConv(j, SInt)))
	pr.assume(mkLt(mkConv(j, SInt), n))
	ex.callFn(pr, at, f.Fn, []Val{j}, f.Bind)
	var outs []Outcome
	nx := st.clone()
	nx.assume(mkEq(im, n))
	cont := func(s *State, hit bool) {
		// predecessor
		s0 := s.clone()
		s0.assume(mkEq(im, z))
		outs = append(outs, Outcome{kind: oReturn, st: s0, res: []Val{i}})
		s.assume(mkLt(z, im))
		for _, o := range ex.callFn(s, at, f.Fn, []Val{mkSub(i, mkI(1, SI64))}, f.Bind) {
			o.st.assume(mkBNot(o.res[0].(*Term)))
			outs = append(outs, Outcome{kind: oReturn, st: o.st, res: []Val{i}})
		}
	}
	cont(nx, false)
	st.assume(mkLt(im, n))
	for _, o := range ex.callFn(st, at, f.Fn, []Val{i}, f.Bind) {
		o.st.assume(o.res[0].(*Term))
		cont(o.st, true)
	}
	return outs, true
}

// sort.Slice: the elements are permuted, and afterwards none is less than an
// earlier one (less is taken to be a strict weak ordering).
func mSortSlice(ex *Exec, st *State, at ssa.Instruction, a []Val, sig *types.Signature) ([]Outcome, bool) {
	iv, ok := a[0].(IfaceV)
	if !ok {
		return nil, false
	}
	s, ok := iv.Dyn.(SliceV)
	f, ok2 := a[1].(FuncV)
	if !ok || !ok2 || f.Fn == nil {
		return nil, false
	}
	z := mkI(0, SInt)
	perm := born(mkFresh("perm", SArr(SInt, SInt)))
	inv := born(mkFresh("permi", SArr(SInt, SInt)))
	k := mkBVar("k", SInt)
	in := func(t *Term) *Term { return mkAnd(mkLe(z, t), mkLt(t, s.Len)) }
	pk, ik := mkSelect(perm, k), mkSelect(inv, k)
	st.assume(mkForall([]*Term{k}, mkImp(in(k), mkAnd(in(pk), mkEq(mkSelect(inv, pk), k))), [][]*Term{{pk}}))
	st.assume(mkForall([]*Term{k}, mkImp(in(k), mkAnd(in(ik), mkEq(mkSelect(perm, ik), k))), [][]*Term{{ik}}))
	type mv struct {
		comp     string
		row, old *Term
	}
	var mvs []mv
	for _, lf := range ex.lay.leaves(s.Elem) {
		comp := ex.lay.elemBase(s.Elem) + lf.path
		ex.checkWrite(st, comp, []*Term{s.Arr})
		old := ex.rowOf(st, s, lf)
		row := born(mkFresh("sorted", old.S))
		if holdsRefs(row.S) {
			if _, ok := frontierOrd[st.next]; !ok {
				ex.newNext(st, "")
			}
			refBelow[row] = frontierOrd[st.next]
		}
		mvs = append(mvs, mv{comp, row, old})
	}
	for _, m := range mvs {
		j := mkSub(k, s.Off)
		st.assume(mkForall([]*Term{k}, mkEq(mkSelect(m.row, k), mkIte(in(j), mkSelect(m.old, mkAdd(s.Off, mkSelect(perm, j))), mkSelect(m.old, k))), [][]*Term{{mkSelect(m.row, k)}}))
		st.assume(mkForall([]*Term{k}, mkImp(in(j), mkAnd(in(mkSelect(inv, j)), mkEq(mkSelect(m.row, mkAdd(s.Off, mkSelect(inv, j))), mkSelect(m.old, k)))), [][]*Term{{mkSelect(m.old, k)}}))
		ex.rowSet(st, m.comp, s.Arr, m.row)
	}
	// the order, from the closure run for arbitrary i < j
	i, j := born(mkFresh("si", SI64)), born(mkFresh("sj", SI64))
	im, jm := mkConv(i, SInt), mkConv(j, SInt)
	pr := st.clone()
	n0 := len(pr.pc)
	pr.assume(mkLe(z, im))
	pr.assume(mkLt(im, s.Len))
	pr.assume(mkLe(z, jm))
	pr.assume(mkLt(jm, s.Len))
	var ok3 = true
	var fs []*Term
	louts := ex.callFn(pr, at, f.Fn, []Val{j, i}, f.Bind)
	for _, o := range louts {
		r, isT := o.res[0].(*Term)
		if !isT || o.kind != oReturn {
			ok3 = false
			break
		}
		var extra []*Term
		if len(o.st.pc) >= n0+4 {
			extra = o.st.pc[n0+4:]
		}
		if len(louts) == 1 {
			// the only path: what it assumes apart from i and j holds here as well
			var dep []*Term
			for _, x := range extra {
				vs := map[*Term]bool{}
				termVars(x, map[*Term]bool{}, vs)
				if vs[i] || vs[j] {
					dep = append(dep, x)
				} else {
					st.assume(x)
				}
			}
			extra = dep
		}
		fs = append(fs, mkImp(mkAnd(extra...), mkBNot(r)))
	}
	if !ok3 {
		return nil, false
	}
	// quantified over absolute positions, so that the patterns are plain reads
	bi, bj := mkBVar("i", SInt), mkBVar("j", SInt)
	ai, aj := mkConvR(mkSub(bi, s.Off), SI64), mkConvR(mkSub(bj, s.Off), SI64)
	g := subst(mkImp(mkAnd(mkLe(z, im), mkLt(im, jm), mkLt(jm, s.Len)), mkAnd(fs...)), map[*Term]*Term{i: ai, j: aj})
	var pats [][]*Term
	for _, m := range mvs {
		pats = append(pats, []*Term{mkSelect(m.row, bi), mkSelect(m.row, bj)})
		break
	}
	st.assume(mkForall([]*Term{bi, bj}, g, pats))
	return one(st), true
}

// sync.Once.Do: runs the function the first time only.
func mOnceDo(ex *Exec, st *State, at ssa.Instruction, a []Val, sig *types.Signature) ([]Outcome, bool) {
	o := ex.toRef(a[0].(PtrV))
	f, ok := a[1].(FuncV)
	if !ok || f.Fn == nil {
		return nil, false
	}
	done := ex.gget(st, "done", o)
	var outs []Outcome
	if v, k := st.known(done); !k || v {
		s := st.clone()
		s.assume(done)
		outs = append(outs, Outcome{kind: oReturn, st: s})
	}
	if v, k := st.known(done); !k || !v {
		st.assume(mkBNot(done))
		for _, r := range ex.callFn(st, at, f.Fn, nil, f.Bind) {
			ex.gset(r.st, "done", o, mkTrue())
			outs = append(outs, Outcome{kind: oReturn, st: r.st})
		}
	}
	return outs, true
}

func mBytesEqual(ex *Exec, st *State, at ssa.Instruction, a []Val, sig *types.Signature) ([]Outcome, bool) {
	x, y := a[0].(SliceV), a[1].(SliceV)
	c := ex.comp(st, "M:uint8", SArr(SRef, SBytes))
	rx, ry := mkSelect(c, x.Arr), mkSelect(c, y.Arr)
	for k := 0; k < 2; k++ {
		if x.Len.isConst() && x.Len.N.Int64() <= 64 {
			cs := []*Term{mkEq(x.Len, y.Len)}
			for i := int64(0); i < x.Len.N.Int64(); i++ {
				cs = append(cs, mkEq(mkSelect(rx, mkAdd(x.Off, mkI(i, SInt))), mkSelect(ry, mkAdd(y.Off, mkI(i, SInt)))))
			}
			return one(st, mkAnd(cs...)), true
		}
		x, y, rx, ry = y, x, ry, rx
	}
	i := mkBVar("i", SInt)
	q := mkForall([]*Term{i}, mkImp(mkAnd(mkLe(mkI(0, SInt), i), mkLt(i, x.Len)), mkEq(mkSelect(rx, mkAdd(x.Off, i)), mkSelect(ry, mkAdd(y.Off, i)))), nil)
	return one(st, mkAnd(mkEq(x.Len, y.Len), q)), true
}

// ---------------------------------------------------------------- builtins

func (ex *Exec) builtin(st *State, at ssa.Instruction, b *ssa.Builtin, c *ssa.CallCommon, args []Val) []Outcome {
	n64 := func(t *Term) *Term { return mkConvR(t, SI64) }
	switch b.Name() {
	case "len":
		switch x := args[0].(type) {
		case SliceV:
			if t := ex.knownTag(st, x.Len); t != nil {
				return one(st, n64(t))
			}
			return one(st, n64(x.Len))
		case *Term:
			return one(st, n64(mkSlen(x)))
		case MapV:
			n := ex.leafGet(st, "ML:"+typeKey(x.T), []*Term{x.Ref}, SInt)
			st.assume(mkLe(mkI(0, SInt), n))
			st.assume(mkLe(n, maxLen))
			return one(st, mkIte(mkEq(x.Ref, mkI(0, SRef)), mkI(0, SI64), n64(n)))
		case ArrV:
			return one(st, mkI(x.N, SI64))
		case PtrV:
			return one(st, mkI(x.Elem.Underlying().(*types.Array).Len(), SI64))
		}
	case "cap":
		if x, ok := args[0].(SliceV); ok {
			return one(st, n64(x.Cap))
		}
	case "min", "max":
		r := args[0].(*Term)
		for _, y := range args[1:] {
			t := y.(*Term)
			if b.Name() == "min" {
				r = mkIte(mkLe(r, t), r, t)
			} else {
				r = mkIte(mkLe(t, r), r, t)
			}
		}
		return one(st, r)
	case "append":
		return ex.doAppend(st, at, args)
	case "copy":
		return ex.doCopy(st, at, args)
	case "delete":
		m := args[0].(MapV)
		ex.mapDelete(st, m, ex.keyTerm(args[1]))
		return one(st)
	case "ssa:deferstack":
		return one(st, mkI(0, SRef))
	case "ssa:wrapnilchk":
		p := args[0].(PtrV)
		ex.nilCheck(st, p, at)
		return one(st, p)
	case "clear":
		if m, ok := args[0].(MapV); ok {
			tk := typeKey(m.T)
			ex.checkWrite(st, "MD:"+tk, []*Term{m.Ref})
			ex.rowSet(st, "MD:"+tk, m.Ref, mkConstArr(SArr(ex.keySort(m.T), SBool), mkFalse()))
			ex.leafSet(st, "ML:"+tk, []*Term{m.Ref}, mkI(0, SInt))
			return one(st)
		}
	case "print", "println":
		return one(st)
	case "recover":
		ex.unsup("recover")
	}
	ex.unsup("builtin %s on %T", b.Name(), args[0])
	return nil
}

func (ex *Exec) rowOf(st *State, s SliceV, lf leaf) *Term {
	return mkSelect(ex.comp(st, ex.lay.elemBase(s.Elem)+lf.path, SArr(SRef, SArr(SInt, lf.sort))), s.Arr)
}

// doAppend models append as allocating: the result never shares storage with
// its argument (assumption listed in the evidence: an appended-to slice is not
// read again through its old header beyond its old length).
func (ex *Exec) doAppend(st *State, at ssa.Instruction, args []Val) []Outcome {
	s, ok := args[0].(SliceV)
	if !ok {
		ex.unsup("append to %T", args[0])
	}
	ex.used["append reallocates"] = true
	z := mkI(0, SInt)
	if str, ok := args[1].(*Term); ok { // append([]byte, string...)
		n := mkSlen(str)
		r := ex.alloc(st)
		lf := ex.lay.leaves(s.Elem)[0]
		row := born(mkFresh("app", SBytes))
		old := ex.rowOf(st, s, lf)
		k := mkBVar("k", SInt)
		st.assume(mkForall([]*Term{k}, mkAnd(
			mkImp(mkAnd(mkLe(z, k), mkLt(k, s.Len)), mkEq(mkSelect(row, k), mkSelect(old, mkAdd(s.Off, k)))),
			mkImp(mkAnd(mkLe(s.Len, k), mkLt(k, mkAdd(s.Len, n))), mkEq(mkSelect(row, k), mkSat(str, mkSub(k, s.Len))))), [][]*Term{{mkSelect(row, k)}}))
		ex.rowSet(st, "M:uint8", r, row)
		nl := mkAdd(s.Len, n)
		return one(st, SliceV{r, z, nl, nl, s.Elem})
	}
	e := args[1].(SliceV)
	nl := mkAdd(s.Len, e.Len)
	if e.Len.isConst() && e.Len.N.Sign() == 0 {
		return one(st, s)
	}
	r := ex.alloc(st)
	st.assume(mkLe(nl, maxLen))
	for _, lf := range ex.lay.leaves(s.Elem) {
		so, eo := ex.rowOf(st, s, lf), ex.rowOf(st, e, lf)
		var row *Term
		if s.Off.isConst() && s.Off.N.Sign() == 0 && e.Len.isConst() && e.Len.N.Int64() <= 16 {
			row = so
			if s.Len.isConst() && s.Len.N.Sign() == 0 {
				row = mkConstArr(SArr(SInt, lf.sort), ex.zeroLeaf(lf))
			}
			for i := int64(0); i < e.Len.N.Int64(); i++ {
				row = mkStore(row, mkAdd(s.Len, mkI(i, SInt)), mkSelect(eo, mkAdd(e.Off, mkI(i, SInt))))
			}
		} else {
			row = born(mkFresh("app", SArr(SInt, lf.sort)))
			if holdsRefs(row.S) {
				if _, ok := frontierOrd[st.next]; !ok {
					ex.newNext(st, "")
				}
				refBelow[row] = frontierOrd[st.next]
			}
			k := mkBVar("k", SInt)
			st.assume(mkForall([]*Term{k}, mkAnd(
				mkImp(mkAnd(mkLe(z, k), mkLt(k, s.Len)), mkEq(mkSelect(row, k), mkSelect(so, mkAdd(s.Off, k)))),
				mkImp(mkAnd(mkLe(s.Len, k), mkLt(k, nl)), mkEq(mkSelect(row, k), mkSelect(eo, mkAdd(e.Off, mkSub(k, s.Len)))))), [][]*Term{{mkSelect(row, k)}}))
			if b, ok := s.Elem.Underlying().(*types.Basic); (ok && b.Kind() != types.Uint8 || lf.sort == SStr) && e.Len.isConst() { // the old elements are found from the old slice as well
				st.assume(mkForall([]*Term{k}, mkImp(mkAnd(mkLe(s.Off, k), mkLt(k, mkAdd(s.Off, s.Len))),
					mkEq(mkSelect(row, mkSub(k, s.Off)), mkSelect(so, k))), [][]*Term{{mkSelect(so, k)}}))
				for i := int64(0); i < e.Len.N.Int64() && i < 4; i++ {
					st.assume(mkEq(mkSelect(row, mkAdd(s.Len, mkI(i, SInt))), mkSelect(eo, mkAdd(e.Off, mkI(i, SInt)))))
				}
			}
		}
		ex.rowSet(st, ex.lay.elemBase(s.Elem)+lf.path, r, row)
	}
	c := nl
	if !e.Len.isConst() || true {
		c = born(mkFresh("cap", SInt))
		st.assume(mkLe(nl, c))
		st.assume(mkLe(c, maxLen))
	}
	return one(st, SliceV{r, z, nl, c, s.Elem})
}

func (ex *Exec) doCopy(st *State, at ssa.Instruction, args []Val) []Outcome {
	d := args[0].(SliceV)
	z := mkI(0, SInt)
	var sl *Term
	var get func(k *Term) *Term
	lf := ex.lay.leaves(d.Elem)
	if len(lf) != 1 {
		ex.unsup("copy of aggregates")
	}
	var srow *Term
	switch s := args[1].(type) {
	case SliceV:
		sl = s.Len
		srow = ex.rowOf(st, s, lf[0])
		get = func(k *Term) *Term { return mkSelect(srow, mkAdd(s.Off, k)) }
	case *Term:
		sl = mkSlen(s)
		get = func(k *Term) *Term { return mkSat(s, k) }
	}
	n := mkIte(mkLe(d.Len, sl), d.Len, sl)
	if v, ok := st.known(mkLe(d.Len, sl)); ok {
		n = sl
		if v {
			n = d.Len
		}
	}
	comp := ex.lay.elemBase(d.Elem) + lf[0].path
	drow := ex.rowOf(st, d, lf[0])
	ex.checkWrite(st, comp, []*Term{d.Arr})
	if n.isConst() && n.N.Int64() <= 32 {
		row := drow
		for i := int64(0); i < n.N.Int64(); i++ {
			row = mkStore(row, mkAdd(d.Off, mkI(i, SInt)), get(mkI(i, SInt)))
		}
		ex.rowSet(st, comp, d.Arr, row)
		return one(st, mkConvR(n, SI64))
	}
	row := born(mkFresh("copy", drow.S))
	k := mkBVar("k", SInt)
	in := mkAnd(mkLe(d.Off, k), mkLt(k, mkAdd(d.Off, n)))
	st.assume(mkForall([]*Term{k}, mkEq(mkSelect(row, k), mkIte(in, get(mkSub(k, d.Off)), mkSelect(drow, k))), [][]*Term{{mkSelect(row, k)}}))
	_ = z
	ex.rowSet(st, comp, d.Arr, row)
	return one(st, mkConvR(n, SI64))
}

var _ = fmt.Sprint

// atomic operations, taken as sequential ones
func mAtomicAdd(ex *Exec, st *State, at ssa.Instruction, a []Val, sig *types.Signature) ([]Outcome, bool) {
	p := a[0].(PtrV)
	ex.nilCheck(st, p, at)
	v := mkAdd(ex.load(st, p, st).(*Term), a[1].(*Term))
	ex.store(st, p, v)
	return one(st, v), true
}

func mAtomicLoad(ex *Exec, st *State, at ssa.Instruction, a []Val, sig *types.Signature) ([]Outcome, bool) {
	p := a[0].(PtrV)
	ex.nilCheck(st, p, at)
	return one(st, ex.load(st, p, st)), true
}
