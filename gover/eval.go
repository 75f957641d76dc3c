package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"math/big"
	"strings"
)

type evalCtx struct {
	spec   *Spec
	env    map[string]Val
	mode   Mode
	ex     *Exec
	st     *State
	old    *State
	prev   *State
	sink   *State
	lookup func(name string, which int) (Val, bool) // 0 current, 1 old, 2 prev
	which  int
	pkg    *types.Package
	depth  int
}

type nilV struct{}

func (c *evalCtx) fail(e *Expr, f string, a ...interface{}) {
	panic(specErr(e.pos + ": " + fmt.Sprintf(f, a...)))
}

func (c *evalCtx) with(env map[string]Val) *evalCtx {
	n := *c
	n.env = env
	return &n
}

func (c *evalCtx) bind(name string, v Val) *evalCtx {
	env := make(map[string]Val, len(c.env)+1)
	for k, x := range c.env {
		env[k] = x
	}
	env[name] = v
	return c.with(env)
}

func (c *evalCtx) evalBool(e *Expr) *Term {
	t := c.toTerm(c.eval(e))
	if t.S != SBool {
		c.fail(e, "boolean expected, got %s", t.S.key)
	}
	return t
}

func (c *evalCtx) evalInt(e *Expr) *Term { return c.coerce(c.toTerm(c.eval(e)), SInt) }

func (c *evalCtx) toTerm(v Val) *Term {
	switch x := v.(type) {
	case *Term:
		return x
	case PtrV:
		return c.ex.toRef(x)
	case IfaceV:
		return x.Ref
	case MapV:
		return x.Ref
	case FuncV:
		return c.ex.funcRef(x)
	case SliceV:
		return x.Arr
	case nilV:
		return mkI(0, SRef)
	case StructV:
		if len(x.F) == 1 {
			return c.toTerm(x.F[0])
		}
	}
	panic(specErr(fmt.Sprintf("no term for %T", v)))
}

func (c *evalCtx) coerce(t *Term, s *Sort) *Term {
	if t.S == s {
		return t
	}
	if t.S.isInt() && s.isInt() {
		if s.K == KRef || t.S.K == KRef {
			if t.isConst() {
				return mkConst(t.N, s)
			}
			panic(specErr("reference/integer mix: " + t.String()))
		}
		return mkConv(t, s)
	}
	panic(specErr(fmt.Sprintf("cannot coerce %s (%s) to %s", t, t.S.key, s.key)))
}

// unify brings two integer terms to a common sort.
func (c *evalCtx) unify(e *Expr, a, b *Term) (*Term, *Term) {
	if a.S == b.S {
		return a, b
	}
	if !a.S.isInt() || !b.S.isInt() {
		c.fail(e, "type mismatch %s vs %s (%s ; %s)", a.S.key, b.S.key, a, b)
	}
	fits := func(k *Term, s *Sort) bool {
		if s.K != KNum {
			return true
		}
		lo, hi := rng(s)
		return k.N.Cmp(lo) >= 0 && k.N.Cmp(hi) <= 0
	}
	if a.isConst() && a.S.K == KInt && fits(a, b.S) && !(b.S == SI64) {
		return mkConst(a.N, b.S), b
	}
	if b.isConst() && b.S.K == KInt && fits(b, a.S) && !(a.S == SI64) {
		return a, mkConst(b.N, a.S)
	}
	if a.S.K == KRef || b.S.K == KRef {
		c.fail(e, "reference/integer mix")
	}
	if a.S.K == KInt || b.S.K == KInt {
		if c.mode == ModeBV {
			o := a.S
			if o.K == KInt {
				o = b.S
			}
			if o.K == KNum && o.W == 64 && !o.Sg {
				c.fail(e, "u64/int mix in bv mode needs an explicit conversion")
			}
		}
		return mkConv(a, SInt), mkConv(b, SInt)
	}
	c.fail(e, "mixed machine integers %s and %s need an explicit conversion", a.S.key, b.S.key)
	return nil, nil
}

func (c *evalCtx) eqVal(e *Expr, a, b Val) *Term {
	if _, ok := a.(nilV); ok {
		a, b = b, a
	}
	if _, ok := b.(nilV); ok {
		switch x := a.(type) {
		case IfaceV:
			return mkEq(x.Tag, mkI(0, SInt))
		case SliceV:
			return mkEq(x.Arr, mkI(0, SRef))
		case nilV:
			return mkTrue()
		case PtrV:
			if x.Cell != nil {
				return mkFalse()
			}
			if len(x.Keys) > 1 {
				return mkFalse() // an element
			}
			return mkEq(c.toTerm(a), mkI(0, SRef))
		default:
			return mkEq(c.toTerm(a), mkI(0, SRef))
		}
	}
	switch x := a.(type) {
	case IfaceV:
		if y, ok := b.(IfaceV); ok {
			return mkAnd(mkEq(x.Tag, y.Tag), mkEq(x.Ref, y.Ref))
		}
	case StructV:
		if y, ok := b.(StructV); ok {
			var cs []*Term
			for i := range x.F {
				cs = append(cs, c.eqVal(e, x.F[i], y.F[i]))
			}
			return mkAnd(cs...)
		}
	case SliceV:
		if y, ok := b.(SliceV); ok {
			return mkAnd(mkEq(x.Arr, y.Arr), mkEq(x.Off, y.Off), mkEq(x.Len, y.Len))
		}
	case ArrV:
		if y, ok := b.(ArrV); ok {
			var cs []*Term
			for i := range x.Rows {
				cs = append(cs, mkEq(x.Rows[i], y.Rows[i]))
			}
			return mkAnd(cs...)
		}
	case PtrV:
		if y, ok := b.(PtrV); ok {
			return c.ex.ptrEq(x, y)
		}
	}
	ta, tb := c.toTerm(a), c.toTerm(b)
	ta, tb = c.unify(e, ta, tb)
	return mkEq(ta, tb)
}

func (ex *Exec) ptrEq(x, y PtrV) *Term {
	if x.Cell != nil || y.Cell != nil {
		if x.Cell == y.Cell && fmt.Sprint(x.CP) == fmt.Sprint(y.CP) {
			return mkTrue()
		}
		return mkFalse()
	}
	if x.Base == y.Base && x.Path == y.Path && len(x.Keys) == len(y.Keys) {
		var cs []*Term
		for i := range x.Keys {
			cs = append(cs, mkEq(x.Keys[i], y.Keys[i]))
		}
		return mkAnd(cs...)
	}
	if x.isNilConst() {
		return ex.ptrNil(y)
	}
	if y.isNilConst() {
		return ex.ptrNil(x)
	}
	if len(x.Keys) == 1 && len(y.Keys) == 1 && strings.HasPrefix(x.Base, "X:") || strings.HasPrefix(y.Base, "X:") {
		return mkEq(ex.toRef(x), ex.toRef(y))
	}
	return mkFalse()
}

func (ex *Exec) ptrNil(p PtrV) *Term {
	if p.Cell != nil || len(p.Keys) != 1 || p.Path != "" || strings.HasPrefix(p.Base, "V:") {
		return mkFalse()
	}
	return mkEq(p.Keys[0], mkI(0, SRef))
}

func (c *evalCtx) eval(e *Expr) Val {
	switch e.Op {
	case "lit":
		return mkConst(e.N, SInt)
	case "str":
		return mkStrConst(e.Name)
	case "true":
		return mkTrue()
	case "false":
		return mkFalse()
	case "nil":
		return nilV{}
	case "id":
		return c.ident(e)
	case "let":
		return c.bind(e.Name, c.eval(e.Args[0])).eval(e.Args[1])
	case "tern":
		cd := c.evalBool(e.Args[0])
		if cd.isTrue() {
			return c.eval(e.Args[1])
		}
		if cd.isFalse() {
			return c.eval(e.Args[2])
		}
		a, b := c.toTerm(c.eval(e.Args[1])), c.toTerm(c.eval(e.Args[2]))
		a, b = c.unify(e, a, b)
		return mkIte(cd, a, b)
	case "un":
		switch e.Name {
		case "!":
			return mkBNot(c.evalBool(e.Args[0]))
		case "-":
			t := c.toTerm(c.eval(e.Args[0]))
			return mkSub(mkI(0, t.S), t)
		case "^":
			return mkNot(c.toTerm(c.eval(e.Args[0])))
		case "*":
			return c.ex.load(c.st, c.eval(e.Args[0]).(PtrV), c.sink)
		}
	case "bin":
		return c.binop(e)
	case "field":
		return c.field(e)
	case "index":
		return c.index(e)
	case "slice":
		v := c.eval(e.Args[0])
		i, j := c.evalInt(e.Args[1]), c.evalInt(e.Args[2])
		switch x := v.(type) {
		case SliceV:
			return SliceV{x.Arr, mkAdd(x.Off, i), mkSub(j, i), mkSub(x.Cap, i), x.Elem}
		case *Term:
			if x.S == SStr {
				return mkSsub(x, i, j)
			}
		}
		c.fail(e, "cannot slice")
	case "forall", "exists":
		n := c
		var vs []*Term
		for _, p := range e.Vars {
			b := mkBVar(p.Name, c.spec.sortOf(p.Type))
			vs = append(vs, b)
			n = n.bind(p.Name, b)
		}
		body := n.evalBool(e.Args[0])
		var pats [][]*Term
		for _, p := range e.Pats {
			var ps []*Term
			for _, x := range p {
				ps = append(ps, c.patTerm(n, x))
			}
			pats = append(pats, ps)
			if len(p) == 1 && len(vs) == 1 {
				// an interface value is also mentioned by its type tag
				if iv, ok := n.eval(p[0]).(IfaceV); ok && iv.Tag.Op == "select" && mentions(iv.Tag, vs[0]) {
					pats = append(pats, []*Term{iv.Tag})
				}
			}
		}
		if e.Op == "forall" {
			return mkForall(vs, body, pats)
		}
		return mkExists(vs, body, pats)
	case "call":
		return c.call(e)
	}
	c.fail(e, "cannot evaluate %s", e.Op)
	return nil
}

func (c *evalCtx) patTerm(n *evalCtx, x *Expr) *Term {
	t := n.toTerm(n.eval(x))
	for t.Op == "conv" || t.Op == "convr" {
		t = t.Args[0]
	}
	return t
}

func (c *evalCtx) ident(e *Expr) Val {
	if v, ok := c.env[e.Name]; ok {
		return v
	}
	if c.lookup != nil {
		if v, ok := c.lookup(e.Name, c.which); ok {
			return v
		}
	}
	if pf := c.spec.Pures[e.Name]; pf != nil && len(pf.Params) == 0 {
		return c.applyPure(e, pf, nil)
	}
	if c.pkg != nil {
		if v, ok := c.pkgObj(c.pkg, e.Name); ok {
			return v
		}
	}
	c.fail(e, "unknown identifier %s", e.Name)
	return nil
}

func (c *evalCtx) pkgObj(p *types.Package, name string) (Val, bool) {
	switch o := p.Scope().Lookup(name).(type) {
	case *types.Const:
		switch o.Val().Kind() {
		case constant.Int:
			n, _ := new(big.Int).SetString(o.Val().ExactString(), 10)
			return mkConst(n, SInt), true
		case constant.String:
			return mkStrConst(constant.StringVal(o.Val())), true
		case constant.Bool:
			return mkBool(constant.BoolVal(o.Val())), true
		}
	case *types.Var:
		base := "V:" + shortPkg(p.Path()) + "." + name
		if c.ex.lay.isOpaque(o.Type()) {
			return PtrV{Base: "X:" + typeKey(o.Type()), Keys: []*Term{mkI(int64(-c.ex.lay.deriv("global "+base)), SRef)}, Elem: o.Type()}, true
		}
		return c.ex.load(c.st, PtrV{Base: base, Elem: o.Type()}, c.sink), true
	}
	return nil, false
}

func (c *evalCtx) binop(e *Expr) Val {
	switch e.Name {
	case "&&":
		a := c.evalBool(e.Args[0])
		if a.isFalse() {
			return a
		}
		return mkAnd(a, c.evalBool(e.Args[1]))
	case "||":
		a := c.evalBool(e.Args[0])
		if a.isTrue() {
			return a
		}
		return mkOr(a, c.evalBool(e.Args[1]))
	case "==>":
		a := c.evalBool(e.Args[0])
		if a.isFalse() {
			return mkTrue()
		}
		return mkImp(a, c.evalBool(e.Args[1]))
	case "<==>":
		return mkEq(c.evalBool(e.Args[0]), c.evalBool(e.Args[1]))
	case "==":
		return c.eqVal(e, c.eval(e.Args[0]), c.eval(e.Args[1]))
	case "!=":
		return mkBNot(c.eqVal(e, c.eval(e.Args[0]), c.eval(e.Args[1])))
	}
	a, b := c.toTerm(c.eval(e.Args[0])), c.toTerm(c.eval(e.Args[1]))
	if e.Name == "<<" || e.Name == ">>" {
		if a.S.K == KNum {
			b = mkConv(b, a.S)
		} else {
			b = c.coerce(b, a.S)
		}
		op := "shl"
		if e.Name == ">>" {
			op = "shr"
		}
		return mkShift(op, a, b)
	}
	if a.S == SStr && e.Name == "+" {
		return mkScat(a, b)
	}
	a, b = c.unify(e, a, b)
	// i64 arithmetic in specifications is mathematical
	switch e.Name {
	case "+", "-", "*", "/", "%":
		if a.S == SI64 {
			a, b = mkConv(a, SInt), mkConv(b, SInt)
		}
	}
	switch e.Name {
	case "+":
		return mkAdd(a, b)
	case "-":
		return mkSub(a, b)
	case "*":
		return mkMul(a, b)
	case "/":
		return mkDiv(a, b)
	case "%":
		return mkRem(a, b)
	case "&":
		return mkBit("and", a, b)
	case "|":
		return mkBit("or", a, b)
	case "^":
		return mkBit("xor", a, b)
	case "&^":
		return mkBit("and", a, mkNot(b))
	case "<":
		return mkLt(a, b)
	case "<=":
		return mkLe(a, b)
	case ">":
		return mkLt(b, a)
	case ">=":
		return mkLe(b, a)
	}
	c.fail(e, "bad operator %s", e.Name)
	return nil
}

func (c *evalCtx) field(e *Expr) Val {
	// package-qualified object?
	if b := e.Args[0]; b.Op == "id" {
		_, inEnv := c.env[b.Name]
		if !inEnv && c.lookup != nil {
			_, inEnv = c.lookup(b.Name, c.which)
		}
		if !inEnv && c.ex != nil {
			if p := c.ex.prog.pkgByName(b.Name, c.pkg); p != nil {
				if v, ok := c.pkgObj(p, e.Name); ok {
					return v
				}
			}
		}
	}
	v := c.eval(e.Args[0])
	if s, ok := c.spec.Ghosts[e.Name]; ok {
		return c.ex.leafGet(c.st, "G:"+e.Name, []*Term{c.toTerm(v)}, s)
	}
	return c.fieldOf(e, v, e.Name)
}

func (c *evalCtx) fieldOf(e *Expr, v Val, name string) Val {
	switch x := v.(type) {
	case PtrV:
		// pointer to pointer?
		el := x.Elem
		if _, ok := el.Underlying().(*types.Struct); !ok {
			if p, ok := c.ex.load(c.st, x, c.sink).(PtrV); ok {
				return c.fieldOf(e, p, name)
			}
			c.fail(e, "field %s of %s", name, el)
		}
		path := fieldPath(el, name)
		if path == nil {
			c.fail(e, "no field %s in %s", name, el)
		}
		cur := Val(x)
		for _, i := range path {
			p, ok := cur.(PtrV)
			if ok {
				if pt, ok2 := p.Elem.Underlying().(*types.Pointer); ok2 {
					_ = pt
					p = c.ex.load(c.st, p, c.sink).(PtrV)
				}
				cur = c.ex.fieldAddr(p, i)
			}
		}
		p := cur.(PtrV)
		if isArr(p.Elem) && p.Cell == nil {
			u := p.Elem.Underlying().(*types.Array)
			return c.ex.loadArr(c.st, p.Base, p.Keys, p.Path, u)
		}
		if c.ex.lay.isOpaque(p.Elem) && p.Cell == nil && len(p.Keys) == 1 {
			return PtrV{Base: "X:" + typeKey(p.Elem), Keys: []*Term{c.ex.toRef(p)}, Elem: p.Elem} // ghosts of an opaque field
		}
		return c.ex.load(c.st, p, c.sink)
	case StructV:
		path := fieldPath(x.T, name)
		if path == nil {
			c.fail(e, "no field %s in %s", name, x.T)
		}
		cur := Val(x)
		for _, i := range path {
			switch y := cur.(type) {
			case StructV:
				cur = y.F[i]
			case PtrV:
				cur = c.ex.load(c.st, c.ex.fieldAddr(y, i), c.sink)
			}
		}
		return cur
	case IfaceV:
		if x.Dyn != nil {
			return c.fieldOf(e, x.Dyn, name)
		}
	case TupleV:
	}
	c.fail(e, "field %s of %T", name, v)
	return nil
}

func fieldPath(t types.Type, name string) []int {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	var pkg *types.Package
	if n, ok := types.Unalias(t).(*types.Named); ok {
		pkg = n.Obj().Pkg()
	}
	o, idx, _ := types.LookupFieldOrMethod(t, true, pkg, name)
	if _, ok := o.(*types.Var); ok {
		return idx
	}
	if s, ok := t.Underlying().(*types.Struct); ok {
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == name {
				return []int{i}
			}
		}
	}
	return nil
}

func (c *evalCtx) index(e *Expr) Val {
	v := c.eval(e.Args[0])
	switch x := v.(type) {
	case SliceV:
		i := c.evalInt(e.Args[1])
		return c.ex.loadAt(c.st, c.ex.lay.elemBase(x.Elem), []*Term{x.Arr, mkAdd(x.Off, i)}, "", x.Elem, c.sink)
	case ArrV:
		i := c.evalInt(e.Args[1])
		if len(x.Rows) == 1 {
			return mkSelect(x.Rows[0], i)
		}
		c.fail(e, "array of aggregates")
	case PtrV:
		if a, ok := x.Elem.Underlying().(*types.Array); ok {
			i := c.evalInt(e.Args[1])
			return c.ex.loadAt(c.st, c.ex.lay.elemBase(a.Elem()), []*Term{x.Keys[0], i}, "", a.Elem(), c.sink)
		}
	case MapV:
		k := c.coerce(c.toTerm(c.eval(e.Args[1])), c.ex.keySort(x.T))
		return c.ex.loadAt(c.st, "MV:"+typeKey(x.T), []*Term{x.Ref, k}, "", x.T.Elem(), c.sink)
	case *Term:
		if x.S == SStr {
			return mkSat(x, c.evalInt(e.Args[1]))
		}
		if x.S.K == KArr {
			i := c.coerce(c.toTerm(c.eval(e.Args[1])), x.S.A)
			return mkSelect(x, i)
		}
	}
	c.fail(e, "cannot index %T", v)
	return nil
}

func (c *evalCtx) call(e *Expr) Val {
	arg := func(i int) *Term { return c.toTerm(c.eval(e.Args[i])) }
	switch e.Name {
	case "int", "byte", "u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64":
		return mkConv(arg(0), c.spec.sortOf(e.Name))
	case "old":
		if c.old == nil {
			c.fail(e, "old() not available")
		}
		n := *c
		n.st = c.old
		n.which = 1
		return n.eval(e.Args[0])
	case "prev":
		if c.prev == nil {
			c.fail(e, "prev() not available")
		}
		n := *c
		n.st = c.prev
		n.which = 2
		return n.eval(e.Args[0])
	case "unchanged":
		var cs []*Term
		for _, a := range e.Args {
			n := *c
			n.st = c.old
			n.which = 1
			cs = append(cs, c.eqVal(e, c.eval(a), n.eval(a)))
		}
		return mkAnd(cs...)
	case "len":
		switch x := c.eval(e.Args[0]).(type) {
		case SliceV:
			return x.Len
		case *Term:
			if x.S == SStr {
				return mkSlen(x)
			}
		case MapV:
			return c.ex.leafGet(c.st, "ML:"+typeKey(x.T), []*Term{x.Ref}, SInt)
		case ArrV:
			return mkI(x.N, SInt)
		}
		c.fail(e, "len")
	case "cap":
		return c.eval(e.Args[0]).(SliceV).Cap
	case "off":
		return c.eval(e.Args[0]).(SliceV).Off
	case "arr":
		return c.eval(e.Args[0]).(SliceV).Arr
	case "zerotime":
		z := SUn("T_time.Time")
		return mkVar("zero:"+z.key, z)
	case "row":
		switch x := c.eval(e.Args[0]).(type) {
		case SliceV:
			lf := c.ex.lay.leaves(x.Elem)
			k := 0
			if len(e.Args) > 1 {
				// row(s, "field"): the values of one field of the elements
				for k < len(lf) && lf[k].path != "."+e.Args[1].Name {
					k++
				}
				if k == len(lf) {
					c.fail(e, "no field %s", e.Args[1].Name)
				}
			}
			return mkSelect(c.ex.comp(c.st, c.ex.lay.elemBase(x.Elem)+lf[k].path, SArr(SRef, SArr(SInt, lf[k].sort))), x.Arr)
		case ArrV:
			return x.Rows[0]
		}
		c.fail(e, "row")
	case "comp":
		// comp("pkg.T", "field"): the map from objects to the value of a field
		t := c.ex.prog.typeByKey(e.Args[0].Name)
		if t == nil {
			c.fail(e, "unknown type %s", e.Args[0].Name)
		}
		want := "." + e.Args[1].Name
		for _, lf := range c.ex.lay.leaves(t) {
			if lf.path == want {
				return c.ex.comp(c.st, "O:"+structKey(t)+lf.path, SArr(SRef, lf.sort))
			}
		}
		c.fail(e, "no field %s", want)
	case "gcomp":
		// gcomp("g"): the map from objects to the value of a ghost field
		s, ok := c.spec.Ghosts[e.Args[0].Name]
		if !ok {
			c.fail(e, "no ghost %s", e.Args[0].Name)
		}
		return c.ex.comp(c.st, "G:"+e.Args[0].Name, SArr(SRef, s))
	case "sprintf":
		// sprintf("format", args...): the string fmt.Sprintf makes of strings and ints
		var as []*Term
		for _, x := range e.Args[1:] {
			a := c.toTerm(c.eval(x))
			if a.S == SStr {
				as = append(as, mkApp("box:string", SRef, a))
			} else {
				as = append(as, mkApp("box:int", SRef, c.coerce(a, SI64)))
			}
		}
		return mkApp("sprintf:"+e.Args[0].Name, SStr, as...)
	case "ref":
		return arg(0)
	case "addr":
		// addr("pkg.name"): the address of a package variable
		return mkI(int64(-c.ex.lay.deriv("global V:"+e.Args[0].Name)), SRef)
	case "seen":
		// seen(k): the innermost range over a map has produced the key k
		it := c.st.ghost["range"]
		if it == nil {
			c.fail(e, "no range over a map")
		}
		k := arg(0)
		return mkSelect(mkSelect(c.ex.comp(c.st, "RS:"+k.S.key, SArr(SRef, SArr(k.S, SBool))), it), k)
	case "elemref":
		// elemref(s, k): the pointer to an element of a slice
		x := c.eval(e.Args[0]).(SliceV)
		r := mkApp("elemref:"+c.ex.lay.elemBase(x.Elem), SRef, x.Arr, mkAdd(x.Off, c.evalInt(e.Args[1])))
		refBelow[r] = 0
		return r
	case "mem8":
		// mem8(r): the bytes of the byte array r
		return mkSelect(c.ex.comp(c.st, "M:uint8", SArr(SRef, SBytes)), arg(0))
	case "smap":
		// smap(map, key): what a sync.Map holds for a key
		tg, rf := c.ex.syncMap(c.st)
		m, k := arg(0), arg(1)
		return IfaceV{Tag: mkSelect(mkSelect(tg, m), k), Ref: mkSelect(mkSelect(rf, m), k), T: types.NewInterfaceType(nil, nil)}
	case "tag":
		switch x := c.eval(e.Args[0]).(type) {
		case IfaceV:
			return x.Tag
		}
		c.fail(e, "tag")
	case "dyn":
		// dyn(iface, "pkg.T"): the pointer held by an interface of known dynamic type *T
		x := c.eval(e.Args[0]).(IfaceV)
		t := c.ex.prog.typeByKey(e.Args[1].Name)
		if t == nil {
			c.fail(e, "unknown type %s", e.Args[1].Name)
		}
		if _, ok := t.Underlying().(*types.Pointer); ok {
			return c.ex.ptrOf(x.Ref, t)
		}
		return c.ex.mkPtr(x.Ref, t)
	case "ptr":
		// ptr(ref, "pkg.T"): the object a reference names, as a *T
		t := c.ex.prog.typeByKey(e.Args[1].Name)
		if t == nil {
			c.fail(e, "unknown type %s", e.Args[1].Name)
		}
		return c.ex.mkPtr(arg(0), t)
	case "is":
		x := c.eval(e.Args[0]).(IfaceV)
		t := c.ex.prog.typeByKey(e.Args[1].Name)
		if t == nil {
			c.fail(e, "unknown type %s", e.Args[1].Name)
		}
		return mkEq(x.Tag, mkI(int64(c.ex.lay.tagOf(t)), SInt))
	case "implements":
		x := c.eval(e.Args[0]).(IfaceV)
		t := c.ex.prog.typeByKey(e.Args[1].Name)
		if t == nil {
			c.fail(e, "unknown type %s", e.Args[1].Name)
		}
		return c.ex.implTerm(x.Tag, t)
	case "fresh":
		return mkAnd(c.ex.freshRef(c.old, arg(0)), mkLt(arg(0), c.st.next))
	case "allocated":
		return mkLt(arg(0), c.st.next)
	case "errIs":
		x := c.eval(e.Args[0]).(IfaceV)
		y := c.eval(e.Args[1])
		return c.ex.isErr(x, y.(IfaceV))
	case "has":
		x := c.eval(e.Args[0]).(MapV)
		k := c.coerce(arg(1), c.ex.keySort(x.T))
		return c.ex.leafGet(c.st, "MD:"+typeKey(x.T), []*Term{x.Ref, k}, SBool)
	case "strof":
		s := c.eval(e.Args[0]).(SliceV)
		row := mkSelect(c.ex.comp(c.st, "M:uint8", SArr(SRef, SBytes)), s.Arr)
		return c.ex.strOf(row, s.Off, s.Len)
	case "min", "max":
		a, b := arg(0), arg(1)
		a, b = c.unify(e, a, b)
		if e.Name == "min" {
			return mkIte(mkLe(a, b), a, b)
		}
		return mkIte(mkLe(a, b), b, a)
	case "iface":
		// iface value with given reference ghost: passes interface through
		return c.eval(e.Args[0])
	case "isfunc":
		f := c.eval(e.Args[0]).(FuncV)
		if f.Fn != nil {
			return mkBool(fnKey(f.Fn) == e.Args[1].Name)
		}
		return mkEq(f.Ref, mkI(int64(-c.ex.lay.deriv("func "+e.Args[1].Name)), SRef))
	case "funcref":
		// the reference a function value has when stored in an interface
		return mkI(int64(-c.ex.lay.deriv("func "+e.Args[0].Name)), SRef)
	case "slen":
		return mkSlen(arg(0))
	case "store":
		a := arg(0)
		return mkStore(a, c.coerce(arg(1), a.S.A), c.coerce(arg(2), a.S.B))
	}
	if pf := c.spec.Pures[e.Name]; pf != nil {
		return c.applyPure(e, pf, e.Args)
	}
	if rf := c.spec.Recs[e.Name]; rf != nil {
		if len(rf.Params) != len(e.Args) {
			c.fail(e, "arity of %s", e.Name)
		}
		var as []*Term
		for i := range e.Args {
			as = append(as, c.coerce(arg(i), c.spec.sortOf(rf.Params[i].Type)))
		}
		return mkApp(rf.Name, c.spec.sortOf(rf.Res), as...)
	}
	c.fail(e, "unknown function %s", e.Name)
	return nil
}

func (c *evalCtx) applyPure(e *Expr, pf *PureFn, args []*Expr) Val {
	if len(pf.Params) != len(args) {
		c.fail(e, "arity of %s", pf.Name)
	}
	if c.depth > 60 {
		c.fail(e, "pure function recursion in %s", pf.Name)
	}
	if pf.Body == nil || (pf.Mode != "" && pf.Mode != c.mode.String()) {
		var as []*Term
		for i, a := range args {
			as = append(as, c.coerce(c.toTerm(c.eval(a)), c.spec.sortOf(pf.Params[i].Type)))
		}
		return mkApp(pf.Name, c.spec.sortOf(pf.Res), as...)
	}
	env := map[string]Val{}
	for i, a := range args {
		v := c.eval(a)
		ty := pf.Params[i].Type
		if t, ok := v.(*Term); ok && ty != "" && ty != "any" {
			v = c.coerce(t, c.spec.sortOf(ty))
		}
		env[pf.Params[i].Name] = v
	}
	n := c.with(env)
	n.lookup = nil
	n.depth = c.depth + 1
	r := n.eval(pf.Body)
	if t, ok := r.(*Term); ok && pf.Res != "" && pf.Res != "any" {
		return c.coerce(t, c.spec.sortOf(pf.Res))
	}
	return r
}

func mentions(t, v *Term) bool {
	if t == v {
		return true
	}
	for _, a := range t.Args {
		if mentions(a, v) {
			return true
		}
	}
	return false
}
