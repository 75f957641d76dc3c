package main

// Terms: hash-consed, simplified on construction, lowered to SMT-LIB in one of
// two integer modes (mathematical Int with explicit wrap-around, or bit-vectors).

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

type SK int

const (
	KBool SK = iota
	KInt     // mathematical integer of specifications (BV64 in bv mode)
	KNum     // Go machine integer
	KRef     // object identity
	KStr     // Go string (abstract)
	KArr     // total map A -> B
	KUn      // uninterpreted
)

type Sort struct {
	K    SK
	W    int
	Sg   bool
	A, B *Sort
	Name string
	key  string
}

var sortTab = map[string]*Sort{}

func internSort(s Sort) *Sort {
	switch s.K {
	case KBool:
		s.key = "Bool"
	case KInt:
		s.key = "Int"
	case KRef:
		s.key = "Ref"
	case KStr:
		s.key = "Str"
	case KNum:
		s.key = fmt.Sprintf("u%d", s.W)
		if s.Sg {
			s.key = fmt.Sprintf("i%d", s.W)
		}
	case KArr:
		s.key = "[" + s.A.key + "]" + s.B.key
	case KUn:
		s.key = "U:" + s.Name
	}
	if t, ok := sortTab[s.key]; ok {
		return t
	}
	p := &s
	sortTab[s.key] = p
	return p
}

var (
	SBool = internSort(Sort{K: KBool})
	SInt  = internSort(Sort{K: KInt})
	SRef  = internSort(Sort{K: KRef})
	SStr  = internSort(Sort{K: KStr})
)

func SNum(w int, sg bool) *Sort { return internSort(Sort{K: KNum, W: w, Sg: sg}) }
func SArr(a, b *Sort) *Sort     { return internSort(Sort{K: KArr, A: a, B: b}) }
func SUn(n string) *Sort        { return internSort(Sort{K: KUn, Name: n}) }

var (
	SU8    = SNum(8, false)
	SI64   = SNum(64, true)
	SU64   = SNum(64, false)
	SU32   = SNum(32, false)
	SU16   = SNum(16, false)
	SBytes = SArr(SInt, SU8)
)

func (s *Sort) isInt() bool { return s.K == KInt || s.K == KNum || s.K == KRef }

type Term struct {
	Op   string
	Args []*Term
	S    *Sort
	N    *big.Int // const
	Name string   // var / app / str const / quantifier label
	BV   []*Term  // bound vars of quantifier
	Pat  [][]*Term
	id   int
	fb   bool // has free bound variable occurrences
}

var termTab = map[string]*Term{}
var termCnt int

func intern(t *Term) *Term {
	var sb strings.Builder
	sb.WriteString(t.Op)
	sb.WriteByte('|')
	sb.WriteString(t.Name)
	sb.WriteByte('|')
	sb.WriteString(t.S.key)
	if t.N != nil {
		sb.WriteByte('#')
		sb.WriteString(t.N.String())
	}
	for _, a := range t.Args {
		fmt.Fprintf(&sb, ",%d", a.id)
	}
	for _, a := range t.BV {
		fmt.Fprintf(&sb, ";%d", a.id)
	}
	k := sb.String()
	if x, ok := termTab[k]; ok {
		return x
	}
	termCnt++
	t.id = termCnt
	switch t.Op {
	case "bvar":
		t.fb = true
	case "forall", "exists":
		for v := range freeB(t.Args[0]) {
			own := false
			for _, b := range t.BV {
				own = own || b == v
			}
			if !own {
				t.fb = true
			}
		}
	default:
		for _, a := range t.Args {
			if a.fb {
				t.fb = true
			}
		}
	}
	termTab[k] = t
	return t
}

func freeB(t *Term) map[*Term]bool {
	seen := map[*Term]bool{}
	var rec func(t *Term, bound map[*Term]bool, out map[*Term]bool)
	rec = func(t *Term, bound map[*Term]bool, out map[*Term]bool) {
		if t.Op == "bvar" {
			if !bound[t] {
				out[t] = true
			}
			return
		}
		if t.id != 0 && !t.fb {
			return
		}
		if t.Op == "forall" || t.Op == "exists" {
			nb := map[*Term]bool{}
			for k := range bound {
				nb[k] = true
			}
			for _, v := range t.BV {
				nb[v] = true
			}
			bound = nb
		}
		for _, a := range t.Args {
			rec(a, bound, out)
		}
	}
	rec(t, map[*Term]bool{}, seen)
	return seen
}

func mkTrue() *Term  { return intern(&Term{Op: "true", S: SBool}) }
func mkFalse() *Term { return intern(&Term{Op: "false", S: SBool}) }
func mkBool(b bool) *Term {
	if b {
		return mkTrue()
	}
	return mkFalse()
}
func (t *Term) isTrue() bool  { return t.Op == "true" }
func (t *Term) isFalse() bool { return t.Op == "false" }
func (t *Term) isConst() bool { return t.Op == "const" }

func norm(n *big.Int, s *Sort) *big.Int {
	if s.K != KNum {
		return n
	}
	m := new(big.Int).Lsh(big.NewInt(1), uint(s.W))
	r := new(big.Int).Mod(n, m)
	if s.Sg && r.Bit(s.W-1) == 1 {
		r.Sub(r, m)
	}
	return r
}

func mkConst(n *big.Int, s *Sort) *Term {
	return intern(&Term{Op: "const", N: norm(n, s), S: s})
}
func mkI(n int64, s *Sort) *Term { return mkConst(big.NewInt(n), s) }

func mkVar(name string, s *Sort) *Term { return intern(&Term{Op: "var", Name: name, S: s}) }

var freshCnt int

func mkFresh(name string, s *Sort) *Term {
	freshCnt++
	return mkVar(fmt.Sprintf("%s!%d", name, freshCnt), s)
}
func mkBVar(name string, s *Sort) *Term {
	freshCnt++
	return intern(&Term{Op: "bvar", Name: fmt.Sprintf("%s?%d", name, freshCnt), S: s})
}

func mkApp(name string, s *Sort, args ...*Term) *Term {
	return intern(&Term{Op: "app", Name: name, S: s, Args: args})
}

func sameSort(a, b *Term, ctx string) {
	if a.S != b.S {
		panic(specErr(fmt.Sprintf("sort mismatch in %s: %s vs %s (%s ; %s)", ctx, a.S.key, b.S.key, a, b)))
	}
}

type specErr string

func (e specErr) Error() string { return string(e) }

// additive decomposition: t = base + const
func splitAdd(t *Term) (*Term, *big.Int) {
	if t.Op == "add" && t.Args[1].isConst() {
		return t.Args[0], t.Args[1].N
	}
	if t.isConst() {
		return nil, t.N
	}
	return t, new(big.Int)
}

func mkAdd(a, b *Term) *Term {
	sameSort(a, b, "add")
	if a.isConst() && b.isConst() {
		return mkConst(new(big.Int).Add(a.N, b.N), a.S)
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if b.N.Sign() == 0 {
			return a
		}
		if a.Op == "add" && a.Args[1].isConst() {
			return mkAdd(a.Args[0], mkConst(new(big.Int).Add(a.Args[1].N, b.N), a.S))
		}
		return intern(&Term{Op: "add", Args: []*Term{a, b}, S: a.S})
	}
	// pull constants outwards
	if a.Op == "add" && a.Args[1].isConst() {
		return mkAdd(mkAdd(a.Args[0], b), a.Args[1])
	}
	if b.Op == "add" && b.Args[1].isConst() {
		return mkAdd(mkAdd(a, b.Args[0]), b.Args[1])
	}
	if a.Op == "sub" && a.Args[1] == b {
		return a.Args[0]
	}
	if b.Op == "sub" && b.Args[1] == a {
		return b.Args[0]
	}
	if a.id > b.id {
		a, b = b, a
	}
	return intern(&Term{Op: "add", Args: []*Term{a, b}, S: a.S})
}

func mkSub(a, b *Term) *Term {
	sameSort(a, b, "sub")
	if b.isConst() {
		return mkAdd(a, mkConst(new(big.Int).Neg(b.N), a.S))
	}
	if a == b {
		return mkI(0, a.S)
	}
	if a.Op == "add" {
		if a.Args[0] == b {
			return a.Args[1]
		}
		if a.Args[1] == b {
			return a.Args[0]
		}
		if a.Args[1].isConst() {
			return mkAdd(mkSub(a.Args[0], b), a.Args[1])
		}
	}
	if b.Op == "add" && b.Args[1].isConst() {
		return mkAdd(mkSub(a, b.Args[0]), mkConst(new(big.Int).Neg(b.Args[1].N), a.S))
	}
	if b.Op == "add" {
		if b.Args[0] == a {
			return mkSub(mkI(0, a.S), b.Args[1])
		}
		if b.Args[1] == a {
			return mkSub(mkI(0, a.S), b.Args[0])
		}
	}
	return intern(&Term{Op: "sub", Args: []*Term{a, b}, S: a.S})
}

func mkMul(a, b *Term) *Term {
	sameSort(a, b, "mul")
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if a.isConst() {
			return mkConst(new(big.Int).Mul(a.N, b.N), a.S)
		}
		if b.N.Sign() == 0 {
			return b
		}
		if b.N.Cmp(big.NewInt(1)) == 0 {
			return a
		}
		if (a.S.K == KInt || a.S.K == KRef) && a.Op == "add" && a.Args[1].isConst() {
			return mkAdd(mkMul(a.Args[0], b), mkConst(new(big.Int).Mul(a.Args[1].N, b.N), a.S))
		}
	}
	return intern(&Term{Op: "mul", Args: []*Term{a, b}, S: a.S})
}

func pow2(n int) *big.Int { return new(big.Int).Lsh(big.NewInt(1), uint(n)) }

// quotient and remainder with Go semantics on KNum, floor semantics on KInt
func mkDiv(a, b *Term) *Term {
	sameSort(a, b, "div")
	if b.isConst() && b.N.Cmp(big.NewInt(1)) == 0 {
		return a
	}
	if a.isConst() && b.isConst() && b.N.Sign() != 0 {
		if a.S.K == KInt {
			q, _ := new(big.Int).DivMod(a.N, b.N, new(big.Int))
			return mkConst(q, a.S)
		}
		return mkConst(new(big.Int).Quo(a.N, b.N), a.S)
	}
	return intern(&Term{Op: "div", Args: []*Term{a, b}, S: a.S})
}

func mkRem(a, b *Term) *Term {
	sameSort(a, b, "rem")
	if a.isConst() && b.isConst() && b.N.Sign() != 0 {
		if a.S.K == KInt {
			return mkConst(new(big.Int).Mod(a.N, b.N), a.S)
		}
		return mkConst(new(big.Int).Rem(a.N, b.N), a.S)
	}
	return intern(&Term{Op: "rem", Args: []*Term{a, b}, S: a.S})
}

func unsg(n *big.Int, s *Sort) *big.Int {
	if s.K == KNum && n.Sign() < 0 {
		return new(big.Int).Add(n, pow2(s.W))
	}
	return n
}

func widthOf(s *Sort) int {
	if s.K == KNum {
		return s.W
	}
	return intW
}

// intW is the width given to mathematical integers in bit-vector mode: wide
// enough for every conversion from a 64-bit machine integer to be exact.
const intW = 68

func mkBit(op string, a, b *Term) *Term {
	sameSort(a, b, op)
	if a.isConst() && b.isConst() {
		x, y := unsg(a.N, a.S), unsg(b.N, b.S)
		r := new(big.Int)
		switch op {
		case "and":
			r.And(x, y)
		case "or":
			r.Or(x, y)
		case "xor":
			r.Xor(x, y)
		}
		return mkConst(r, a.S)
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		full := a.S.K == KNum && unsg(b.N, b.S).Cmp(new(big.Int).Sub(pow2(a.S.W), big.NewInt(1))) == 0
		zero := b.N.Sign() == 0
		switch op {
		case "and":
			if zero {
				return b
			}
			if full {
				return a
			}
			if a.Op == "and" && a.Args[1].isConst() {
				return mkBit("and", a.Args[0], mkBit("and", a.Args[1], b))
			}
		case "or":
			if zero {
				return a
			}
			if full {
				return b
			}
		case "xor":
			if zero {
				return a
			}
		}
	} else if a.id > b.id {
		a, b = b, a
	}
	if a == b {
		if op == "xor" {
			return mkI(0, a.S)
		}
		return a
	}
	return intern(&Term{Op: op, Args: []*Term{a, b}, S: a.S})
}

func mkNot(a *Term) *Term { // bitwise complement
	if a.isConst() {
		return mkConst(new(big.Int).Not(a.N), a.S)
	}
	return intern(&Term{Op: "cpl", Args: []*Term{a}, S: a.S})
}

// shift; b must have the sort of a (count, already saturated)
func mkShift(op string, a, b *Term) *Term {
	sameSort(a, b, op)
	if b.isConst() {
		n := unsg(b.N, b.S)
		if n.Sign() == 0 {
			return a
		}
		w := int64(widthOf(a.S))
		big1 := n.Cmp(big.NewInt(w)) >= 0
		if big1 && a.S.K == KNum && (op == "shl" || !a.S.Sg) {
			return mkI(0, a.S)
		}
		if a.isConst() {
			k := uint(200)
			if n.IsInt64() && n.Int64() < 200 {
				k = uint(n.Int64())
			}
			if op == "shl" {
				return mkConst(new(big.Int).Lsh(a.N, k), a.S)
			}
			return mkConst(new(big.Int).Rsh(a.N, k), a.S)
		}
	}
	if a.isConst() && a.N.Sign() == 0 {
		return a
	}
	return intern(&Term{Op: op, Args: []*Term{a, b}, S: a.S})
}

func rng(s *Sort) (lo, hi *big.Int) {
	if s.Sg {
		h := pow2(s.W - 1)
		return new(big.Int).Neg(h), new(big.Int).Sub(h, big.NewInt(1))
	}
	return new(big.Int), new(big.Int).Sub(pow2(s.W), big.NewInt(1))
}

func subRange(a, b *Sort) bool {
	if a.K != KNum || b.K != KNum {
		return b.K == KInt && a.K == KNum
	}
	al, ah := rng(a)
	bl, bh := rng(b)
	return al.Cmp(bl) >= 0 && ah.Cmp(bh) <= 0
}

func mkConv(a *Term, s *Sort) *Term {
	if a.S == s {
		return a
	}
	if !a.S.isInt() || !s.isInt() {
		panic(specErr("bad conversion " + a.S.key + " to " + s.key))
	}
	if a.isConst() {
		return mkConst(a.N, s)
	}
	if a.Op == "convr" {
		if s.K == KInt {
			return a.Args[0]
		}
		if s.K == KNum && s.W >= a.S.W && (s.Sg == a.S.Sg) {
			return mkConvR(a.Args[0], s)
		}
	}
	if a.Op == "conv" {
		in := a.Args[0]
		// in -> mid -> s ; collapse if in fits in mid, or if truncating further (modular)
		if in.S.K == KNum && subRange(in.S, a.S) {
			return mkConv(in, s)
		}
		if in.S.K == KInt && a.S.K == KNum && s.K == KNum && s.W <= a.S.W {
			return mkConv(in, s)
		}
		if in.S.K == KNum && a.S.K == KNum && s.K == KNum && s.W <= a.S.W {
			return mkConv(in, s)
		}
	}
	if a.Op == "ite" && (a.Args[1].isConst() || a.Args[2].isConst()) {
		return mkIte(a.Args[0], mkConv(a.Args[1], s), mkConv(a.Args[2], s))
	}
	return intern(&Term{Op: "conv", Args: []*Term{a}, S: s})
}

// mkConvR converts a mathematical integer that is known to be representable in s.
func mkConvR(a *Term, s *Sort) *Term {
	if a.S == s {
		return a
	}
	if a.isConst() {
		return mkConst(a.N, s)
	}
	if a.Op == "conv" && a.Args[0].S == s && a.S.K == KInt {
		return a.Args[0]
	}
	return intern(&Term{Op: "convr", Args: []*Term{a}, S: s})
}

func mkBNot(a *Term) *Term {
	switch a.Op {
	case "true":
		return mkFalse()
	case "false":
		return mkTrue()
	case "bnot":
		return a.Args[0]
	case "lt":
		return mkLe(a.Args[1], a.Args[0])
	case "le":
		return mkLt(a.Args[1], a.Args[0])
	}
	return intern(&Term{Op: "bnot", Args: []*Term{a}, S: SBool})
}

func mkAnd(ts ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t.isFalse() {
			return false
		}
		if t.isTrue() || seen[t] {
			return true
		}
		if t.Op == "band" {
			for _, a := range t.Args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		if seen[mkBNot(t)] {
			return false
		}
		seen[t] = true
		out = append(out, t)
		return true
	}
	for _, t := range ts {
		if t.S != SBool {
			panic(specErr("and: non-bool " + t.String()))
		}
		if !add(t) {
			return mkFalse()
		}
	}
	if len(out) == 0 {
		return mkTrue()
	}
	if len(out) == 1 {
		return out[0]
	}
	return intern(&Term{Op: "band", Args: out, S: SBool})
}

func mkOr(ts ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t.isTrue() {
			return false
		}
		if t.isFalse() || seen[t] {
			return true
		}
		if t.Op == "bor" {
			for _, a := range t.Args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		if seen[mkBNot(t)] {
			return false
		}
		seen[t] = true
		out = append(out, t)
		return true
	}
	for _, t := range ts {
		if t.S != SBool {
			panic(specErr("or: non-bool " + t.String()))
		}
		if !add(t) {
			return mkTrue()
		}
	}
	if len(out) == 0 {
		return mkFalse()
	}
	if len(out) == 1 {
		return out[0]
	}
	return intern(&Term{Op: "bor", Args: out, S: SBool})
}

func mkImp(a, b *Term) *Term {
	if a.isTrue() {
		return b
	}
	if a.isFalse() || b.isTrue() {
		return mkTrue()
	}
	if b.isFalse() {
		return mkBNot(a)
	}
	if a == b {
		return mkTrue()
	}
	return intern(&Term{Op: "imp", Args: []*Term{a, b}, S: SBool})
}

func mkIte(c, a, b *Term) *Term {
	sameSort(a, b, "ite")
	if c.isTrue() || a == b {
		return a
	}
	if c.isFalse() {
		return b
	}
	if a.S == SBool {
		if a.isTrue() && b.isFalse() {
			return c
		}
		if a.isFalse() && b.isTrue() {
			return mkBNot(c)
		}
		if a.isTrue() {
			return mkOr(c, b)
		}
		if a.isFalse() {
			return mkAnd(mkBNot(c), b)
		}
		if b.isTrue() {
			return mkOr(mkBNot(c), a)
		}
		if b.isFalse() {
			return mkAnd(c, a)
		}
	}
	if c.Op == "bnot" {
		return mkIte(c.Args[0], b, a)
	}
	return intern(&Term{Op: "ite", Args: []*Term{c, a, b}, S: a.S})
}

func mkLt(a, b *Term) *Term {
	sameSort(a, b, "lt")
	if x, y, ok := liftR(a, b); ok {
		return mkLt(x, y)
	}
	if a.isConst() && b.isConst() {
		return mkBool(a.N.Cmp(b.N) < 0)
	}
	if a == b {
		return mkFalse()
	}
	if a.S.K == KInt || a.S.K == KRef {
		ba, ca := splitAdd(a)
		bb, cb := splitAdd(b)
		if ba == bb {
			return mkBool(ca.Cmp(cb) < 0)
		}
	}
	if a.S.K == KNum {
		lo, hi := rng(a.S)
		if b.isConst() && b.N.Cmp(lo) == 0 {
			return mkFalse()
		}
		if a.isConst() && a.N.Cmp(hi) == 0 {
			return mkFalse()
		}
		if a.Op == "conv" && b.isConst() && subRange(a.Args[0].S, a.S) {
			_, h := rng(a.Args[0].S)
			if h.Cmp(b.N) < 0 {
				return mkTrue()
			}
		}
	}
	return intern(&Term{Op: "lt", Args: []*Term{a, b}, S: SBool})
}

func mkLe(a, b *Term) *Term {
	sameSort(a, b, "le")
	if x, y, ok := liftR(a, b); ok {
		return mkLe(x, y)
	}
	if a.isConst() && b.isConst() {
		return mkBool(a.N.Cmp(b.N) <= 0)
	}
	if a == b {
		return mkTrue()
	}
	if a.S.K == KInt || a.S.K == KRef {
		ba, ca := splitAdd(a)
		bb, cb := splitAdd(b)
		if ba == bb {
			return mkBool(ca.Cmp(cb) <= 0)
		}
	}
	if a.S.K == KNum {
		lo, hi := rng(a.S)
		if a.isConst() && a.N.Cmp(lo) == 0 {
			return mkTrue()
		}
		if b.isConst() && b.N.Cmp(hi) == 0 {
			return mkTrue()
		}
	}
	return intern(&Term{Op: "le", Args: []*Term{a, b}, S: SBool})
}

// definitely distinct references
func refDistinct(a, b *Term) bool {
	if a.S.K != KRef {
		return false
	}
	ba, ca := splitAdd(a)
	bb, cb := splitAdd(b)
	if ba == bb {
		return ca.Cmp(cb) != 0
	}
	// fresh base+c vs. old ref
	isBase := func(t *Term) bool { return t != nil && t.Op == "var" && strings.HasPrefix(t.Name, "next") }
	if isBase(ba) && ca.Sign() >= 0 && olderThan(b, ba) {
		return true
	}
	if isBase(bb) && cb.Sign() >= 0 && olderThan(a, bb) {
		return true
	}
	return false
}

// refAge records, for reference-valued symbols and heap snapshots, that their
// values are below a given allocation frontier.
var frontierOrd = map[*Term]int{} // frontier var -> ordinal
var refBelow = map[*Term]int{}    // term (var or array var) -> all refs held are < frontier with this ordinal

// ageOf: ordinal of a frontier below which the reference certainly lies.
func ageOf(t *Term) (int, bool) {
	if t.isConst() {
		return -1, t.N.Sign() <= 0
	}
	if o, ok := refBelow[t]; ok {
		return o, true
	}
	if t.Op == "mul" && t.Args[1].isConst() && t.Args[1].N.Sign() < 0 {
		return -1, true
	}
	b, c := splitAdd(t)
	if b != nil && b != t && b.Op == "mul" && b.Args[1].isConst() && b.Args[1].N.Sign() < 0 && c.Sign() <= 0 {
		return -1, true
	}
	if t.Op == "select" {
		r := t
		first := t
		for r.Op == "select" {
			first = r
			r = r.Args[0]
		}
		if r.Op != "var" {
			return 0, false
		}
		o, ok := refBelow[r]
		if !ok {
			return 0, false
		}
		if first.Args[1].S.K != KRef {
			return o, true
		}
		k, ok := ageOf(first.Args[1])
		return o, ok && k <= o
	}
	if t.Op == "ite" {
		x, ok1 := ageOf(t.Args[1])
		y, ok2 := ageOf(t.Args[2])
		return max(x, y), ok1 && ok2
	}
	return 0, false
}

func olderThan(t, frontier *Term) bool {
	fo, ok := frontierOrd[frontier]
	if !ok {
		return false
	}
	o, ok := ageOf(t)
	return ok && o <= fo
}

// liftR lifts a comparison of range-known conversions to mathematical integers.
func liftR(a, b *Term) (*Term, *Term, bool) {
	if a.Op == "convr" && b.Op == "convr" {
		return a.Args[0], b.Args[0], true
	}
	if a.Op == "convr" && b.isConst() && !(b.S.K == KNum && !b.S.Sg && b.S.W == 64 && b.N.BitLen() > 63) {
		return a.Args[0], mkConst(b.N, SInt), true
	}
	if b.Op == "convr" && a.isConst() && !(a.S.K == KNum && !a.S.Sg && a.S.W == 64 && a.N.BitLen() > 63) {
		return mkConst(a.N, SInt), b.Args[0], true
	}
	return nil, nil, false
}

func mkEq(a, b *Term) *Term {
	sameSort(a, b, "eq")
	if x, y, ok := liftR(a, b); ok {
		return mkEq(x, y)
	}
	if a == b {
		return mkTrue()
	}
	if a.isConst() && b.isConst() {
		return mkBool(a.N.Cmp(b.N) == 0)
	}
	if a.Op == "strc" && b.Op == "strc" {
		return mkFalse()
	}
	if a.S == SBool {
		if a.isTrue() {
			return b
		}
		if b.isTrue() {
			return a
		}
		if a.isFalse() {
			return mkBNot(b)
		}
		if b.isFalse() {
			return mkBNot(a)
		}
	}
	if a.S.isInt() {
		ba, ca := splitAdd(a)
		bb, cb := splitAdd(b)
		if ba == bb {
			return mkBool(mkConst(ca, a.S).N.Cmp(mkConst(cb, a.S).N) == 0)
		}
		if ba != nil && bb != nil && (ca.Sign() != 0 && cb.Sign() != 0) && a.S.K != KNum {
			d := new(big.Int).Sub(cb, ca)
			return mkEq(ba, mkAdd(bb, mkConst(d, a.S)))
		}
		if bb == nil && ba != nil && ca.Sign() != 0 { // x+c == k
			return mkEq(ba, mkConst(new(big.Int).Sub(b.N, ca), a.S))
		}
		if ba == nil && bb != nil && cb.Sign() != 0 {
			return mkEq(bb, mkConst(new(big.Int).Sub(a.N, cb), a.S))
		}
		if refDistinct(a, b) {
			return mkFalse()
		}
		if a.Op == "conv" && b.isConst() && a.Args[0].S.K == KNum && subRange(a.Args[0].S, a.S) {
			lo, hi := rng(a.Args[0].S)
			if b.N.Cmp(lo) < 0 || b.N.Cmp(hi) > 0 {
				return mkFalse()
			}
			return mkEq(a.Args[0], mkConst(b.N, a.Args[0].S))
		}
		if b.Op == "conv" && a.isConst() {
			return mkEq(b, a)
		}
		if a.Op == "ite" && b.isConst() && (a.Args[1].isConst() || a.Args[2].isConst()) {
			return mkIte(a.Args[0], mkEq(a.Args[1], b), mkEq(a.Args[2], b))
		}
		if b.Op == "ite" && a.isConst() {
			return mkEq(b, a)
		}
	}
	if a.S == SStr {
		if a.Op == "strc" && b.Op == "strc" {
			return mkBool(a.Name == b.Name)
		}
		if a.Op == "strc" {
			a, b = b, a
		}
		if b.Op == "strc" && len(b.Name) <= 16 {
			cs := []*Term{mkEq(mkSlen(a), mkI(int64(len(b.Name)), SInt))}
			for i := 0; i < len(b.Name); i++ {
				cs = append(cs, mkEq(mkSat(a, mkI(int64(i), SInt)), mkI(int64(b.Name[i]), SU8)))
			}
			return mkAnd(cs...)
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return intern(&Term{Op: "eq", Args: []*Term{a, b}, S: SBool})
}

func mkSelect(a, i *Term) *Term {
	if a.S.K != KArr || a.S.A != i.S {
		panic(specErr(fmt.Sprintf("bad select %s[%s:%s]", a.S.key, i, i.S.key)))
	}
	for a.Op == "store" {
		e := mkEq(a.Args[1], i)
		if e.isTrue() {
			return a.Args[2]
		}
		if e.isFalse() {
			a = a.Args[0]
			continue
		}
		break
	}
	if a.Op == "constarr" {
		return a.Args[0]
	}
	if a.Op == "ite" {
		return mkIte(a.Args[0], mkSelect(a.Args[1], i), mkSelect(a.Args[2], i))
	}
	return intern(&Term{Op: "select", Args: []*Term{a, i}, S: a.S.B})
}

func mkStore(a, i, v *Term) *Term {
	if a.S.K != KArr || a.S.A != i.S || a.S.B != v.S {
		panic(specErr(fmt.Sprintf("bad store %s[%s]=%s", a.S.key, i.S.key, v.S.key)))
	}
	if a.Op == "store" && a.Args[1] == i {
		a = a.Args[0]
	}
	if v.Op == "select" && v.Args[0] == a && v.Args[1] == i {
		return a
	}
	return intern(&Term{Op: "store", Args: []*Term{a, i, v}, S: a.S})
}

func mkConstArr(s *Sort, v *Term) *Term {
	return intern(&Term{Op: "constarr", Args: []*Term{v}, S: s})
}

func mkStrConst(s string) *Term { return intern(&Term{Op: "strc", Name: s, S: SStr}) }

func mkSlen(s *Term) *Term {
	switch {
	case s.Op == "strc":
		return mkI(int64(len(s.Name)), SInt)
	case s.Op == "app" && s.Name == "ssub":
		return mkSub(s.Args[2], s.Args[1])
	case s.Op == "app" && s.Name == "scat":
		return mkAdd(mkSlen(s.Args[0]), mkSlen(s.Args[1]))
	case s.Op == "app" && s.Name == "strof":
		return s.Args[2]
	case s.Op == "ite":
		return mkIte(s.Args[0], mkSlen(s.Args[1]), mkSlen(s.Args[2]))
	}
	return mkApp("slen", SInt, s)
}

func mkSat(s, i *Term) *Term {
	switch {
	case s.Op == "strc" && i.isConst():
		k := i.N.Int64()
		if k >= 0 && k < int64(len(s.Name)) {
			return mkI(int64(s.Name[k]), SU8)
		}
	case s.Op == "app" && s.Name == "ssub":
		return mkSat(s.Args[0], mkAdd(s.Args[1], i))
	case s.Op == "app" && s.Name == "strof":
		return mkSelect(s.Args[0], mkAdd(s.Args[1], i))
	case s.Op == "app" && s.Name == "scat":
		n := mkSlen(s.Args[0])
		return mkIte(mkLt(i, n), mkSat(s.Args[0], i), mkSat(s.Args[1], mkSub(i, n)))
	}
	return mkApp("sat", SU8, s, i)
}

func mkSsub(s, i, j *Term) *Term {
	if i.isConst() && i.N.Sign() == 0 && j == mkSlen(s) {
		return s
	}
	if s.Op == "strc" && i.isConst() && j.isConst() {
		return mkStrConst(s.Name[i.N.Int64():j.N.Int64()])
	}
	if s.Op == "app" && s.Name == "ssub" {
		return mkSsub(s.Args[0], mkAdd(s.Args[1], i), mkAdd(s.Args[1], j))
	}
	if s.Op == "ite" {
		return mkIte(s.Args[0], mkSsub(s.Args[1], i, j), mkSsub(s.Args[2], i, j))
	}
	return mkApp("ssub", SStr, s, i, j)
}

func mkScat(a, b *Term) *Term {
	if a.Op == "strc" && a.Name == "" {
		return b
	}
	if b.Op == "strc" && b.Name == "" {
		return a
	}
	if a.Op == "strc" && b.Op == "strc" {
		return mkStrConst(a.Name + b.Name)
	}
	return mkApp("scat", SStr, a, b)
}

func mkForall(vs []*Term, body *Term, pats [][]*Term) *Term {
	if body.isTrue() || body.isFalse() {
		return body
	}
	if len(vs) == 1 && len(pats) >= 1 {
		// re-centre  forall k :: {A[off+k]} P(k)  as  forall j :: {A[j]} P(j-off)
		k := vs[0]
		var ix *Term
		ok := true
		for _, ps := range pats {
			if len(ps) != 1 || ps[0].Op != "select" || ps[0].Args[1] == k || hasVar(ps[0].Args[0], k) || !hasVar(ps[0].Args[1], k) || ix != nil && ps[0].Args[1] != ix {
				ok = false
				break
			}
			ix = ps[0].Args[1]
		}
		if ok {
			off := subst(ix, map[*Term]*Term{k: mkI(0, k.S)})
			if mkAdd(off, k) == ix {
				body = subst(body, map[*Term]*Term{k: mkSub(k, off), ix: k})
				var np [][]*Term
				for _, ps := range pats {
					np = append(np, []*Term{mkSelect(ps[0].Args[0], k)})
				}
				pats = np
			}
		}
	}
	if len(vs) > 1 && len(pats) == 1 && len(pats[0]) == len(vs) {
		// the same for  forall i, j :: {A[off+i], B[off+j]}
		m := map[*Term]*Term{}
		var np []*Term
		ok := true
		for i, p := range pats[0] {
			k := vs[i]
			if p.Op != "select" || hasVar(p.Args[0], k) || !hasVar(p.Args[1], k) {
				ok = false
				break
			}
			ix := p.Args[1]
			for j, o := range vs {
				if j != i && hasVar(p, o) {
					ok = false
				}
			}
			off := subst(ix, map[*Term]*Term{k: mkI(0, k.S)})
			if !ok || mkAdd(off, k) != ix {
				ok = false
				break
			}
			if ix != k {
				m[k] = mkSub(k, off)
				m[ix] = k
			}
			np = append(np, mkSelect(p.Args[0], k))
		}
		if ok && len(m) > 0 {
			body = subst(body, m)
			pats = [][]*Term{np}
		}
	}
	t := &Term{Op: "forall", BV: vs, Args: []*Term{body}, S: SBool, Pat: pats}
	return intern(t)
}

func hasVar(t, v *Term) bool {
	if t == v {
		return true
	}
	if !t.fb {
		return false
	}
	for _, a := range t.Args {
		if hasVar(a, v) {
			return true
		}
	}
	return false
}
func mkExists(vs []*Term, body *Term, pats [][]*Term) *Term {
	if body.isTrue() || body.isFalse() {
		return body
	}
	t := &Term{Op: "exists", BV: vs, Args: []*Term{body}, S: SBool, Pat: pats}
	return intern(t)
}

// rebuild through simplifying constructors
func rebuild(t *Term, args []*Term) *Term {
	switch t.Op {
	case "add":
		return mkAdd(args[0], args[1])
	case "sub":
		return mkSub(args[0], args[1])
	case "mul":
		return mkMul(args[0], args[1])
	case "div":
		return mkDiv(args[0], args[1])
	case "rem":
		return mkRem(args[0], args[1])
	case "and", "or", "xor":
		return mkBit(t.Op, args[0], args[1])
	case "cpl":
		return mkNot(args[0])
	case "shl", "shr":
		return mkShift(t.Op, args[0], args[1])
	case "conv":
		return mkConv(args[0], t.S)
	case "convr":
		return mkConvR(args[0], t.S)
	case "bnot":
		return mkBNot(args[0])
	case "band":
		return mkAnd(args...)
	case "bor":
		return mkOr(args...)
	case "imp":
		return mkImp(args[0], args[1])
	case "ite":
		return mkIte(args[0], args[1], args[2])
	case "lt":
		return mkLt(args[0], args[1])
	case "le":
		return mkLe(args[0], args[1])
	case "eq":
		return mkEq(args[0], args[1])
	case "select":
		return mkSelect(args[0], args[1])
	case "store":
		return mkStore(args[0], args[1], args[2])
	case "constarr":
		return mkConstArr(t.S, args[0])
	case "app":
		switch t.Name {
		case "slen":
			return mkSlen(args[0])
		case "sat":
			return mkSat(args[0], args[1])
		case "ssub":
			return mkSsub(args[0], args[1], args[2])
		case "scat":
			return mkScat(args[0], args[1])
		}
		return mkApp(t.Name, t.S, args...)
	case "forall":
		return mkForall(t.BV, args[0], t.Pat)
	case "exists":
		return mkExists(t.BV, args[0], t.Pat)
	}
	return t
}

func subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.Args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		ch := false
		args := make([]*Term, len(t.Args))
		for i, a := range t.Args {
			args[i] = rec(a)
			if args[i] != a {
				ch = true
			}
		}
		r := t
		if ch {
			if (t.Op == "forall" || t.Op == "exists") && len(t.Pat) > 0 {
				var np [][]*Term
				for _, p := range t.Pat {
					var q []*Term
					for _, x := range p {
						q = append(q, rec(x))
					}
					np = append(np, q)
				}
				if t.Op == "forall" {
					r = mkForall(t.BV, args[0], np)
				} else {
					r = mkExists(t.BV, args[0], np)
				}
			} else {
				r = rebuild(t, args)
			}
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

func (t *Term) String() string {
	if t == nil {
		return "<nil>"
	}
	switch t.Op {
	case "const":
		return t.N.String()
	case "var", "bvar":
		return t.Name
	case "strc":
		return fmt.Sprintf("%q", t.Name)
	case "true", "false":
		return t.Op
	case "app":
		var s []string
		for _, a := range t.Args {
			s = append(s, a.String())
		}
		return t.Name + "(" + strings.Join(s, ",") + ")"
	case "forall", "exists":
		var s []string
		for _, a := range t.BV {
			s = append(s, a.Name)
		}
		return "(" + t.Op + " " + strings.Join(s, " ") + " :: " + t.Args[0].String() + ")"
	}
	var s []string
	for _, a := range t.Args {
		s = append(s, a.String())
	}
	op := t.Op
	if op == "conv" {
		op = t.S.key
	}
	return "(" + op + " " + strings.Join(s, " ") + ")"
}

func termVars(t *Term, seen map[*Term]bool, out map[*Term]bool) {
	if seen[t] {
		return
	}
	seen[t] = true
	if t.Op == "var" {
		out[t] = true
	}
	for _, a := range t.Args {
		termVars(a, seen, out)
	}
}

func sortedTerms(m map[*Term]bool) []*Term {
	var r []*Term
	for t := range m {
		r = append(r, t)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].id < r[j].id })
	return r
}
