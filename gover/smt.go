package main

import (
	"bytes"
	"context"
	"fmt"
	"math/big"
	"os"
	"os/exec"
	"sort"
	"strings"
	"time"
)

type Mode int

const (
	ModeInt Mode = iota
	ModeBV
)

func (m Mode) String() string {
	if m == ModeBV {
		return "bv"
	}
	return "int"
}

type lower struct {
	mode  Mode
	spec  *Spec
	decls []string
	defs  []string
	seen  map[*Term]string // ground compound -> name or text
	dvar  map[string]bool
	fun   map[string]bool
	sorts map[string]bool
	extra []*Term // extra assertions discovered while collecting
	err   error
}

func (l *lower) sort(s *Sort) string {
	switch s.K {
	case KBool:
		return "Bool"
	case KInt:
		if l.mode == ModeBV {
			return fmt.Sprintf("(_ BitVec %d)", intW)
		}
		return "Int"
	case KRef:
		return "Int"
	case KNum:
		if l.mode == ModeBV {
			return fmt.Sprintf("(_ BitVec %d)", s.W)
		}
		return "Int"
	case KStr:
		l.declSort("Str")
		return "Str"
	case KUn:
		l.declSort("U_" + s.Name)
		return "U_" + s.Name
	case KArr:
		return "(Array " + l.sort(s.A) + " " + l.sort(s.B) + ")"
	}
	panic("sort")
}

func (l *lower) declSort(n string) {
	if !l.sorts[n] {
		l.sorts[n] = true
		l.decls = append(l.decls, "(declare-sort "+n+" 0)")
	}
}

func sym(n string) string { return "|" + strings.ReplaceAll(n, "|", "_") + "|" }

func intLit(n *big.Int) string {
	if n.Sign() < 0 {
		return "(- " + new(big.Int).Neg(n).String() + ")"
	}
	return n.String()
}

func (l *lower) lit(n *big.Int, s *Sort) string {
	if s.K == KRef || l.mode == ModeInt {
		return intLit(n)
	}
	w := widthOf(s)
	m := new(big.Int).Mod(n, pow2(w))
	return fmt.Sprintf("(_ bv%s %d)", m.String(), w)
}

func (l *lower) isBV(s *Sort) bool { return l.mode == ModeBV && s.K != KRef }

func wrapS(s *Sort, x string) string {
	if s.K != KNum {
		return x
	}
	if s.Sg {
		return fmt.Sprintf("(wrap_s%d %s)", s.W, x)
	}
	return fmt.Sprintf("(wrap_u%d %s)", s.W, x)
}
func modS(s *Sort, x string) string {
	if s.K != KNum {
		return x
	}
	if s.Sg {
		return fmt.Sprintf("(mod_s%d %s)", s.W, x)
	}
	return fmt.Sprintf("(mod %s %s)", x, pow2(s.W))
}

func intPrelude() string {
	var sb strings.Builder
	for _, w := range []int{8, 16, 32, 64} {
		p := pow2(w)
		h := pow2(w - 1)
		fmt.Fprintf(&sb, "(define-fun wrap_u%d ((x Int)) Int (ite (>= x %s) (- x %s) (ite (< x 0) (+ x %s) x)))\n", w, p, p, p)
		fmt.Fprintf(&sb, "(define-fun wrap_s%d ((x Int)) Int (ite (>= x %s) (- x %s) (ite (< x (- %s)) (+ x %s) x)))\n", w, h, p, h, p)
		fmt.Fprintf(&sb, "(define-fun mod_s%d ((x Int)) Int (let ((m (mod x %s))) (ite (>= m %s) (- m %s) m)))\n", w, p, h, p)
	}
	return sb.String()
}

// contiguous mask: returns shift, bits, ok
func contigMask(n *big.Int) (int, int, bool) {
	if n.Sign() <= 0 {
		return 0, 0, false
	}
	sh := int(n.TrailingZeroBits())
	m := new(big.Int).Rsh(n, uint(sh))
	b := m.BitLen()
	if new(big.Int).Add(m, big.NewInt(1)).Cmp(pow2(b)) == 0 {
		return sh, b, true
	}
	return 0, 0, false
}

func (l *lower) declFun(name string, args []*Sort, res *Sort) {
	if l.fun[name] {
		return
	}
	l.fun[name] = true
	var as []string
	for _, a := range args {
		as = append(as, l.sort(a))
	}
	l.decls = append(l.decls, fmt.Sprintf("(declare-fun %s (%s) %s)", sym(name), strings.Join(as, " "), l.sort(res)))
}

// text returns the SMT text of t, introducing definitions for ground compounds.
func (l *lower) text(t *Term) string {
	if s, ok := l.seen[t]; ok {
		return s
	}
	s := l.raw(t)
	if !t.fb && len(t.Args) > 0 && t.Op != "forall" && t.Op != "exists" && len(s) > 24 {
		n := fmt.Sprintf("t%d", t.id)
		l.defs = append(l.defs, fmt.Sprintf("(define-fun %s () %s %s)", n, l.sort(t.S), s))
		s = n
	}
	l.seen[t] = s
	return s
}

func (l *lower) raw(t *Term) string {
	a := func(i int) string { return l.text(t.Args[i]) }
	bin := func(op string) string { return "(" + op + " " + a(0) + " " + a(1) + ")" }
	switch t.Op {
	case "true", "false":
		return t.Op
	case "const":
		return l.lit(t.N, t.S)
	case "var":
		if !l.dvar[t.Name] {
			l.dvar[t.Name] = true
			l.decls = append(l.decls, fmt.Sprintf("(declare-const %s %s)", sym(t.Name), l.sort(t.S)))
		}
		return sym(t.Name)
	case "bvar":
		return sym(t.Name)
	case "strc":
		n := "str:" + t.Name
		if !l.dvar[n] {
			l.dvar[n] = true
			l.decls = append(l.decls, fmt.Sprintf("(declare-const %s %s)", sym(strc(t.Name)), l.sort(SStr)))
		}
		return sym(strc(t.Name))
	case "app":
		var ss []*Sort
		for _, x := range t.Args {
			ss = append(ss, x.S)
		}
		// args first, so that declarations precede
		var as []string
		for i := range t.Args {
			as = append(as, a(i))
		}
		l.declFun(t.Name, ss, t.S)
		if len(as) == 0 {
			return sym(t.Name)
		}
		return "(" + sym(t.Name) + " " + strings.Join(as, " ") + ")"
	case "band", "bor":
		var as []string
		for i := range t.Args {
			as = append(as, a(i))
		}
		return "(" + t.Op[1:] + " " + strings.Join(as, " ") + ")"
	case "bnot":
		return "(not " + a(0) + ")"
	case "imp":
		return bin("=>")
	case "ite":
		return "(ite " + a(0) + " " + a(1) + " " + a(2) + ")"
	case "eq":
		return bin("=")
	case "select":
		return bin("select")
	case "store":
		return "(store " + a(0) + " " + a(1) + " " + a(2) + ")"
	case "constarr":
		return fmt.Sprintf("((as const %s) %s)", l.sort(t.S), a(0))
	case "forall", "exists":
		var vs []string
		for _, v := range t.BV {
			vs = append(vs, "("+sym(v.Name)+" "+l.sort(v.S)+")")
		}
		body := a(0)
		var pats [][]*Term
		for _, p := range t.Pat {
			ok := true
			for _, x := range p {
				if x.Op != "select" && x.Op != "app" || !l.patOK(x) {
					ok = false
				}
			}
			for _, v := range t.BV {
				in := false
				for _, x := range p {
					in = in || hasVar(x, v)
				}
				ok = ok && in
			}
			if ok {
				pats = append(pats, p)
			}
		}
		if len(pats) > 0 {
			body = "(! " + body
			for _, p := range pats {
				var ps []string
				for _, x := range p {
					ps = append(ps, l.text(x))
				}
				body += " :pattern (" + strings.Join(ps, " ") + ")"
			}
			body += ")"
		}
		return "(" + t.Op + " (" + strings.Join(vs, " ") + ") " + body + ")"
	}
	if t.Op == "convr" {
		if l.mode == ModeInt {
			return a(0)
		}
		return fmt.Sprintf("((_ extract %d 0) %s)", widthOf(t.S)-1, a(0))
	}
	// arithmetic
	var as *Sort
	if len(t.Args) > 0 {
		as = t.Args[0].S
	}
	if l.isBV(as) {
		sg := as.K == KInt || as.Sg
		pick := func(s, u string) string {
			if sg {
				return bin(s)
			}
			return bin(u)
		}
		switch t.Op {
		case "add":
			return bin("bvadd")
		case "sub":
			return bin("bvsub")
		case "mul":
			return bin("bvmul")
		case "div":
			if as.K == KInt {
				return bin("bvsdiv")
			}
			return pick("bvsdiv", "bvudiv")
		case "rem":
			return pick("bvsrem", "bvurem")
		case "and":
			return bin("bvand")
		case "or":
			return bin("bvor")
		case "xor":
			return bin("bvxor")
		case "cpl":
			return "(bvnot " + a(0) + ")"
		case "shl":
			return bin("bvshl")
		case "shr":
			return pick("bvashr", "bvlshr")
		case "lt":
			return pick("bvslt", "bvult")
		case "le":
			return pick("bvsle", "bvule")
		case "conv":
			if t.S.K == KRef {
				panic(specErr("conv to ref in bv mode"))
			}
			f, to := widthOf(as), widthOf(t.S)
			switch {
			case f == to:
				return a(0)
			case f > to:
				return fmt.Sprintf("((_ extract %d 0) %s)", to-1, a(0))
			case sg:
				return fmt.Sprintf("((_ sign_extend %d) %s)", to-f, a(0))
			default:
				return fmt.Sprintf("((_ zero_extend %d) %s)", to-f, a(0))
			}
		}
		panic("bv op " + t.Op)
	}
	// integers
	switch t.Op {
	case "add":
		b := t.Args[1]
		if b.isConst() {
			n := b.N
			if b.S.K == KNum && !b.S.Sg && n.Cmp(pow2(b.S.W-1)) > 0 {
				n = new(big.Int).Sub(n, pow2(b.S.W))
			}
			if n.Sign() < 0 {
				return wrapS(t.S, "(- "+a(0)+" "+new(big.Int).Neg(n).String()+")")
			}
			return wrapS(t.S, "(+ "+a(0)+" "+n.String()+")")
		}
		return wrapS(t.S, bin("+"))
	case "sub":
		return wrapS(t.S, bin("-"))
	case "mul":
		return modS(t.S, bin("*"))
	case "div":
		if as.K == KInt || !as.Sg {
			return bin("div")
		}
		return fmt.Sprintf("(ite (>= %s 0) (div %s %s) (- (div (- %s) %s)))", a(0), a(0), a(1), a(0), a(1))
	case "rem":
		if as.K == KInt || !as.Sg {
			return bin("mod")
		}
		return fmt.Sprintf("(ite (>= %s 0) (mod %s %s) (- (mod (- %s) %s)))", a(0), a(0), a(1), a(0), a(1))
	case "and":
		if b := t.Args[1]; b.isConst() {
			if sh, n, ok := contigMask(unsg(b.N, b.S)); ok {
				x := a(0)
				if sh == 0 {
					return fmt.Sprintf("(mod %s %s)", x, pow2(n))
				}
				return fmt.Sprintf("(* (mod (div %s %s) %s) %s)", x, pow2(sh), pow2(n), pow2(sh))
			}
		}
		fallthrough
	case "or", "xor":
		if ma, mb := bitMask(t.Args[0]), bitMask(t.Args[1]); ma != nil && mb != nil && new(big.Int).And(ma, mb).Sign() == 0 {
			return bin("+")
		}
		n := "bit_" + t.Op + "_" + t.S.key
		x, y := a(0), a(1)
		l.declFun(n, []*Sort{as, as}, t.S)
		return "(" + sym(n) + " " + x + " " + y + ")"
	case "cpl":
		if as.K == KNum && !as.Sg {
			return fmt.Sprintf("(- %s %s)", new(big.Int).Sub(pow2(as.W), big.NewInt(1)), a(0))
		}
		return "(- (- " + a(0) + ") 1)"
	case "shl", "shr":
		if b := t.Args[1]; b.isConst() && b.N.IsInt64() && b.N.Int64() >= 0 && b.N.Int64() < 64 {
			p := pow2(int(b.N.Int64())).String()
			if t.Op == "shl" {
				if m := bitMask(t.Args[0]); m != nil && t.S.K == KNum && m.BitLen()+int(b.N.Int64()) <= t.S.W && !t.S.Sg {
					return "(* " + a(0) + " " + p + ")"
				}
				return modS(t.S, "(* "+a(0)+" "+p+")")
			}
			return "(div " + a(0) + " " + p + ")"
		}
		n := "bit_" + t.Op + "_" + t.S.key
		x, y := a(0), a(1)
		l.declFun(n, []*Sort{as, as}, t.S)
		return "(" + sym(n) + " " + x + " " + y + ")"
	case "lt":
		return bin("<")
	case "le":
		return bin("<=")
	case "conv":
		if t.S.K == KInt || t.S.K == KRef {
			return a(0)
		}
		if as.K == KNum {
			if subRange(as, t.S) {
				return a(0)
			}
			if as.W == t.S.W {
				return wrapS(t.S, a(0))
			}
		}
		return modS(t.S, a(0))
	}
	panic("int op " + t.Op)
}

// bitMask over-approximates the set of possibly set bits of an unsigned term.
func bitMask(t *Term) *big.Int {
	if t.S.K != KNum || t.S.Sg {
		return nil
	}
	full := new(big.Int).Sub(pow2(t.S.W), big.NewInt(1))
	switch t.Op {
	case "const":
		return t.N
	case "conv":
		if m := bitMask(t.Args[0]); m != nil {
			return new(big.Int).And(m, full)
		}
	case "shl":
		if m := bitMask(t.Args[0]); m != nil && t.Args[1].isConst() && t.Args[1].N.IsInt64() && t.Args[1].N.Int64() < 64 {
			return new(big.Int).And(new(big.Int).Lsh(m, uint(t.Args[1].N.Int64())), full)
		}
	case "shr":
		if m := bitMask(t.Args[0]); m != nil && t.Args[1].isConst() && t.Args[1].N.IsInt64() && t.Args[1].N.Int64() < 64 {
			return new(big.Int).Rsh(m, uint(t.Args[1].N.Int64()))
		}
	case "and":
		x, y := bitMask(t.Args[0]), bitMask(t.Args[1])
		if x != nil && y != nil {
			return new(big.Int).And(x, y)
		}
	case "or", "xor":
		x, y := bitMask(t.Args[0]), bitMask(t.Args[1])
		if x != nil && y != nil {
			return new(big.Int).Or(x, y)
		}
	}
	return full
}

func strc(s string) string { return "str_" + fmt.Sprintf("%x", s) }

// collect all ground subterms
func ground(ts []*Term, f func(*Term)) {
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		for _, a := range t.Args {
			rec(a)
		}
		if !t.fb {
			f(t)
		}
	}
	for _, t := range ts {
		rec(t)
	}
}

func allTerms(ts []*Term, f func(*Term)) {
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		for _, a := range t.Args {
			rec(a)
		}
		f(t)
	}
	for _, t := range ts {
		rec(t)
	}
}

// background facts: rec unfolding, integer ranges, strings, axioms/lemmas
func (l *lower) close(ts []*Term, fuel int, exclLemma string) []*Term {
	out := append([]*Term{}, ts...)
	done := map[*Term]bool{}
	usedAx := map[string]bool{}
	depth := map[*Term]int{}
	for round := 0; round < fuel+10; round++ {
		var add []*Term
		names := map[string]bool{}
		allTerms(out, func(t *Term) {
			if t.Op == "app" {
				names[t.Name] = true
			}
		})
		ground(out, func(t *Term) {
			if t.Op == "app" && !done[t] && depth[t] < fuel {
				if rf := l.spec.Recs[t.Name]; rf != nil && !l.spec.hide[t.Name] && (rf.Mode == "" || rf.Mode == l.mode.String()) {
					done[t] = true
					body := rf.Unfold(t.Args)
					d := depth[t]
					ground([]*Term{body}, func(x *Term) {
						if x.Op == "app" && x.Name == t.Name {
							d = depth[t] + 1
						}
					})
					ground([]*Term{body}, func(x *Term) {
						if x.Op == "app" && !done[x] {
							if o, ok := depth[x]; !ok || d < o {
								depth[x] = d
							}
						}
					})
					add = append(add, mkEq(t, body))
				}
			}
		})
		// non-recursive definitions that occur under a quantifier
		allTerms(out, func(t *Term) {
			if t.Op != "app" || !t.fb || usedAx["def "+t.Name] {
				return
			}
			rf := l.spec.Recs[t.Name]
			if rf == nil || l.spec.hide[t.Name] || rf.Mode != "" && rf.Mode != l.mode.String() {
				return
			}
			usedAx["def "+t.Name] = true
			var vs []*Term
			for _, p := range rf.Params {
				vs = append(vs, mkBVar(p.Name, l.spec.sortOf(p.Type)))
			}
			body := rf.Unfold(vs)
			rec := false
			allTerms([]*Term{body}, func(x *Term) {
				rec = rec || x.Op == "app" && x.Name == t.Name
			})
			if !rec {
				app := mkApp(t.Name, t.S, vs...)
				add = append(add, mkForall(vs, mkEq(app, body), [][]*Term{{app}}))
			}
		})
		for _, ax := range l.spec.Axioms {
			if usedAx[ax.Name] || ax.Name == exclLemma || ax.Order >= l.spec.lemmaLimit {
				continue
			}
			if !ax.Auto {
				continue
			}
			if ax.OnlyMode != "" && ax.OnlyMode != l.mode.String() {
				continue
			}
			ok := true
			for n := range ax.Funcs {
				if !names[n] {
					ok = false
				}
			}
			if ok {
				usedAx[ax.Name] = true
				f := ax.Formula(l.mode)
				if f != nil {
					add = append(add, f)
				}
			}
		}
		if len(add) == 0 {
			break
		}
		out = append(out, add...)
	}
	// strings
	var sx []*Term
	k := mkBVar("k", SInt)
	ground(out, func(t *Term) {
		if t.S == SStr {
			if t.Op == "strc" {
				sl := mkApp("slen", SInt, t)
				sx = append(sx, intern(&Term{Op: "eq", Args: []*Term{sl, mkI(int64(len(t.Name)), SInt)}, S: SBool}))
				if len(t.Name) <= 40 {
					for i := 0; i < len(t.Name); i++ {
						sx = append(sx, intern(&Term{Op: "eq", Args: []*Term{mkApp("sat", SU8, t, mkI(int64(i), SInt)), mkI(int64(t.Name[i]), SU8)}, S: SBool}))
					}
				}
				return
			}
			sl := mkApp("slen", SInt, t)
			if t.Op == "app" && (t.Name == "ssub" || t.Name == "scat" || t.Name == "strof") {
				sx = append(sx, intern(&Term{Op: "eq", Args: []*Term{sl, mkSlen(t)}, S: SBool}))
				raw := mkApp("sat", SU8, t, k)
				g := mkAnd(mkLe(mkI(0, SInt), k), mkLt(k, mkSlen(t)))
				sx = append(sx, mkForall([]*Term{k}, mkImp(g, intern(&Term{Op: "eq", Args: []*Term{raw, mkSat(t, k)}, S: SBool})), [][]*Term{{raw}}))
			} else {
				sx = append(sx, mkLe(mkI(0, SInt), sl), mkLe(sl, mkConst(pow2(62), SInt)))
			}
		}
	})
	// equal strings have the same bytes
	ground(out, func(t *Term) {
		if t.Op != "eq" || t.Args[0].S != SStr {
			return
		}
		for s := 0; s < 2; s++ {
			a, b := t.Args[s], t.Args[1-s]
			if a.Op == "app" && a.Name == "ssub" {
				raw := mkApp("sat", SU8, a.Args[0], k)
				g := mkAnd(mkLe(a.Args[1], k), mkLt(k, a.Args[2]))
				sx = append(sx, mkImp(t, mkForall([]*Term{k}, mkImp(g, intern(&Term{Op: "eq", Args: []*Term{raw, mkSat(b, mkSub(k, a.Args[1]))}, S: SBool})), [][]*Term{{raw}})))
				sx = append(sx, mkImp(t, intern(&Term{Op: "eq", Args: []*Term{mkSlen(a), mkSlen(b)}, S: SBool})))
			}
		}
	})
	out = append(out, sx...)
	if l.mode == ModeInt {
		var rg []*Term
		ground(out, func(t *Term) {
			if t.S.K == KNum && (t.Op == "var" || t.Op == "select" || t.Op == "app" || t.Op == "or" || t.Op == "xor" || t.Op == "and" || t.Op == "shl" || t.Op == "shr") {
				lo, hi := rng(t.S)
				rg = append(rg, intern(&Term{Op: "le", Args: []*Term{mkConst(lo, t.S), t}, S: SBool}), intern(&Term{Op: "le", Args: []*Term{t, mkConst(hi, t.S)}, S: SBool}))
			}
		})
		out = append(out, rg...)
	}
	return out
}

// patOK: x can be a pattern (no logical operators, no wrapping arithmetic).
func (l *lower) patOK(x *Term) bool {
	if !x.fb {
		return true
	}
	switch x.Op {
	case "ite", "band", "bor", "bnot", "imp", "eq", "le", "lt", "forall", "exists":
		return false
	}
	if l.mode == ModeInt && x.S.K == KNum && x.Op != "select" && x.Op != "app" && x.Op != "bvar" && x.Op != "var" {
		return false
	}
	for _, a := range x.Args {
		if !l.patOK(a) {
			return false
		}
	}
	return true
}

var hasQMemo = map[*Term]bool{}

// hasQuant: a quantifier occurs in t.
func hasQuant(t *Term) bool {
	if t.Op == "forall" || t.Op == "exists" {
		return true
	}
	if len(t.Args) == 0 {
		return false
	}
	if v, ok := hasQMemo[t]; ok {
		return v
	}
	r := false
	for _, a := range t.Args {
		if hasQuant(a) {
			r = true
			break
		}
	}
	hasQMemo[t] = r
	return r
}

// buildLight is buildQuery without the quantified assumptions and automatic
// lemmas: fewer assumptions, so a proof from it is a proof.  It returns ""
// when there is nothing to drop.
func buildLight(spec *Spec, mode Mode, assume []*Term, goal *Term, fuel int, exclLemma string) string {
	var as []*Term
	for _, a := range assume {
		if !hasQuant(a) {
			as = append(as, a)
		}
	}
	if len(as) == len(assume) {
		return ""
	}
	lim := spec.lemmaLimit
	spec.lemmaLimit = -1
	q, err := buildQuery(spec, mode, as, goal, fuel, exclLemma, nil)
	spec.lemmaLimit = lim
	if err != nil {
		return ""
	}
	return q
}

func buildQuery(spec *Spec, mode Mode, assume []*Term, goal *Term, fuel int, exclLemma string, wantModel []*Term) (q string, err error) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(specErr); ok {
				err = e
				return
			}
			panic(r)
		}
	}()
	l := &lower{mode: mode, spec: spec, seen: map[*Term]string{}, dvar: map[string]bool{}, fun: map[string]bool{}, sorts: map[string]bool{}}
	ts := append(append([]*Term{}, assume...), mkBNot(goal))
	ts = append(ts, wantModelDummies(wantModel)...)
	all := l.close(ts, fuel, exclLemma)
	var as []string
	for _, t := range all {
		if t.isTrue() {
			continue
		}
		as = append(as, "(assert "+l.text(t)+")")
	}
	var mv []string
	for _, t := range wantModel {
		mv = append(mv, l.text(t))
	}
	var sb strings.Builder
	sb.WriteString("(set-logic ALL)\n")
	if mode == ModeInt {
		sb.WriteString(intPrelude())
	}
	for _, d := range l.decls {
		sb.WriteString(d + "\n")
	}
	for _, d := range l.defs {
		sb.WriteString(d + "\n")
	}
	for _, d := range as {
		sb.WriteString(d + "\n")
	}
	sb.WriteString("(check-sat)\n")
	if len(mv) > 0 {
		sb.WriteString("(get-value (" + strings.Join(mv, " ") + "))\n")
	}
	return sb.String(), nil
}

func wantModelDummies(ts []*Term) []*Term { return nil }

type solverCfg struct {
	name string
	args []string
}

var solverSets = []solverCfg{
	{"z3-new/nomb", []string{"z3-new", "-in", "smt.mbqi=false", "smt.auto_config=false"}},
	{"z3-new", []string{"z3-new", "-in"}},
	{"cvc5", []string{"cvc5", "--lang=smt2", "--incremental", "-q"}},
	{"z3", []string{"z3", "-in"}},
}

func runSolver(ctx context.Context, c solverCfg, q string, timeout time.Duration) (string, string) {
	cctx, cancel := context.WithTimeout(ctx, timeout)
	defer cancel()
	args := append([]string{}, c.args[1:]...)
	if strings.HasPrefix(c.name, "z3") {
		args = append(args, fmt.Sprintf("-T:%d", int(timeout.Seconds())+1), "-memory:3000")
	} else {
		args = append(args, fmt.Sprintf("--tlimit=%d", timeout.Milliseconds()))
		if strings.Contains(q, "get-value") {
			args = append(args, "--produce-models")
		}
	}
	cmd := exec.CommandContext(cctx, c.args[0], args...)
	cmd.Stdin = strings.NewReader(q)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	_ = cmd.Run()
	s := out.String()
	for strings.HasPrefix(s, "WARNING") {
		if i := strings.IndexByte(s, '\n'); i >= 0 {
			s = s[i+1:]
		} else {
			s = ""
		}
	}
	first := strings.TrimSpace(strings.SplitN(s, "\n", 2)[0])
	switch first {
	case "unsat", "sat", "unknown":
		return first, s
	}
	if cctx.Err() != nil || strings.Contains(s, "timeout") || strings.Contains(s, "interrupted") {
		return "timeout", s
	}
	return "error", s
}

type solveResult struct {
	status string // unsat sat unknown timeout error
	solver string
	out    string
	dur    time.Duration
}

// portfolio: try quickly with the first solver, then race all of them.
func solve(q string, quick, full time.Duration) solveResult {
	t0 := time.Now()
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	st, out := runSolver(ctx, solverSets[0], q, quick)
	if st == "unsat" || st == "sat" {
		return solveResult{st, solverSets[0].name, out, time.Since(t0)}
	}
	if st == "error" && os.Getenv("GV_DEBUG") != "" {
		fmt.Fprintln(os.Stderr, "solver error:", out)
	}
	last := solveResult{st, solverSets[0].name, out, time.Since(t0)}
	if full <= 0 {
		return last
	}
	ch := make(chan solveResult, len(solverSets))
	for _, c := range solverSets {
		c := c
		go func() {
			s, o := runSolver(ctx, c, q, full)
			ch <- solveResult{s, c.name, o, time.Since(t0)}
		}()
	}
	for range solverSets {
		r := <-ch
		if r.status == "unsat" {
			return r
		}
		if r.status == "sat" {
			if last.status != "sat" {
				last = r
			}
			if !strings.HasPrefix(r.solver, "cvc5") {
				return r
			}
		} else if last.status != "sat" && r.status != "error" {
			last = r
		}
	}
	last.dur = time.Since(t0)
	return last
}

var _ = sort.Strings
