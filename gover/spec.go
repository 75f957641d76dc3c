package main

// Contract language: lexer, parser and declarations.

import (
	"fmt"
	"math/big"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"unicode"
)

type Expr struct {
	Op   string // lit, str, id, call, field, index, slice, un, bin, tern, forall, exists, nil, true, false, let
	Name string
	N    *big.Int
	Args []*Expr
	Vars []Param
	Pats [][]*Expr
	pos  string
}

type Param struct {
	Name string
	Type string
}

type PureFn struct {
	Name   string
	Params []Param
	Res    string
	Body   *Expr // nil: uninterpreted
	Mode   string
	spec   *Spec
}

type RecFn struct {
	Name   string
	Params []Param
	Res    string
	Body   *Expr
	Mode   string
	spec   *Spec
}

func (r *RecFn) Unfold(args []*Term) *Term {
	env := map[string]Val{}
	for i, p := range r.Params {
		env[p.Name] = args[i]
	}
	c := &evalCtx{spec: r.spec, env: env, mode: r.spec.curMode}
	v := c.eval(r.Body)
	t := c.toTerm(v)
	return c.coerce(t, r.spec.sortOf(r.Res))
}

type Lemma struct {
	Name     string
	Params   []Param
	Req, Ens []*Expr
	Uses     []*Expr
	Induct   string
	Auto     bool
	Trig     []*Expr
	Modes    []string // proved in
	Props    []string // proved for these properties even when unused
	OnlyMode string   // usable in ("" = any)
	Axiom    bool
	Order    int
	Funcs    map[string]bool // app names that must be present
	spec     *Spec
	Note     string
}

type Clause struct {
	Label string
	E     *Expr
	Src   string
}

type LoopSpec struct {
	N      int
	Inv    []Clause
	Step   []Clause
	Dec    *Expr
	Unroll int
	Uses   []Clause
	Vars   []Param
}

type FuncSpec struct {
	Key      string
	Params   []string
	Results  []string
	Mode     Mode
	ModeSet  bool
	Extern   bool
	Req      []Clause
	Ens      []Clause
	Mod      []*Expr
	ModAll   bool
	Loops    map[int]*LoopSpec
	Props    []string
	Inline   map[string]bool
	Uses     []Clause // lemma instances assumed at exit
	Asserts  []Clause
	Sets     [][3]*Expr
	Opaque   bool
	NoInline bool
	Trusted  string
	MaxPath  int
	NoSafety bool
	Pure     bool
	File     string
	Bound    string
	Timeout  int
	Fuel     int
	Hide     map[string]bool
	Guard    bool
}

type Guard struct{ Comp, Lock string }

type Spec struct {
	Ghosts     map[string]*Sort // name -> value sort (keyed by ref)
	Pures      map[string]*PureFn
	Recs       map[string]*RecFn
	Axioms     []*Lemma
	Lemmas     map[string]*Lemma
	Funcs      map[string]*FuncSpec
	Guards     []Guard
	Globals    map[string]*Expr
	Uns        map[string]bool
	hide       map[string]bool // definitions that are not unfolded
	lemmaLimit int
	curMode    Mode
	Opaque     map[string]bool
	Assume     []string
	Zeros      map[string]*Expr
}

func newSpec() *Spec {
	return &Spec{Ghosts: map[string]*Sort{}, Pures: map[string]*PureFn{}, Recs: map[string]*RecFn{}, Lemmas: map[string]*Lemma{},
		Funcs: map[string]*FuncSpec{}, Globals: map[string]*Expr{}, Uns: map[string]bool{}, lemmaLimit: 1 << 30, Opaque: map[string]bool{}, Zeros: map[string]*Expr{}}
}

// ---------------------------------------------------------------- lexer

type tok struct {
	k string // id num str op eof
	s string
	n *big.Int
}

func lex(src, where string) []tok {
	var ts []tok
	i := 0
	ops := []string{"<==>", "==>", "&&", "||", "==", "!=", "<=", ">=", "<<", ">>", "::", "&^", ".."}
	for i < len(src) {
		c := src[i]
		switch {
		case c == ' ' || c == '\t' || c == '\n' || c == '\r':
			i++
		case unicode.IsLetter(rune(c)) || c == '_' || c == '$':
			j := i + 1
			for j < len(src) && (unicode.IsLetter(rune(src[j])) || unicode.IsDigit(rune(src[j])) || src[j] == '_' || src[j] == '$') {
				j++
			}
			ts = append(ts, tok{k: "id", s: src[i:j]})
			i = j
		case c >= '0' && c <= '9':
			j := i + 1
			for j < len(src) && (unicode.IsDigit(rune(src[j])) || unicode.IsLetter(rune(src[j])) || src[j] == '_') {
				j++
			}
			n, ok := new(big.Int).SetString(strings.ReplaceAll(src[i:j], "_", ""), 0)
			if !ok {
				panic(specErr(where + ": bad number " + src[i:j]))
			}
			ts = append(ts, tok{k: "num", s: src[i:j], n: n})
			i = j
		case c == '\'':
			ts = append(ts, tok{k: "num", s: src[i : i+3], n: big.NewInt(int64(src[i+1]))})
			i += 3
		case c == '"':
			j := i + 1
			for src[j] != '"' {
				j++
			}
			lit := src[i+1 : j]
			if u, err := strconv.Unquote(src[i : j+1]); err == nil {
				lit = u
			}
			ts = append(ts, tok{k: "str", s: lit})
			i = j + 1
		default:
			done := false
			for _, o := range ops {
				if strings.HasPrefix(src[i:], o) {
					ts = append(ts, tok{k: "op", s: o})
					i += len(o)
					done = true
					break
				}
			}
			if !done {
				ts = append(ts, tok{k: "op", s: string(c)})
				i++
			}
		}
	}
	return append(ts, tok{k: "eof"})
}

type parser struct {
	ts    []tok
	i     int
	where string
}

func (p *parser) peek() tok { return p.ts[p.i] }
func (p *parser) next() tok { t := p.ts[p.i]; p.i++; return t }
func (p *parser) fail(m string) {
	panic(specErr(fmt.Sprintf("%s: %s near token %d %q", p.where, m, p.i, p.peek().s)))
}
func (p *parser) isOp(s string) bool { t := p.peek(); return t.k == "op" && t.s == s }
func (p *parser) accept(s string) bool {
	if p.isOp(s) {
		p.i++
		return true
	}
	return false
}
func (p *parser) expect(s string) {
	if !p.accept(s) {
		p.fail("expected " + s)
	}
}
func (p *parser) ident() string {
	t := p.next()
	if t.k != "id" {
		p.i--
		p.fail("expected identifier")
	}
	return t.s
}

func (p *parser) typ() string {
	if p.accept("[") {
		a := p.typ()
		p.expect("]")
		return "[" + a + "]" + p.typ()
	}
	return p.ident()
}

var binPrec = map[string]int{
	"<==>": 1, "==>": 2, "||": 4, "&&": 5, "==": 6, "!=": 6, "<": 6, "<=": 6, ">": 6, ">=": 6,
	"+": 7, "-": 7, "|": 7, "^": 7, "*": 8, "/": 8, "%": 8, "<<": 8, ">>": 8, "&": 8, "&^": 8,
}

func (p *parser) expr() *Expr { return p.tern() }

func (p *parser) tern() *Expr {
	c := p.bin(1)
	if p.accept("?") {
		a := p.tern()
		p.expect(":")
		b := p.tern()
		return &Expr{Op: "tern", Args: []*Expr{c, a, b}, pos: p.where}
	}
	return c
}

func (p *parser) bin(min int) *Expr {
	l := p.unary()
	for {
		t := p.peek()
		if t.k != "op" {
			return l
		}
		pr, ok := binPrec[t.s]
		if !ok || pr < min {
			return l
		}
		p.next()
		var r *Expr
		if t.s == "==>" {
			r = p.bin(pr) // right assoc
		} else {
			r = p.bin(pr + 1)
		}
		l = &Expr{Op: "bin", Name: t.s, Args: []*Expr{l, r}, pos: p.where}
	}
}

func (p *parser) unary() *Expr {
	t := p.peek()
	if t.k == "op" && (t.s == "!" || t.s == "-" || t.s == "^" || t.s == "*") {
		p.next()
		e := p.unary()
		return &Expr{Op: "un", Name: t.s, Args: []*Expr{e}, pos: p.where}
	}
	if t.k == "id" && (t.s == "forall" || t.s == "exists") {
		p.next()
		var vs []Param
		for {
			n := p.ident()
			ty := "int"
			if !p.isOp(",") && !p.isOp("::") {
				ty = p.typ()
			}
			vs = append(vs, Param{n, ty})
			if p.accept(",") {
				continue
			}
			p.expect("::")
			break
		}
		var pats [][]*Expr
		for p.accept("{") {
			var ps []*Expr
			for {
				ps = append(ps, p.expr())
				if !p.accept(",") {
					break
				}
			}
			p.expect("}")
			pats = append(pats, ps)
		}
		b := p.expr()
		return &Expr{Op: t.s, Vars: vs, Args: []*Expr{b}, Pats: pats, pos: p.where}
	}
	if t.k == "id" && t.s == "let" {
		p.next()
		n := p.ident()
		p.expect("=")
		v := p.expr()
		p.expect("::")
		b := p.expr()
		return &Expr{Op: "let", Name: n, Args: []*Expr{v, b}, pos: p.where}
	}
	return p.postfix()
}

func (p *parser) postfix() *Expr {
	t := p.next()
	var e *Expr
	switch {
	case t.k == "num":
		e = &Expr{Op: "lit", N: t.n, pos: p.where}
	case t.k == "str":
		e = &Expr{Op: "str", Name: t.s, pos: p.where}
	case t.k == "id":
		switch t.s {
		case "true", "false", "nil":
			e = &Expr{Op: t.s, pos: p.where}
		default:
			e = &Expr{Op: "id", Name: t.s, pos: p.where}
		}
	case t.k == "op" && t.s == "(":
		e = p.expr()
		p.expect(")")
	default:
		p.i--
		p.fail("unexpected token")
	}
	for {
		switch {
		case p.accept("."):
			e = &Expr{Op: "field", Name: p.ident(), Args: []*Expr{e}, pos: p.where}
		case p.accept("["):
			i := p.expr()
			if p.accept(":") {
				j := p.expr()
				p.expect("]")
				e = &Expr{Op: "slice", Args: []*Expr{e, i, j}, pos: p.where}
			} else {
				p.expect("]")
				e = &Expr{Op: "index", Args: []*Expr{e, i}, pos: p.where}
			}
		case p.isOp("(") && (e.Op == "id" || e.Op == "field"):
			p.next()
			var as []*Expr
			for !p.accept(")") {
				as = append(as, p.expr())
				if !p.isOp(")") {
					p.expect(",")
				}
			}
			if e.Op == "id" {
				e = &Expr{Op: "call", Name: e.Name, Args: as, pos: p.where}
			} else {
				p.fail("method calls not supported")
			}
		default:
			return e
		}
	}
}

func parseExpr(s, where string) *Expr {
	p := &parser{ts: lex(s, where), where: where}
	e := p.expr()
	if p.peek().k != "eof" {
		p.fail("trailing input")
	}
	return e
}

// ---------------------------------------------------------------- files

var topKw = map[string]bool{"ghost": true, "pure": true, "purebv": true, "pureint": true, "uf": true, "rec": true, "recbv": true, "recint": true, "lemma": true, "axiom": true,
	"func": true, "extern": true, "guarded": true, "global": true, "assume": true, "sort": true, "opaque": true, "zero": true}
var clauseKw = map[string]bool{"requires": true, "ensures": true, "modifies": true, "loop": true, "invariant": true, "step": true,
	"decreases": true, "mode": true, "props": true, "unroll": true, "auto": true, "induct": true, "use": true, "inline": true,
	"noinline": true, "trusted": true, "provedin": true, "usein": true, "nosafety": true, "vars": true, "pureresult": true, "note": true, "bounded": true, "assert": true, "timeout": true, "fuel": true, "hide": true, "guard": true, "set": true}

type rawClause struct {
	kw, text, where string
}

func loadSpec(dir string) (*Spec, error) {
	sp := newSpec()
	files, _ := filepath.Glob(filepath.Join(dir, "*.gvc"))
	sort.Strings(files)
	var err error
	func() {
		defer func() {
			if r := recover(); r != nil {
				if e, ok := r.(specErr); ok {
					err = e
					return
				}
				panic(r)
			}
		}()
		for _, f := range files {
			sp.loadFile(f)
		}
	}()
	return sp, err
}

func (sp *Spec) loadFile(f string) {
	b, err := os.ReadFile(f)
	if err != nil {
		panic(specErr(err.Error()))
	}
	var cl []rawClause
	for n, line := range strings.Split(string(b), "\n") {
		if i := strings.Index(line, "//"); i >= 0 {
			line = line[:i]
		}
		s := strings.TrimSpace(line)
		if s == "" {
			continue
		}
		w := s
		rest := ""
		if i := strings.IndexAny(s, " \t[{("); i >= 0 {
			w, rest = s[:i], s[i:]
		}
		where := fmt.Sprintf("%s:%d", filepath.Base(f), n+1)
		if topKw[w] && !unicode.IsSpace(rune(line[0])) || clauseKw[w] {
			cl = append(cl, rawClause{w, strings.TrimSpace(rest), where})
		} else {
			if len(cl) == 0 {
				panic(specErr(where + ": unexpected text"))
			}
			cl[len(cl)-1].text += " " + s
		}
	}
	i := 0
	for i < len(cl) {
		c := cl[i]
		if !topKw[c.kw] {
			panic(specErr(c.where + ": clause outside declaration: " + c.kw))
		}
		j := i + 1
		for j < len(cl) && !topKw[cl[j].kw] {
			j++
		}
		sp.decl(c, cl[i+1:j], filepath.Base(f))
		i = j
	}
}

func parseParams(p *parser) []Param {
	var ps []Param
	p.expect("(")
	for !p.accept(")") {
		n := p.ident()
		ty := ""
		if !p.isOp(",") && !p.isOp(")") {
			ty = p.typ()
		}
		ps = append(ps, Param{n, ty})
		if !p.isOp(")") {
			p.expect(",")
		}
	}
	// group style: a, b int
	for k := len(ps) - 2; k >= 0; k-- {
		if ps[k].Type == "" {
			ps[k].Type = ps[k+1].Type
		}
	}
	return ps
}

func labelled(s, where string) Clause {
	lab := ""
	if strings.HasPrefix(s, "[") {
		if k := strings.Index(s, "]"); k > 0 {
			cand := s[1:k]
			ok := cand != ""
			for _, r := range cand {
				if !(unicode.IsLetter(r) || unicode.IsDigit(r) || r == '_' || r == '-' || r == '.') {
					ok = false
				}
			}
			if ok {
				lab = cand
				s = strings.TrimSpace(s[k+1:])
			}
		}
	}
	return Clause{lab, parseExpr(s, where), s}
}

func (sp *Spec) decl(c rawClause, cls []rawClause, file string) {
	switch c.kw {
	case "sort":
		sp.Uns[strings.TrimSpace(c.text)] = true
	case "opaque":
		sp.Opaque[strings.TrimSpace(c.text)] = true
	case "assume":
		sp.Assume = append(sp.Assume, c.text)
	case "ghost":
		p := &parser{ts: lex(c.text, c.where), where: c.where}
		n := p.ident()
		sp.Ghosts[n] = sp.sortOf(p.typ())
	case "guarded":
		f := strings.Fields(c.text) // T.f by lockfield
		sp.Guards = append(sp.Guards, Guard{f[0], f[2]})
	case "zero":
		k := strings.SplitN(c.text, "::", 2)
		sp.Zeros[strings.TrimSpace(k[0])] = parseExpr(k[1], c.where)
	case "global":
		k := strings.SplitN(c.text, "::", 2)
		sp.Globals[strings.TrimSpace(k[0])] = parseExpr(k[1], c.where)
	case "pure", "purebv", "pureint", "uf", "rec", "recbv", "recint":
		head, body := c.text, ""
		// find '=' at paren depth 0 that is not part of ==
		d := 0
		for i := 0; i < len(head); i++ {
			switch head[i] {
			case '(':
				d++
			case ')':
				d--
			case '=':
				if d == 0 {
					body = head[i+1:]
					head = head[:i]
					i = len(head)
				}
			}
		}
		p := &parser{ts: lex(head, c.where), where: c.where}
		n := p.ident()
		ps := parseParams(p)
		res := "any"
		if p.peek().k != "eof" {
			res = p.typ()
		}
		var e *Expr
		if body != "" {
			e = parseExpr(body, c.where)
		}
		if sp.Pures[n] != nil || sp.Recs[n] != nil {
			if !(sp.Pures[n] != nil && sp.Pures[n].Mode != "" && (c.kw == "pureint" || c.kw == "purebv")) {
				panic(specErr(c.where + ": duplicate " + n))
			}
		}
		switch c.kw {
		case "rec":
			sp.Recs[n] = &RecFn{n, ps, res, e, "", sp}
		case "recbv":
			sp.Recs[n] = &RecFn{n, ps, res, e, "bv", sp}
		case "recint":
			sp.Recs[n] = &RecFn{n, ps, res, e, "int", sp}
		case "purebv":
			sp.Pures[n] = &PureFn{n, ps, res, e, "bv", sp}
		case "pureint":
			sp.Pures[n] = &PureFn{n, ps, res, e, "int", sp}
		default:
			sp.Pures[n] = &PureFn{n, ps, res, e, "", sp}
		}
	case "lemma", "axiom":
		p := &parser{ts: lex(c.text, c.where), where: c.where}
		l := &Lemma{Name: p.ident(), Params: parseParams(p), spec: sp, Axiom: c.kw == "axiom", Order: len(sp.Axioms), Funcs: map[string]bool{}, Modes: []string{"int"}}
		l.OnlyMode = "int"
		if l.Axiom {
			l.Auto = true
			l.OnlyMode = ""
		}
		for _, k := range cls {
			switch k.kw {
			case "requires":
				l.Req = append(l.Req, parseExpr(k.text, k.where))
			case "ensures":
				l.Ens = append(l.Ens, parseExpr(k.text, k.where))
			case "use":
				l.Uses = append(l.Uses, parseExpr(k.text, k.where))
			case "induct":
				l.Induct = strings.TrimSpace(k.text)
			case "mode":
				l.Modes = strings.Fields(strings.ReplaceAll(k.text, ",", " "))
				l.OnlyMode = ""
				if len(l.Modes) == 1 {
					l.OnlyMode = l.Modes[0]
				}
			case "usein":
				l.OnlyMode = strings.TrimSpace(k.text)
				if l.OnlyMode == "any" {
					l.OnlyMode = ""
				}
			case "note":
				l.Note = k.text
			case "props":
				l.Props = strings.FieldsFunc(k.text, func(r rune) bool { return r == ',' || r == ' ' })
			case "auto":
				l.Auto = true
				if k.text != "" {
					q := &parser{ts: lex(k.text, k.where), where: k.where}
					q.expect("{")
					for {
						l.Trig = append(l.Trig, q.expr())
						if !q.accept(",") {
							break
						}
					}
					q.expect("}")
				}
			default:
				panic(specErr(k.where + ": bad lemma clause " + k.kw))
			}
		}
		for _, t := range l.Trig {
			collectCalls(t, l.Funcs)
		}
		for n := range l.Funcs {
			if !sp.isFn(n) {
				delete(l.Funcs, n)
			}
		}
		sp.Axioms = append(sp.Axioms, l)
		sp.Lemmas[l.Name] = l
	case "func", "extern":
		open := strings.Index(c.text, "(")
		key := strings.TrimSpace(c.text[:open])
		p := &parser{ts: lex(c.text[open:], c.where), where: c.where}
		fs := &FuncSpec{Key: key, Extern: c.kw == "extern", Loops: map[int]*LoopSpec{}, Inline: map[string]bool{}, File: file}
		for _, q := range parseParams(p) {
			fs.Params = append(fs.Params, q.Name)
		}
		if p.isOp("(") {
			for _, q := range parseParams(p) {
				fs.Results = append(fs.Results, q.Name)
			}
		}
		if sp.Funcs[key] != nil {
			panic(specErr(c.where + ": duplicate contract " + key))
		}
		sp.Funcs[key] = fs
		var lp *LoopSpec
		for _, k := range cls {
			switch k.kw {
			case "mode":
				fs.ModeSet = true
				if k.text == "bv" {
					fs.Mode = ModeBV
				}
			case "props":
				fs.Props = append(fs.Props, strings.FieldsFunc(k.text, func(r rune) bool { return r == ',' || r == ' ' })...)
			case "requires":
				fs.Req = append(fs.Req, labelled(k.text, k.where))
			case "ensures":
				fs.Ens = append(fs.Ens, labelled(k.text, k.where))
			case "set":
				// ghost code at the returns: set <condition> :: <x.ghost> = <value>
				q := strings.SplitN(k.text, "::", 2)
				a := strings.SplitN(q[1], " = ", 2)
				fs.Sets = append(fs.Sets, [3]*Expr{parseExpr(q[0], k.where), parseExpr(a[0], k.where), parseExpr(a[1], k.where)})
			case "assert":
				fs.Asserts = append(fs.Asserts, labelled(k.text, k.where))
			case "modifies":
				if k.text == "*" {
					fs.ModAll = true
					continue
				}
				q := &parser{ts: lex(k.text, k.where), where: k.where}
				for {
					fs.Mod = append(fs.Mod, q.expr())
					if !q.accept(",") {
						break
					}
				}
			case "loop":
				var n int
				fmt.Sscanf(k.text, "%d", &n)
				lp = &LoopSpec{N: n}
				fs.Loops[n] = lp
			case "invariant":
				lp.Inv = append(lp.Inv, labelled(k.text, k.where))
			case "step":
				lp.Step = append(lp.Step, labelled(k.text, k.where))
			case "decreases":
				lp.Dec = parseExpr(k.text, k.where)
			case "unroll":
				fmt.Sscanf(k.text, "%d", &lp.Unroll)
			case "vars":
				for _, v := range strings.Split(k.text, ";") {
					w := strings.SplitN(strings.TrimSpace(v), " ", 2)
					lp.Vars = append(lp.Vars, Param{w[0], strings.TrimSpace(w[1])})
				}
			case "use":
				cz := Clause{"", parseExpr(k.text, k.where), k.text}
				if lp != nil {
					lp.Uses = append(lp.Uses, cz)
				} else {
					fs.Uses = append(fs.Uses, cz)
				}
			case "inline":
				for _, n := range strings.FieldsFunc(k.text, func(r rune) bool { return r == ',' || r == ' ' }) {
					fs.Inline[n] = true
				}
			case "noinline":
				fs.NoInline = true
			case "nosafety":
				fs.NoSafety = true
			case "trusted":
				fs.Trusted = k.text
				if k.text == "" {
					fs.Trusted = "trusted"
				}
			case "bounded":
				fs.Bound = k.text
			case "timeout":
				fmt.Sscanf(k.text, "%d", &fs.Timeout)
			case "fuel":
				fmt.Sscanf(k.text, "%d", &fs.Fuel)
			case "hide":
				fs.Hide = map[string]bool{}
				for _, n := range strings.Fields(strings.ReplaceAll(k.text, ",", " ")) {
					fs.Hide[n] = true
				}
			case "guard":
				fs.Guard = true
			default:
				panic(specErr(k.where + ": bad func clause " + k.kw))
			}
		}
	}
}

func collectCalls(e *Expr, out map[string]bool) {
	if e.Op == "call" {
		out[e.Name] = true
	}
	for _, a := range e.Args {
		collectCalls(a, out)
	}
}

func (sp *Spec) isFn(n string) bool {
	if sp.Recs[n] != nil {
		return true
	}
	if p := sp.Pures[n]; p != nil {
		return p.Body == nil || p.Mode != ""
	}
	return false
}

func (sp *Spec) sortOf(t string) *Sort {
	switch t {
	case "int":
		return SInt
	case "bool":
		return SBool
	case "byte", "u8":
		return SU8
	case "u16":
		return SU16
	case "u32":
		return SU32
	case "u64":
		return SU64
	case "i8":
		return SNum(8, true)
	case "i16":
		return SNum(16, true)
	case "i32":
		return SNum(32, true)
	case "i64":
		return SI64
	case "ref":
		return SRef
	case "str":
		return SStr
	case "bytes":
		return SBytes
	case "time":
		return SUn("T_time.Time")
	}
	if strings.HasPrefix(t, "[") {
		d := 0
		for i := range t {
			if t[i] == '[' {
				d++
			}
			if t[i] == ']' {
				d--
				if d == 0 {
					return SArr(sp.sortOf(t[1:i]), sp.sortOf(t[i+1:]))
				}
			}
		}
	}
	if sp.Uns[t] {
		return SUn(t)
	}
	panic(specErr("unknown type " + t))
}

// Formula returns the universally quantified statement of a lemma.
func (l *Lemma) Formula(m Mode) *Term {
	env := map[string]Val{}
	var vs []*Term
	for _, p := range l.Params {
		b := mkBVar(p.Name, l.spec.sortOf(p.Type))
		vs = append(vs, b)
		env[p.Name] = b
	}
	c := &evalCtx{spec: l.spec, env: env, mode: m}
	var rq, en []*Term
	for _, e := range l.Req {
		rq = append(rq, c.evalBool(e))
	}
	for _, e := range l.Ens {
		en = append(en, c.evalBool(e))
	}
	var pats [][]*Term
	if len(l.Trig) > 0 {
		var ps []*Term
		for _, e := range l.Trig {
			ps = append(ps, c.toTerm(c.eval(e)))
		}
		pats = append(pats, ps)
	}
	b := mkImp(mkAnd(rq...), mkAnd(en...))
	if len(vs) == 0 {
		return b
	}
	return mkForall(vs, b, pats)
}

func (l *Lemma) Instance(c *evalCtx, args []*Expr) *Term {
	env := map[string]Val{}
	for i, p := range l.Params {
		env[p.Name] = c.coerce(c.toTerm(c.eval(args[i])), l.spec.sortOf(p.Type))
	}
	c2 := &evalCtx{spec: l.spec, env: env, mode: c.mode, ex: c.ex, st: c.st, old: c.old}
	var rq, en []*Term
	for _, e := range l.Req {
		rq = append(rq, c2.evalBool(e))
	}
	for _, e := range l.Ens {
		en = append(en, c2.evalBool(e))
	}
	return mkImp(mkAnd(rq...), mkAnd(en...))
}
