package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

var (
	fRepo  = flag.String("repo", "/repo", "repository")
	fVerif = flag.String("verif", "/verif", "verification directory")
	fProp  = flag.String("prop", "", "property to check")
	fFn    = flag.String("fn", "", "verify only this function (comma separated)")
	fDump  = flag.String("dump", "", "directory for failed queries")
	fV     = flag.Bool("v", false, "verbose")
	fLemma = flag.String("lemma", "", "prove only this lemma")
	fTime  = flag.Int("timeout", 0, "seconds per obligation")
	fNoRep = flag.Bool("noreplay", false, "do not run the replay harness")
	fSSA   = flag.Bool("ssa", false, "print SSA and loop numbers")
	fList  = flag.Bool("list", false, "list functions under contract per property")
)

func newExec(p *Prog, sp *Spec, lay *Lay, fs *FuncSpec, fn *ssa.Function) *Exec {
	return &Exec{prog: p, spec: sp, lay: lay, fs: fs, fn: fn, mode: fs.Mode, compSort: map[string]*Sort{}, used: map[string]bool{}, inlined: map[string]bool{},
		guards: map[string]string{}, lemmas: map[string]bool{}}
}

type fnResult struct {
	key     string
	obls    []*Obl
	used    map[string]bool
	inlined map[string]bool
	lemmas  map[string]bool
	err     string
	dur     time.Duration
	returns int
}

func verifyFunc(p *Prog, sp *Spec, lay *Lay, fs *FuncSpec) (res *fnResult) {
	t0 := time.Now()
	res = &fnResult{key: fs.Key}
	fn := p.fns[fs.Key]
	if fn == nil {
		res.err = "function not found in the repository"
		return res
	}
	ex := newExec(p, sp, lay, fs, fn)
	sp.curMode = fs.Mode
	defer func() {
		res.dur = time.Since(t0)
		res.obls, res.used, res.inlined, res.lemmas = ex.obls, ex.used, ex.inlined, ex.lemmas
		if r := recover(); r != nil {
			switch e := r.(type) {
			case unsupported:
				res.err = "unsupported: " + e.msg
			case specErr:
				res.err = "contract error: " + string(e)
			case unrollFail:
				res.err = "loop without contract could not be unrolled"
			default:
				res.err = fmt.Sprintf("internal error: %v", r)
				if *fV {
					debug.PrintStack()
				}
			}
		}
	}()
	ex.numberLoops(fn)
	st := &State{heap: map[string]*Term{}, cells: map[*Cell]Val{}, pcset: map[*Term]bool{}, ghost: map[string]*Term{}}
	st.next = born(mkFresh("next0", SRef))
	ex.ordCnt = 1
	frontierOrd[st.next] = 1
	st.assume(mkLe(mkI(1, SRef), st.next))
	fr := ex.newFrame(fn, nil, "")
	st.fr = fr
	ex.entryEnv = map[string]Val{}
	if len(fs.Params) != len(fn.Params) {
		panic(specErr(fmt.Sprintf("contract %s declares %d parameters, the function has %d", fs.Key, len(fs.Params), len(fn.Params))))
	}
	for i, q := range fn.Params {
		v := ex.freshVal(st, q.Name(), q.Type())
		fr.env[q] = v
		ex.entryEnv[fs.Params[i]] = v
	}
	for _, q := range fn.FreeVars {
		v := ex.freshVal(st, q.Name(), q.Type())
		fr.free = append(fr.free, v)
		ex.entryEnv[q.Name()] = v
	}
	if fs.Guard {
		for _, g := range sp.Guards {
			ex.guards[g.Comp] = g.Lock
		}
	}
	c := ex.ctx(st, st)
	if q := ex.specPkg(fs); q != nil {
		c.pkg = q
	}
	for k, v := range ex.entryEnv {
		c.env[k] = v
	}
	for _, g := range sortedKeys(sp.Globals) {
		c2 := ex.ctx(st, st)
		c2.pkg = p.pkgOfKey(g)
		if c2.pkg != nil && fn.Pkg != nil && c2.pkg == fn.Pkg.Pkg {
			st.assume(c2.evalBool(sp.Globals[g]))
		}
	}
	for _, r := range fs.Req {
		st.assume(c.evalBool(r.E))
	}
	ex.entry = st.clone()
	ex.cover(st, "requires satisfiable")
	ex.modAll = fs.ModAll
	for _, m := range fs.Mod {
		ex.allowed = append(ex.allowed, ex.modLocs(c, m)...)
	}
	outs := ex.runBlock(st, fn.Blocks[0], nil, false)
	res.returns = len(outs)
	var retPC []*Term
	for _, o := range outs {
		rc := ex.ctx(o.st, ex.entry)
		rc.pkg = c.pkg
		for k, v := range ex.entryEnv {
			rc.env[k] = v
		}
		for i, r := range o.res {
			n := fmt.Sprintf("res%d", i)
			if i < len(fs.Results) {
				n = fs.Results[i]
			}
			rc.env[n] = r
		}
		for _, u := range fs.Uses {
			o.st.assume(ex.useLemma(rc, u))
		}
		for _, q := range fs.Sets {
			ex.ghostSet(o.st, rc, q)
		}
		for i, a := range fs.Asserts {
			g := rc.evalBool(a.E)
			lab := a.Label
			if lab == "" {
				lab = fmt.Sprintf("assert%d", i)
			}
			ex.emit(o.st, "assert", lab, a.Src, g, nil)
			o.st.assume(g)
		}
		for i, e := range fs.Ens {
			g := rc.evalBool(e.E)
			lab := e.Label
			if lab == "" {
				lab = fmt.Sprintf("post%d", i)
			}
			ex.emit(o.st, "post", lab, e.Src, g, nil)
		}
		retPC = append(retPC, mkAnd(o.st.pc...))
	}
	if len(outs) > 0 {
		ex.coverT(mkOr(retPC...), "some return reachable")
	}
	return res
}

func (ex *Exec) cover(st *State, what string) {
	ex.obls = append(ex.obls, &Obl{Fn: ex.fs.Key, Kind: "cover", Label: what, Assume: append([]*Term{}, st.pc...), Goal: mkFalse(), Mode: ex.mode, Cover: true})
}
func (ex *Exec) coverT(t *Term, what string) {
	ex.obls = append(ex.obls, &Obl{Fn: ex.fs.Key, Kind: "cover", Label: what, Assume: []*Term{t}, Goal: mkFalse(), Mode: ex.mode, Cover: true})
}

// ------------------------------------------------------------------ lemmas

func lemmaObls(sp *Spec, l *Lemma) (obls []*Obl, err string) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(specErr); ok {
				err = string(e)
				return
			}
			panic(r)
		}
	}()
	for _, ms := range l.Modes {
		m := ModeInt
		if ms == "bv" {
			m = ModeBV
		}
		sp.curMode = m
		ex := &Exec{spec: sp, mode: m, lemmas: map[string]bool{}, lay: &Lay{}}
		env := map[string]Val{}
		for _, p := range l.Params {
			env[p.Name] = mkVar("lm!"+p.Name, sp.sortOf(p.Type))
		}
		c := &evalCtx{spec: sp, env: env, mode: m, ex: ex}
		var as []*Term
		for _, e := range l.Req {
			as = append(as, c.evalBool(e))
		}
		if l.Induct != "" {
			n := env[l.Induct].(*Term)
			env2 := map[string]Val{}
			var vs []*Term
			inst := map[*Term]*Term{}
			for _, p := range l.Params {
				if p.Name == l.Induct {
					env2[p.Name] = mkSub(n, mkI(1, n.S))
					continue
				}
				b := mkBVar(p.Name, sp.sortOf(p.Type))
				vs = append(vs, b)
				inst[b] = env[p.Name].(*Term)
				env2[p.Name] = b
			}
			c2 := &evalCtx{spec: sp, env: env2, mode: m, ex: ex}
			var rq, en []*Term
			for _, e := range l.Req {
				rq = append(rq, c2.evalBool(e))
			}
			for _, e := range l.Ens {
				en = append(en, c2.evalBool(e))
			}
			h := mkImp(mkAnd(rq...), mkAnd(en...))
			if len(vs) > 0 {
				var pats [][]*Term
				if len(l.Trig) > 0 {
					var ps []*Term
					for _, e := range l.Trig {
						ps = append(ps, c2.toTerm(c2.eval(e)))
					}
					pats = append(pats, ps)
				}
				as = append(as, mkImp(mkLt(mkI(0, n.S), n), subst(h, inst)))
				h = mkForall(vs, h, pats)
			}
			as = append(as, mkImp(mkLt(mkI(0, n.S), n), h))
		}
		ens := l.Ens
		if len(ens) == 1 && ens[0].Op == "forall" && len(l.Uses) > 0 {
			// prove it for arbitrary values, which the used lemmas may mention
			for _, v := range ens[0].Vars {
				t := v.Type
				if t == "" {
					t = "int"
				}
				env[v.Name] = mkVar("lm!"+v.Name, sp.sortOf(t))
			}
			ens = ens[0].Args[:1]
		}
		for _, u := range l.Uses {
			as = append(as, ex.useLemma(c, Clause{E: u}))
		}
		for i, e := range ens {
			obls = append(obls, &Obl{Fn: "lemma " + l.Name, Kind: "lemma", Label: fmt.Sprintf("%s.%d", ms, i), Assume: as, Goal: c.evalBool(e), Mode: m})
		}
		obls = append(obls, &Obl{Fn: "lemma " + l.Name, Kind: "cover", Label: "requires satisfiable " + ms, Assume: as, Goal: mkFalse(), Mode: m, Cover: true})
	}
	return obls, ""
}

// ------------------------------------------------------------------ solving

type job struct {
	o     *Obl
	query string
	part  int
	light string
}

// splitGoal breaks a goal into conjuncts, moving hypotheses to the
// assumptions and replacing universally quantified variables by fresh
// constants.
func splitGoal(assume []*Term, g *Term, depth int) (out []goalPart) {
	if depth > 12 {
		return []goalPart{{assume, g}}
	}
	switch g.Op {
	case "band":
		for _, a := range g.Args {
			out = append(out, splitGoal(assume, a, depth+1)...)
		}
		return out
	case "imp":
		h := append(append([]*Term{}, assume...), g.Args[0])
		return splitGoal(h, g.Args[1], depth+1)
	case "forall":
		m := map[*Term]*Term{}
		for _, v := range g.BV {
			m[v] = mkFresh("sk", v.S)
		}
		return splitGoal(assume, subst(g.Args[0], m), depth+1)
	}
	return []goalPart{{assume, g}}
}

type goalPart struct {
	assume []*Term
	goal   *Term
}

func solveAll(sp *Spec, obls []*Obl, deadline time.Time, lemLimit func(o *Obl) int) {
	ch := make(chan job, 64)
	var wg sync.WaitGroup
	for w := 0; w < 8; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range ch {
				o := j.o
				o.mu.Lock()
				skip := o.done > 0 && o.Status != "unsat"
				if skip {
					o.pend = append(o.pend, j)
				}
				o.mu.Unlock()
				if skip {
					continue
				}
				if time.Now().After(deadline) {
					o.mu.Lock()
					o.Status, o.Solver = "timeout", "deadline"
					o.done++
					o.mu.Unlock()
					continue
				}
				var r solveResult
				if o.Cover {
					r = solve(j.query, 2*time.Second, 0)
				} else {
					to := time.Duration(o.Timeout) * time.Second
					if to == 0 {
						to = 20 * time.Second
					}
					if *fTime > 0 {
						to = time.Duration(*fTime) * time.Second
					}
					q := 2 * time.Second
					if j.light != "" {
						r = solve(j.light, time.Second, 0)
					}
					if r.status != "unsat" {
						d := r.dur
						r = solve(j.query, q, to)
						r.dur += d
					}
				}
				o.mu.Lock()
				if o.done == 0 || o.Status == "unsat" {
					if o.done == 0 || r.status != "unsat" || o.Solver == solverSets[0].name {
						o.Solver = r.solver
					}
					o.Status, o.Out = r.status, r.out
				}
				o.Dur += r.dur
				o.done++
				if !o.Cover && r.status != "unsat" && r.status != "sat" {
					o.pend = append(o.pend, j)
				}
				o.mu.Unlock()
				if *fDump != "" && (o.Cover && r.status == "unsat" || !o.Cover && r.status != "unsat") {
					os.MkdirAll(*fDump, 0o755)
					os.WriteFile(filepath.Join(*fDump, sanit(o.Fn+"_"+o.Kind+"_"+o.Label+"_"+o.Pos+"_"+strconv.Itoa(o.Goal.id)+"_"+strconv.Itoa(j.part))+".smt2"), []byte(j.query), 0o644)
				}
			}
		}()
	}
	// group obligations with identical queries
	for _, o := range obls {
		if o.trivial {
			continue
		}
		sp.curMode = o.Mode
		fuel := o.Fuel
		if fuel == 0 {
			fuel = 2
		}
		sp.lemmaLimit = lemLimit(o)
		sp.hide = o.Hide
		excl := ""
		if strings.HasPrefix(o.Fn, "lemma ") {
			excl = o.Fn[6:]
		}
		parts := []goalPart{{o.Assume, o.Goal}}
		if !o.Cover && o.Mode == ModeInt {
			parts = splitGoal(o.Assume, o.Goal, 0)
		}
		o.parts = len(parts)
		for i, pt := range parts {
			q, err := buildQuery(sp, o.Mode, pt.assume, pt.goal, fuel, excl, nil)
			o.mu.Lock()
			if err != nil {
				o.Status, o.Out = "error", err.Error()
				o.done++
			}
			o.mu.Unlock()
			if err != nil {
				break
			}
			if *fDump != "" {
				q = "; " + clip(strings.ReplaceAll(pt.goal.String(), "\n", " "), 6000) + "\n" + q
			}
			light := ""
			if !o.Cover && excl == "" {
				light = buildLight(sp, o.Mode, pt.assume, pt.goal, fuel, excl)
			}
			ch <- job{o, q, i, light}
		}
	}
	close(ch)
	wg.Wait()
	// a few obligations that timed out get a second chance on a quiet machine
	var again []*Obl
	for _, o := range obls {
		if !o.Cover && len(o.pend) > 0 && o.Status != "sat" && o.Status != "error" {
			again = append(again, o)
		}
	}
	if len(again) > 6 || *fTime > 0 {
		return
	}
	for _, o := range again {
		all := true
		for _, j := range o.pend {
			if time.Now().After(deadline) {
				all = false
				break
			}
			r := solve(j.query, 2*time.Second, 60*time.Second)
			o.Dur += r.dur
			if r.status != "unsat" {
				o.Status, o.Out, o.Solver = r.status, r.out, r.solver
				all = false
				break
			}
			o.Solver = r.solver
		}
		if all {
			o.Status = "unsat"
		}
	}
}

func (o *Obl) ok() bool {
	if o.Cover {
		return o.Status != "unsat" && o.Status != "error"
	}
	return o.Status == "unsat"
}

func (o *Obl) name() string {
	s := o.Fn + ":" + o.Kind
	if o.Label != "" {
		s += ":" + o.Label
	}
	if o.Pos != "" {
		s += " at " + o.Pos
	}
	return s
}

var loopPrefix = regexp.MustCompile(`^loop[0-9]+\.`)

func propOf(label string) string {
	if len(label) >= 3 && label[0] == 'C' && label[1] >= '0' && label[1] <= '9' && label[2] >= '0' && label[2] <= '9' && (len(label) == 3 || label[3] == '.') {
		return label[:3]
	}
	return ""
}

func has(xs []string, x string) bool {
	for _, y := range xs {
		if y == x {
			return true
		}
	}
	return false
}

func main() {
	flag.Parse()
	t0 := time.Now()
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	sp, err := loadSpec(filepath.Join(*fVerif, "contracts"))
	if err != nil {
		fmt.Println("contract error:", err)
		os.Exit(2)
	}
	p, err := loadProg(*fRepo)
	if err != nil {
		fmt.Println("cannot load repository:", err)
		os.Exit(2)
	}
	lay := &Lay{prog: p, tags: map[string]int{}, tagT: map[int]types.Type{}, derv: map[string]int{}, opaque: sp.Opaque}
	var keys []string
	for _, k := range sortedKeys(sp.Funcs) {
		fs := sp.Funcs[k]
		if fs.Extern || fs.Trusted != "" {
			continue
		}
		switch {
		case *fFn != "":
			if has(strings.Split(*fFn, ","), k) {
				keys = append(keys, k)
			}
		case *fProp != "":
			if has(fs.Props, *fProp) {
				keys = append(keys, k)
			}
		case *fLemma != "":
		default:
			keys = append(keys, k)
		}
	}
	if *fList {
		for _, k := range keys {
			fmt.Println(k, sp.Funcs[k].Props)
		}
		return
	}
	if *fSSA {
		for _, k := range keys {
			if fn := p.fns[k]; fn != nil {
				fn.WriteTo(os.Stdout)
				ex := newExec(p, sp, lay, sp.Funcs[k], fn)
				ex.numberLoops(fn)
				fmt.Println(ex.loopNums)
			}
		}
		return
	}
	budget := 700 * time.Second
	deadline := t0.Add(budget)
	var results []*fnResult
	var obls []*Obl
	lem := map[string]bool{}
	for _, k := range keys {
		r := verifyFunc(p, sp, lay, sp.Funcs[k])
		results = append(results, r)
		for _, o := range r.obls {
			if *fProp != "" {
				if q := propOf(loopPrefix.ReplaceAllString(o.Label, "")); q != "" && q != *fProp {
					continue
				}
			}
			obls = append(obls, o)
		}
		for l := range r.lemmas {
			lem[l] = true
		}
		if *fV {
			fmt.Printf("# %-40s %4d obligations, %d returns, %.1fs %s\n", k, len(r.obls), r.returns, r.dur.Seconds(), r.err)
		}
	}
	// lemmas: those used explicitly and the automatic ones
	var lemErr []string
	for _, l := range sp.Axioms {
		if l.Axiom {
			continue
		}
		want := *fLemma == l.Name || *fLemma == "" && (lem[l.Name] || l.Auto && (*fProp == "" && *fFn == "" || *fProp != ""))
		for _, q := range l.Props {
			want = want || q == *fProp && *fFn == "" && *fLemma == ""
		}
		if !want {
			continue
		}
		os_, e := lemmaObls(sp, l)
		if e != "" {
			lemErr = append(lemErr, "lemma "+l.Name+": "+e)
		}
		obls = append(obls, os_...)
	}
	tv := time.Now()
	solveAll(sp, obls, deadline, func(o *Obl) int {
		if strings.HasPrefix(o.Fn, "lemma ") {
			return sp.Lemmas[o.Fn[6:]].Order
		}
		return 1 << 30
	})
	solveWall := time.Since(tv)
	report(sp, p, tier, seed, results, obls, lemErr, t0, solveWall)
}

func report(sp *Spec, p *Prog, tier string, seed int, results []*fnResult, obls []*Obl, lemErr []string, t0 time.Time, solveWall time.Duration) {
	var failed []string
	var detail []string
	bySolver := map[string]int{}
	byKind := map[string]int{}
	var total, disch, covers int
	var stime time.Duration
	byFn := map[string][2]int{}
	for _, o := range obls {
		stime += o.Dur
		if o.Cover {
			covers++
		} else {
			total++
			byKind[o.Kind]++
		}
		if o.ok() {
			if !o.Cover {
				disch++
				bySolver[o.Solver]++
			}
		} else {
			n := o.name()
			why := o.Status
			if o.Cover {
				why = "assumptions contradictory (" + o.Status + ")"
			}
			failed = append(failed, n+" ["+why+"]")
			detail = append(detail, fmt.Sprintf("obligation %s\n  contract: %s\n  goal: %s\n  solver: %s (%s)\n  output: %s\n", n, o.Src, clip(o.Goal.String(), 1500), o.Solver, why, clip(o.Out, 2000)))
		}
		x := byFn[o.Fn]
		if !o.Cover {
			x[0]++
			if o.ok() {
				x[1]++
			}
		}
		byFn[o.Fn] = x
		if *fV && (o.Dur > 2*time.Second) {
			fmt.Printf("# slow %.1fs %s %s\n", o.Dur.Seconds(), o.name(), o.Solver)
		}
	}
	for _, r := range results {
		if r.err != "" {
			failed = append(failed, r.key+": "+r.err)
			detail = append(detail, r.key+": "+r.err+"\n")
		}
	}
	failed = append(failed, lemErr...)
	detail = append(detail, lemErr...)
	for i, f := range failed {
		if i < 60 {
			fmt.Println("FAILED", f)
		}
	}
	if *fV && len(detail) > 0 {
		for i, d := range detail {
			if i < 10 {
				fmt.Println(d)
			}
		}
	}
	if *fProp == "" {
		fmt.Printf("%d/%d obligations discharged, %d functions, wall %.1fs solver %.1fs\n", disch, total, len(results), time.Since(t0).Seconds(), stime.Seconds())
		if len(failed) > 0 {
			os.Exit(1)
		}
		return
	}
	// property run
	id := *fProp
	used, inl, fnsL := map[string]bool{}, map[string]bool{}, []string{}
	for _, r := range results {
		for k := range r.used {
			used[k] = true
		}
		for k := range r.inlined {
			inl[k] = true
		}
		x := byFn[r.key]
		fnsL = append(fnsL, fmt.Sprintf("%s (%d/%d, mode %s)", r.key, x[1], x[0], sp.Funcs[r.key].Mode))
	}
	if total == 0 || len(results) == 0 {
		failed = append(failed, "no obligations were generated")
	}
	// findings recorded in known_findings.txt are reported but do not fail the check
	var knownHit []string
	for _, k := range knownFindings(id) {
		var keep []string
		hit := false
		for _, f := range failed {
			if strings.HasPrefix(f, k[0]) {
				hit = true
			} else {
				keep = append(keep, f)
			}
		}
		failed = keep
		if hit {
			knownHit = append(knownHit, k[0])
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k[1])
		}
	}
	var bounded *repResult
	hasBounded := boundedSpec(id)
	if hasBounded != "" && !*fNoRep && len(failed) == 0 {
		bounded = runReplay(id, tier, seed)
		if bounded.violation != "" {
			failed = append(failed, "bounded check of "+id+": "+firstLine(bounded.violation))
		} else if bounded.err != "" {
			failed = append(failed, "bounded check of "+id+" did not run: "+firstLine(bounded.err))
		}
	}
	ev := map[string]interface{}{
		"property": id, "tier": tier, "seed": seed, "level": "proof",
		"coverage": map[string]interface{}{
			"obligations": total, "discharged": disch,
			"checker_cmd":  "bin/gover -prop " + id + " (verification conditions from go/ssa of /repo discharged by z3 5.3.2, cvc5 1.1.2, z3 4.8.12)",
			"trusted_base": trustedBase(sp, used),
			"functions":    fnsL, "inlined_callees": sortedKeys(inl),
			"by_kind": byKind, "by_solver": bySolver, "solver_seconds": round1(stime.Seconds()), "vacuity_checks": covers,
			"undischarged": failed, "known_findings": knownHit,
		},
		"assumptions": assumptions(sp, used),
	}
	if bounded != nil {
		cov := ev["coverage"].(map[string]interface{})
		cov["bounded_stand_in"] = map[string]interface{}{"what": hasBounded, "evaluations": bounded.evals, "output": clip(bounded.out, 600)}
	}
	viol := 0
	if len(failed) > 0 {
		viol = 1
		var rep *repResult
		if bounded != nil {
			rep = bounded
		} else if !*fNoRep {
			rep = runReplay(id, tier, seed)
		} else {
			rep = &repResult{}
		}
		dir := filepath.Join(*fVerif, "evidence", "replay")
		os.MkdirAll(dir, 0o755)
		path := filepath.Join(dir, id+".txt")
		f, _ := os.Create(path)
		w := bufio.NewWriter(f)
		fmt.Fprintf(w, "property %s\n\nfailed obligations:\n", id)
		for _, x := range failed {
			fmt.Fprintln(w, "  "+x)
		}
		fmt.Fprintf(w, "\nreplay against the real code:\n")
		if rep.violation != "" {
			fmt.Fprintf(w, "%s\n\nrerun: %s\n", rep.violation, rep.cmd)
		} else {
			fmt.Fprintf(w, "no failing input found (%d cases)\n%s\n", rep.evals, clip(rep.err, 3000))
		}
		fmt.Fprintf(w, "\nverifier output:\n")
		for i, d := range detail {
			if i < 40 {
				fmt.Fprintln(w, d)
			}
		}
		w.Flush()
		f.Close()
		if rep.violation != "" {
			fmt.Println(rep.violation)
			fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
		} else {
			fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", id, path)
		}
	}
	ev["violations"] = viol
	ev["wall_s"] = round1(time.Since(t0).Seconds())
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(*fVerif, "evidence"), 0o755)
	os.WriteFile(filepath.Join(*fVerif, "evidence", id+".json"), append(b, '\n'), 0o644)
	if viol > 0 {
		os.Exit(1)
	}
	fmt.Printf("OK property=%s obligations=%d discharged=%d functions=%d wall=%.1fs\n", id, total, disch, len(results), time.Since(t0).Seconds())
}

func round1(f float64) float64 { return float64(int(f*10+0.5)) / 10 }

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}
func firstLine(s string) string { return strings.SplitN(s, "\n", 2)[0] }

// assumptions lists what the proofs rest on without being checked.
func assumptions(sp *Spec, used map[string]bool) []string {
	out := append([]string{}, sp.Assume...)
	for _, s := range trustedBase(sp, used) {
		if t, ok := strings.CutPrefix(s, "assumed: "); ok {
			out = append(out, t)
		} else if strings.HasPrefix(s, "axiom ") {
			out = append(out, s)
		}
	}
	return append(out,
		"streams have a sticky end: what a reader delivers, and how it ends, is fixed when it is handed over",
		"memory is not exhausted; slices and strings are at most 2^56 long")
}

func trustedBase(sp *Spec, used map[string]bool) []string {
	out := []string{"gover verification-condition generator over golang.org/x/tools/go/ssa v0.52.0", "z3 5.3.2 / cvc5 1.1.2 / z3 4.8.12", "go/types and go/ssa lowering of /repo"}
	for _, k := range sortedKeys(used) {
		s := k
		if strings.HasPrefix(k, "contract ") {
			if fs := sp.Funcs[k[9:]]; fs != nil && fs.Trusted != "" && fs.Trusted != "trusted" {
				s += " (" + fs.Trusted + ")"
			}
		}
		out = append(out, "assumed: "+s)
	}
	for _, l := range sp.Axioms {
		if l.Axiom {
			out = append(out, "axiom "+l.Name+" "+l.Note)
		}
	}
	sort.Strings(out[3:])
	return out
}

// ------------------------------------------------------------------ replay

type repResult struct {
	violation, err, out, cmd string
	evals                    int
}

type repCfg struct {
	Prop, Dir, Run, Bounded string
}

// replay/index.txt: <property> <directory under replay> <test regexp> [bounded: text]
func replayCfg(id string) []repCfg {
	b, err := os.ReadFile(filepath.Join(*fVerif, "replay", "index.txt"))
	if err != nil {
		return nil
	}
	var out []repCfg
	for _, ln := range strings.Split(string(b), "\n") {
		f := strings.Fields(ln)
		if len(f) < 3 || strings.HasPrefix(ln, "#") || f[0] != id {
			continue
		}
		c := repCfg{Prop: f[0], Dir: f[1], Run: f[2]}
		if i := strings.Index(ln, "bounded:"); i >= 0 {
			c.Bounded = strings.TrimSpace(ln[i+8:])
		}
		out = append(out, c)
	}
	return out
}

// known_findings.txt: "known: property=<id> obligation=<name prefix> :: <what fails>"
func knownFindings(id string) (out [][2]string) {
	b, err := os.ReadFile(filepath.Join(*fVerif, "known_findings.txt"))
	if err != nil {
		return nil
	}
	for _, ln := range strings.Split(string(b), "\n") {
		pre := "known: property=" + id + " obligation="
		if !strings.HasPrefix(ln, pre) {
			continue
		}
		i := strings.Index(ln, " :: ")
		if i > 0 {
			out = append(out, [2]string{ln[len(pre):i], ln[i+4:]})
		}
	}
	return
}

func boundedSpec(id string) string {
	var s []string
	for _, c := range replayCfg(id) {
		if c.Bounded != "" {
			s = append(s, c.Bounded)
		}
	}
	return strings.Join(s, "; ")
}

func runReplay(id, tier string, seed int) *repResult {
	res := &repResult{}
	cfgs := replayCfg(id)
	if len(cfgs) == 0 {
		return res
	}
	tmp, err := os.MkdirTemp("", "gvreplay")
	if err != nil {
		res.err = err.Error()
		return res
	}
	defer os.RemoveAll(tmp)
	type one struct {
		out string
		err error
		cmd string
	}
	outs := make([]one, len(cfgs))
	var wg sync.WaitGroup
	for i, c := range cfgs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			// replay/<dir>/*_test.go is overlaid on the package named in replay/<dir>/PKG
			dir := filepath.Join(*fVerif, "replay", c.Dir)
			pb, err := os.ReadFile(filepath.Join(dir, "PKG"))
			if err != nil {
				outs[i] = one{"", err, ""}
				return
			}
			pkg := strings.TrimSpace(string(pb))
			rep := map[string]string{}
			files, _ := filepath.Glob(filepath.Join(dir, "*_test.go"))
			for _, f := range files {
				rep[filepath.Join(*fRepo, pkg, "zz_gv_"+filepath.Base(f))] = f
			}
			b, _ := json.Marshal(map[string]interface{}{"Replace": rep})
			ov := filepath.Join(tmp, fmt.Sprintf("overlay%d.json", i))
			os.WriteFile(ov, b, 0o644)
			args := []string{"test", "-vet=off", "-count=1", "-timeout", "200s", "-overlay", ov, "-run", c.Run, "-v"}
			if fl, err := os.ReadFile(filepath.Join(dir, "FLAGS")); err == nil {
				args = append(args, strings.Fields(string(fl))...)
			}
			args = append(args, "./"+pkg)
			cmd := exec.Command("go", args...)
			cmd.Dir = *fRepo
			cmd.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "TMPDIR="+tmp, "VERIF_SEED="+strconv.Itoa(seed), "VERIF_TIER="+tier, "GOMEMLIMIT=4GiB")
			o, err := cmd.CombinedOutput()
			outs[i] = one{string(o), err, "cd /repo && go " + strings.Join(args, " ") + "  (overlay: replay/" + c.Dir + "/*_test.go onto ./" + pkg + ")"}
		}()
	}
	wg.Wait()
	for _, o := range outs {
		res.out += o.out
		for _, ln := range strings.Split(o.out, "\n") {
			t := strings.TrimSpace(ln)
			if i := strings.Index(t, "REPLAY-CASES "); i >= 0 {
				n, _ := strconv.Atoi(strings.Fields(t[i:])[1])
				res.evals += n
			}
			if i := strings.Index(t, "REPLAY-VIOLATION "); i >= 0 && res.violation == "" {
				res.violation = t[i:]
				res.cmd = o.cmd
			}
		}
		if res.violation == "" && o.err != nil {
			// a crash or hang of the code under test inside the harness is a violation as well
			if i := strings.Index(o.out, "WARNING: DATA RACE"); i >= 0 {
				res.violation = "REPLAY-VIOLATION " + clip(o.out[i:], 3000)
				res.cmd = o.cmd
			} else if i := strings.Index(o.out, "panic: "); i >= 0 && !strings.Contains(o.out, "build failed") && !strings.Contains(o.out, "REPLAY-ERROR") {
				res.violation = "REPLAY-VIOLATION crash: " + clip(o.out[i:], 1500)
				res.cmd = o.cmd
			} else {
				res.err += clip(o.out, 3000)
			}
		}
	}
	return res
}
