package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Result of verifying one function.
type Result struct {
	Func        string         `json:"func"`
	Props       []string       `json:"props"`
	Status      string         `json:"status"` // verified, failed, limit, missing
	Message     string         `json:"message,omitempty"`
	Obligations int            `json:"obligations"`
	Discharged  int            `json:"discharged"`
	Invariants  []string       `json:"invariants,omitempty"`
	Dropped     []string       `json:"dropped_user_invariants,omitempty"`
	Failed      []Failed       `json:"failed,omitempty"`
	ByKind      map[string]int `json:"by_kind"`
	Backends    map[string]int `json:"backends"`
	SolverS     float64        `json:"solver_s"`
	MaxQueryS   float64        `json:"max_query_s"`
	Loops       int            `json:"loops"`
	NonTerm     []string       `json:"loops_without_variant,omitempty"`
	Paths       int            `json:"paths"`
	Rounds      int            `json:"houdini_rounds"`
	Trusted     []string       `json:"trusted,omitempty"`
	Inlined     []string       `json:"inlined,omitempty"`
	Callees     []string       `json:"callees,omitempty"`
	Axioms      []string       `json:"axioms,omitempty"`
}

// Failed obligation.
type Failed struct {
	Name   string `json:"obligation"`
	Goal   string `json:"goal"`
	Pos    string `json:"pos"`
	Solver string `json:"solver"`
	Query  string `json:"query"`
}

func (x *Exec) axiomList() []Axiom {
	ax := append([]Axiom{}, x.t.ax...)
	names := map[string]bool{}
	for _, a := range x.S.axioms {
		if a.named {
			continue
		}
		names[a.name] = true
		ax = append(ax, x.namedAxiom(a))
	}
	for _, u := range x.ct.uses {
		n := x.S.byName[u]
		if n == nil {
			panic("no lemma " + u)
		}
		if n.lemma || n.named {
			ax = append(ax, x.namedAxiom(*n))
		}
	}
	return append(ax, x.t.ax[:0]...)
}

// namedAxiom translates an axiom or lemma; it is included in a query when all
// the specification functions it mentions occur there.
func (x *Exec) namedAxiom(n namedExpr) Axiom {
	if n.raw != "" {
		used := map[string]bool{}
		symbolsOf(n.raw, used)
		var keys []string
		for k := range used {
			if x.S.funs[k] != nil {
				keys = append(keys, k)
			}
		}
		return Axiom{name: n.name, s: n.raw, keys: keys}
	}
	st := &State{heaps: map[string]string{}, A: "0", lits: map[string]bool{}, ghost: map[string]string{}, epoch: -2}
	e := &SEnv{x: x, st: st, old: st, vars: map[string]SVal{}}
	s := e.boolean(n.e)
	if n.induct != "" {
		// proved for n >= 0 only
		ce := n.e.(*ast.CallExpr)
		nx := *ce
		nx.Args = append([]ast.Expr{}, ce.Args...)
		nx.Args[1] = &ast.CallExpr{Fun: ast.NewIdent("imp"), Args: []ast.Expr{&ast.BinaryExpr{X: ast.NewIdent(n.induct), Op: token.GEQ, Y: &ast.BasicLit{Kind: token.INT, Value: "0"}}, ce.Args[1]}}
		if n.at != nil {
			var ds []string
			for _, d := range splitTop(strLit(ce.Args[0]), ',') {
				if strings.TrimSpace(d) != n.induct {
					ds = append(ds, d)
				}
			}
			nx.Args[0] = &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(strings.Join(ds, ","))}
			m := map[string]ast.Expr{n.induct: &ast.ParenExpr{X: n.at}}
			for i := 1; i < len(nx.Args); i++ {
				nx.Args[i] = subst(nx.Args[i], m)
			}
		}
		s = e.boolean(&nx)
	}
	used := map[string]bool{}
	symbolsOf(s, used)
	var keys []string
	for k := range used {
		if x.S.funs[k] != nil {
			keys = append(keys, k)
		}
	}
	sortStrings(keys)
	a := Axiom{name: n.name, s: s, keys: keys}
	for _, p := range outerPatterns(s) {
		ps := map[string]bool{}
		symbolsOf(p, ps)
		var ks []string
		for k := range ps {
			if x.S.funs[k] != nil {
				ks = append(ks, k)
			}
		}
		if len(ks) > 0 {
			a.alt = append(a.alt, ks)
		}
	}
	return a
}

// outerPatterns are the patterns of the outermost quantifier.
func outerPatterns(s string) []string {
	if !strings.HasPrefix(s, "(forall ") {
		return nil
	}
	s = s[len("(forall "):]
	s = strings.TrimSpace(s[len(sexpFirst(s)):])
	if !strings.HasPrefix(s, "(! ") {
		return nil
	}
	s = s[3:]
	s = strings.TrimSpace(s[len(sexpFirst(s)):])
	var r []string
	for strings.HasPrefix(s, ":pattern ") {
		s = s[len(":pattern "):]
		p := sexpFirst(s)
		r = append(r, p)
		s = strings.TrimSpace(s[len(p):])
	}
	return r
}

var (
	candDump string
	candNo   int
)

func (x *Exec) execute() (err error) {
	defer func() {
		if r := recover(); r != nil {
			if l, ok := r.(limit); ok {
				err = fmt.Errorf("%s", l.msg)
				return
			}
			panic(r)
		}
	}()
	x.reset()
	fn, ct := x.fn, x.ct
	x.t.d.add("A0", "(declare-const A0 Int)")
	st := &State{heaps: map[string]string{}, A: "A0", lits: map[string]bool{}, ghost: map[string]string{}}
	x.epochA[0] = "A0"
	st.assume("(<= 0 A0)")
	fr := &frame{fn: fn, env: map[ssa.Value]Val{}, path: ct.name, loops: map[*ssa.BasicBlock]*loopCtx{}}
	x.vars = map[string]SVal{}
	if len(ct.params) != len(fn.Params) {
		unsupported("contract of %s has %d parameters, the function %d", ct.name, len(ct.params), len(fn.Params))
	}
	for i, p := range fn.Params {
		v := x.freshVal(st, "p_"+ct.params[i], p.Type())
		fr.env[p] = v
		x.vars[ct.params[i]] = SVal{s: v.s, typ: p.Type()}
	}
	if len(ct.free) != len(fn.FreeVars) {
		unsupported("contract of %s has %d free variables, the function %d", ct.name, len(ct.free), len(fn.FreeVars))
	}
	for i, f := range fn.FreeVars {
		v := x.freshVal(st, "f_"+ct.free[i], f.Type())
		fr.env[f] = v
		x.vars[ct.free[i]] = SVal{s: v.s, typ: f.Type()}
	}
	x.entry = st.fork()
	e := &SEnv{x: x, st: x.entry, old: x.entry, vars: x.vars}
	for _, r := range ct.requires {
		st.assume(e.boolean(r.e))
	}
	for _, r := range ct.recs {
		x.vars[r.name] = e.rec(r, st)
	}
	for n, h := range x.entry.heaps {
		st.heaps[n] = h
	}
	x.entry.fs = st.fs
	for _, ev := range ct.events {
		m := x.metaLog()
		h := x.heap(x.entry, m)
		st.heaps["$log"] = h
		x.setHeap(st, m, e.event(ev.e, h))
	}
	fr.ret = func(st *State, vs []Val) { x.atReturn(fr, st, vs) }
	x.hint(st)
	x.enterFn(fr, st)
	return nil
}

func (x *Exec) atReturn(fr *frame, st *State, vs []Val) {
	ct := x.ct
	env := &SEnv{x: x, st: st, old: x.entry, vars: map[string]SVal{}}
	for k, v := range x.vars {
		env.vars[k] = v
	}
	for i, n := range ct.results {
		if i < len(vs) {
			if vs[i].lv != nil {
				unsupported("interior pointer returned")
			}
			env.vars[n] = SVal{s: vs[i].s, typ: vs[i].typ}
		}
	}
	rt := x.fn.Signature.Results()
	for i, n := range ct.results {
		if i < rt.Len() {
			v := env.vars[n]
			v.typ = rt.At(i).Type()
			env.vars[n] = v
		}
	}
	x.returns = append(x.returns, st.fs)
	for _, g := range ct.gsets {
		m := x.metaG(x.S.ghosts[g.name])
		h := x.heap(st, m)
		if g.cond == nil {
			x.setHeap(st, m, "(store "+h+" "+env.ref(env.eval(g.ref.e))+" "+env.eval(g.val.e).s+")")
			continue
		}
		e2 := env.child()
		e2.vars[g.ref.e.(*ast.Ident).Name] = SVal{s: "r!", typ: x.P.resolveType(x.S.ghosts[g.name].key)}
		c, nv := e2.boolean(g.cond.e), env.eval(g.val.e).s
		nh := x.fresh("ghost", m.sort)
		st.assume(fmt.Sprintf("(forall ((r! Int)) (! (= (select %s r!) (ite %s %s (select %s r!))) :pattern ((select %s r!)) :pattern ((select %s r!))))", nh, c, nv, h, nh, h))
		x.setHeap(st, m, nh)
	}
	for _, g := range ct.ghostdefs {
		// label: the reference must be fresh
		r := env.eval(parseE(g.label, ct.name))
		c := env.ref(r)
		// ... and made here: what a callee made may have been defined by it
		own := []string{"(= " + c + " 0)"}
		for _, o := range st.own {
			own = append(own, "(= "+c+" "+o+")")
		}
		x.oblige(st, "ghostdef", g.src, "(or "+strings.Join(own, " ")+" false)", 0)
		st.assume("(=> (< " + x.entry.A + " " + c + ") " + env.boolean(g.e) + ")")
	}
	for _, g := range ct.stamps {
		st.assume(imp(env.boolean(parseE(g.label, ct.name)), env.boolean(g.e)))
	}
	for _, c := range x.S.split(ct.ensures) {
		x.oblige(st, "ensures", c.label, env.boolean(c.e), 0)
	}
	for _, g := range x.S.ghosts {
		if x.madeGhost[g.name] && !ct.allocs[g.name] {
			h := x.heap(st, x.metaG(g))
			x.oblige(st, "frame", "new "+g.name, x.noGhost(h, x.entry.A, st.A), 0)
		}
	}
	if !ct.modAll {
		e0 := &SEnv{x: x, st: x.entry, old: x.entry, vars: x.vars}
		ms := e0.mods(ct.mods)
		for _, n := range sortedHeapNames(st) {
			m := x.meta[n]
			if st.heaps[n] == x.heap(x.entry, m) {
				continue
			}
			if m.kind == 'L' {
				if ms[n] == nil {
					log := x.heap(x.entry, m)
					for _, ev := range ct.events {
						log = e0.event(ev.e, log)
					}
					x.oblige(st, "frame", "log", "(= "+st.heaps[n]+" "+log+")", 0)
				}
				continue
			}
			ex := ""
			if s := ms[n]; s != nil {
				ex = s.excl("r")
			}
			x.oblige(st, "frame", n, x.frameFact(m, st.heaps[n], x.heap(x.entry, m), x.entry.A, ex), 0)
		}
	}
	if ct.apply != nil {
		x.atApply(fr, st, env, vs)
	}
}

// atApply calls the function value the function returned.
func (x *Exec) atApply(fr *frame, st *State, env *SEnv, vs []Val) {
	ap := x.ct.apply
	var fv Val
	for i, n := range x.ct.results {
		if n == x.ct.applyRes {
			fv = vs[i]
		}
	}
	var ft types.Type
	rt := x.fn.Signature.Results()
	for i, n := range x.ct.results {
		if n == x.ct.applyRes {
			ft = rt.At(i).Type()
		}
	}
	sig := under(ft).(*types.Signature)
	mid := st.fork()
	env2 := &SEnv{x: x, st: st, old: mid, vars: map[string]SVal{}}
	for k, v := range env.vars {
		env2.vars[k] = v
	}
	var args []Val
	for i := 0; i < sig.Params().Len(); i++ {
		v := x.freshVal(st, "a_"+ap.params[i], sig.Params().At(i).Type())
		args = append(args, v)
		env2.vars[ap.params[i]] = SVal{s: v.s, typ: v.typ}
	}
	for _, r := range ap.requires {
		env2.st = st
		st.assume(env2.boolean(r.e))
	}
	for _, r := range ap.recs {
		env2.st = st
		env2.vars[r.name] = env2.rec(r, st)
	}
	mid = st.fork()
	x.callValue(fr, st, fv, ft, args, nil, func(st2 *State, v Val) {
		e3 := &SEnv{x: x, st: st2, old: mid, vars: map[string]SVal{}}
		for k, vv := range env2.vars {
			e3.vars[k] = vv
		}
		if len(v.tup) > 0 {
			for i, n := range ap.results {
				e3.vars[n] = SVal{s: v.tup[i].s, typ: v.tup[i].typ}
			}
		} else if len(ap.results) > 0 {
			e3.vars[ap.results[0]] = SVal{s: v.s, typ: sig.Results().At(0).Type()}
		}
		for _, c := range x.S.split(ap.ensures) {
			x.oblige(st2, "apply-ensures", c.label, e3.boolean(c.e), 0)
		}
		if !ap.modAll {
			ex0 := &SEnv{x: x, st: mid, old: mid, vars: e3.vars}
			ms := ex0.mods(ap.mods)
			for _, n := range sortedHeapNames(st2) {
				m := x.meta[n]
				if st2.heaps[n] == x.heap(mid, m) {
					continue
				}
				if m.kind == 'L' {
					if ms[n] == nil {
						x.oblige(st2, "apply-frame", "log", "(= "+st2.heaps[n]+" "+x.heap(mid, m)+")", 0)
					}
					continue
				}
				exs := ""
				if s := ms[n]; s != nil {
					exs = s.excl("r")
				}
				x.oblige(st2, "apply-frame", n, x.frameFact(m, st2.heaps[n], x.heap(mid, m), mid.A, exs), 0)
			}
		}
	})
}

func sortedHeapNames(st *State) []string {
	var r []string
	for n := range st.heaps {
		r = append(r, n)
	}
	sortStrings(r)
	return r
}

// verify runs Houdini rounds until the invariants are stable, then everything.
// Candidates get factor times 3 or 4 seconds.
func (x *Exec) verify(slow time.Duration, factor time.Duration) (res *Result) {
	ct := x.ct
	res = &Result{Func: ct.name, Props: ct.props, ByKind: map[string]int{}, Backends: map[string]int{}}
	defer func() {
		if r := recover(); r != nil {
			res.Status = "limit"
			if l, ok := r.(limit); ok {
				res.Message = l.msg
			} else {
				res.Message = fmt.Sprint("internal error: ", r)
				if debugOn {
					panic(r)
				}
			}
		}
	}()
	var axs []Axiom
	for round := 1; ; round++ {
		res.Rounds = round
		if err := x.execute(); err != nil {
			res.Status, res.Message = "limit", err.Error()
			return
		}
		axs = x.axiomList()
		if round > 30 {
			res.Status, res.Message = "limit", "invariants do not stabilise"
			return
		}
		var cands []*Obl
		for _, o := range x.obls {
			if o.cand != "" {
				cands = append(cands, o)
			}
		}
		x.solve(cands, axs, true, factor*3*time.Second)
		changed := false
		var userFails []*Obl
		for _, o := range cands {
			res.SolverS += o.ans.dur.Seconds()
			if !o.ans.ok && !x.dropped[o.cand] {
				if o.userCand {
					userFails = append(userFails, o)
					continue
				}
				x.dropped[o.cand] = true
				changed = true
				if candDump != "" {
					candNo++
					os.WriteFile(fmt.Sprintf("%s/auto%d.smt2", candDump, candNo), []byte("; "+o.name()+"\n"+o.query), 0644)
					fmt.Printf("     auto%d round %d %s %s\n", candNo, round, o.name(), o.ans.result)
				}
			}
		}
		// written invariants go last, and only after all solvers were asked
		if !changed && len(userFails) > 0 {
			// one obligation of each invariant first: if it fails, the others
			// of that invariant need no answer
			for len(userFails) > 0 {
				var now, later []*Obl
				seen := map[string]bool{}
				for _, o := range userFails {
					if seen[o.cand] {
						later = append(later, o)
					} else {
						seen[o.cand] = true
						now = append(now, o)
					}
				}
				x.solve(now, axs, false, factor*4*time.Second)
				for _, o := range now {
					if !o.ans.ok && !x.dropped[o.cand] {
						x.dropped[o.cand] = true
						changed = true
						if candDump != "" {
							candNo++
							os.WriteFile(fmt.Sprintf("%s/cand%d.smt2", candDump, candNo), []byte("; "+o.name()+"\n"+o.query), 0644)
							fmt.Printf("     cand%d round %d %s %s\n", candNo, round, o.name(), o.ans.result)
						}
					}
				}
				userFails = nil
				for _, o := range later {
					if !x.dropped[o.cand] {
						userFails = append(userFails, o)
					}
				}
			}
		}
		if !changed {
			break
		}
	}
	var rest []*Obl
	for _, o := range x.obls {
		if o.cand == "" {
			rest = append(rest, o)
		}
	}
	x.solve(rest, axs, false, slow)
	seenInv := map[string]bool{}
	for _, o := range x.obls {
		res.Obligations++
		res.ByKind[strings.SplitN(o.kind, "-", 2)[0]]++
		if o.cand == "" {
			res.SolverS += o.ans.dur.Seconds()
		}
		if d := o.ans.dur.Seconds(); d > res.MaxQueryS {
			res.MaxQueryS = d
		}
		if debugOn && o.ans.dur > 1500*time.Millisecond {
			fmt.Printf("     slow %.1fs %s %s %v\n", o.ans.dur.Seconds(), o.name(), o.ans.solver, o.ans.ok)
			if candDump != "" {
				candNo++
				os.WriteFile(fmt.Sprintf("%s/slow%d.smt2", candDump, candNo), []byte("; "+o.name()+"\n"+o.query), 0644)
			}
		}
		if o.ans.ok {
			res.Discharged++
			res.Backends[o.ans.solver]++
			if o.cand != "" {
				seenInv[o.cand] = true
			}
		} else {
			f := Failed{Name: ct.name + " " + o.name(), Goal: o.goal, Solver: o.ans.result, Query: o.query}
			if o.pos.IsValid() {
				f.Pos = x.P.prog.Fset.Position(o.pos).String()
			}
			res.Failed = append(res.Failed, f)
		}
	}
	for k := range x.dropped {
		if strings.Contains(k, " inv") && debugOn {
			res.Dropped = append(res.Dropped, k)
		}
	}
	sortStrings(res.Dropped)
	res.Invariants = sortedKeys(seenInv)
	res.Loops = len(x.loops)
	for l := range x.loops {
		ok := false
		for _, v := range x.loopVar[l] {
			if !x.dropped[v] {
				ok = true
			}
		}
		if !ok {
			res.NonTerm = append(res.NonTerm, l)
		}
	}
	sortStrings(res.NonTerm)
	res.Paths = len(x.returns)
	res.Trusted = sortedKeys(x.trusted)
	for _, a := range axs {
		if n := x.S.byName[a.name]; n == nil || n.lemma {
			continue
		}
		for _, o := range x.obls {
			if strings.Contains(o.query, a.s) {
				res.Axioms = append(res.Axioms, a.name)
				break
			}
		}
	}
	res.Inlined = sortedKeys(x.inlined)
	res.Callees = sortedKeys(x.calls)
	// vacuity: some return path must be satisfiable as far as the solver sees
	if len(res.Failed) == 0 {
		if len(x.returns) == 0 {
			res.Status, res.Message = "limit", "no path returns"
			return
		}
		vac := true
		for i, fs := range x.returns {
			if i > 12 {
				break
			}
			qy := buildQuery(x.t.d, axs, append(append([]Fact{}, x.base...), fs.list()...), "false")
			if a := ask(qy, true, 2*time.Second); !a.ok {
				vac = false
				break
			}
		}
		if vac {
			res.Status, res.Message = "failed", "vacuous: every return path contradicts the contract's assumptions"
			return
		}
		if res.Obligations == 0 && x.known == 0 {
			res.Status, res.Message = "failed", "no obligations"
			return
		}
		res.Status = "verified"
	} else {
		res.Status = "failed"
	}
	return
}

func (x *Exec) solve(os []*Obl, axs []Axiom, quick bool, to time.Duration) {
	qs := make([]string, len(os))
	for i, o := range os {
		fs := append(append([]Fact{}, x.base...), o.fs.list()...)
		// conjuncts of the goal that are among the facts are left out
		if rest := x.unknown(fs, o.goal); rest == "" {
			o.ans = Answer{ok: true, solver: "assumed", result: "unsat"}
		} else {
			qs[i] = buildQuery(x.t.d, axs, fs, rest)
		}
	}
	var wg sync.WaitGroup
	lim := make(chan struct{}, 8)
	for i := range os {
		if qs[i] == "" {
			continue
		}
		wg.Add(1)
		lim <- struct{}{}
		go func(i int) {
			defer func() { <-lim; wg.Done() }()
			os[i].ans = ask(qs[i], quick, to)
			os[i].query = qs[i]
		}(i)
	}
	wg.Wait()
}

var boundRe = regexp.MustCompile(`[^ ()|]+\?[0-9]+`)

// canon renames bound variables (which are unique in a formula) by occurrence.
func canon(s string) string {
	if !strings.Contains(s, "?") {
		return s
	}
	m := map[string]string{}
	return boundRe.ReplaceAllStringFunc(s, func(v string) string {
		r, ok := m[v]
		if !ok {
			r = fmt.Sprintf("?%d", len(m))
			m[v] = r
		}
		return r
	})
}

// unknown gives the part of the goal that is not literally a fact.
func (x *Exec) unknown(fs []Fact, goal string) string {
	if x.canons == nil {
		x.canons = map[string][]string{}
	}
	known := map[string]bool{}
	for _, f := range fs {
		c, ok := x.canons[f.s]
		if !ok {
			for _, p := range conjuncts(f.s, nil) {
				c = append(c, canon(p))
			}
			x.canons[f.s] = c
		}
		for _, p := range c {
			known[p] = true
		}
	}
	gs := conjuncts(goal, nil)
	var rest []string
	for _, g := range gs {
		if !known[canon(g)] {
			rest = append(rest, g)
		}
	}
	switch len(rest) {
	case 0:
		return ""
	case len(gs):
		return goal
	case 1:
		return rest[0]
	}
	return "(and " + strings.Join(rest, " ") + ")"
}
