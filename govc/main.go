// Command govc generates and discharges verification conditions for the Go
// functions of /repo from their contracts in /verif/contracts.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"os"
	"strings"
	"sync"
	"time"
)

var debugOn bool

func main() {
	repo := flag.String("repo", "/repo", "repository")
	specs := flag.String("specs", "/verif/contracts", "contracts")
	prop := flag.String("prop", "", "only functions tagged with this property")
	only := flag.String("func", "", "only this function (comma separated)")
	out := flag.String("out", "", "write JSON here")
	secs := flag.Float64("timeout", 10, "seconds per solver per obligation")
	dump := flag.String("dump", "", "write failing queries into this directory")
	list := flag.Bool("list", false, "list functions of the repository")
	ssaOf := flag.String("ssa", "", "print the SSA of a function")
	budget := flag.Float64("budget", 0, "seconds after which nothing is tried again with more time")
	flag.BoolVar(&debugOn, "debug", false, "")
	slimN := flag.Int("slim", -1, "print a query without far away facts")
	flag.Parse()
	if *slimN >= 0 {
		b, err := os.ReadFile(flag.Arg(0))
		if err != nil {
			panic(err)
		}
		fmt.Print(slim(string(b), *slimN))
		return
	}
	if debugOn {
		candDump = *dump
	}
	t0 := time.Now()
	P, err := load(*repo)
	if err != nil {
		fmt.Fprintln(os.Stderr, "load:", err)
		os.Exit(4)
	}
	if *list {
		m := map[string]bool{}
		for n := range P.funcs {
			m[n] = true
		}
		for _, n := range sortedKeys(m) {
			fmt.Println(n)
		}
		return
	}
	if *ssaOf != "" {
		P.funcs[*ssaOf].WriteTo(os.Stdout)
		return
	}
	S := readSpecs(*specs)
	var names []string
	for _, n := range S.order {
		ct := S.contracts[n]
		if ct.kind != "func" {
			continue
		}
		if *only != "" {
			ok := false
			for _, f := range strings.Split(*only, ",") {
				if f == n || f == bareName(n) || strings.HasSuffix(n, "."+f) {
					ok = true
				}
			}
			if !ok {
				continue
			}
		} else if *prop != "" {
			ok := false
			for _, p := range ct.props {
				if p == *prop {
					ok = true
				}
			}
			if !ok {
				continue
			}
		}
		names = append(names, n)
	}
	S.resolveLikes()
	S.dropUnusable(P)
	var results []*Result
	done := map[string]bool{}
	for len(names) > 0 {
		rs := make([]*Result, len(names))
		var wg sync.WaitGroup
		lim := make(chan struct{}, 8)
		for i, n := range names {
			done[n] = true
			wg.Add(1)
			lim <- struct{}{}
			go func(i int, n string) {
				defer func() { <-lim; wg.Done() }()
				ct := S.contracts[n]
				if ct == nil {
					rs[i] = &Result{Func: n, Status: "unused", Message: "no such function in this tree: its callers are verified without the contract"}
					return
				}
				fn := P.funcs[bareName(n)]
				if fn == nil {
					rs[i] = &Result{Func: n, Props: ct.props, Status: "missing", Message: "the function is not in the repository"}
					return
				}
				x, err := tryExec(P, S, ct, fn)
				if err != "" {
					rs[i] = &Result{Func: n, Props: ct.props, Status: "limit", Message: err}
					return
				}
				first := *secs
				if *budget > 0 && first > 10 {
					first = 10
				}
				rs[i] = x.verify(time.Duration(first*float64(time.Second)), 1)
			}(i, n)
		}
		wg.Wait()
		// what failed is tried again with more time: a slow machine must not
		// decide
		var again []int
		for i, r := range rs {
			if r.Status == "failed" {
				again = append(again, i)
			}
		}
		if len(again) > 0 && len(again) <= 4 && time.Since(t0).Seconds() < *budget {
			hopeless.Store(0)
			for _, i := range again {
				wg.Add(1)
				go func(i int, n string) {
					defer wg.Done()
					if x, err := tryExec(P, S, S.contracts[n], P.funcs[bareName(n)]); err == "" {
						spent := rs[i].SolverS
						rs[i] = x.verify(time.Duration(*secs*float64(time.Second)), 4)
						rs[i].SolverS += spent
					}
				}(i, names[i])
			}
			wg.Wait()
		}
		names = nil
		for _, r := range rs {
			results = append(results, r)
			if *only != "" {
				continue
			}
			for _, c := range r.Callees {
				if ct := S.contracts[c]; ct != nil && ct.kind == "func" && !done[c] {
					done[c] = true
					names = append(names, c)
				}
			}
		}
	}
	lem := verifyLemmas(P, S, *prop, *only, time.Duration(*secs*float64(time.Second)), done)
	bad := 0
	for _, r := range append(results, lem...) {
		mark := "ok  "
		if r.Status != "verified" && r.Status != "unused" {
			mark = "FAIL"
			bad++
		}
		fmt.Printf("%s %-45s %d/%d obligations, %d loops, %d paths, %d rounds, %.1fs solver (max %.1f) %s %s\n", mark, r.Func, r.Discharged, r.Obligations, r.Loops, r.Paths, r.Rounds, r.SolverS, r.MaxQueryS, r.Status, r.Message)
		if debugOn {
			for _, d := range r.Dropped {
				fmt.Println("     dropped", d)
			}
			for _, d := range r.Invariants {
				fmt.Println("     kept", d)
			}
			for _, d := range r.NonTerm {
				fmt.Println("     no variant", d)
			}
		}
		for k, f := range r.Failed {
			fmt.Printf("     %s  %s [%s]\n", f.Name, f.Pos, f.Solver)
			if *dump != "" {
				os.MkdirAll(*dump, 0755)
				os.WriteFile(fmt.Sprintf("%s/%s.%d.smt2", *dump, strings.NewReplacer("/", "_", "*", "", "(", "", ")", "").Replace(r.Func), k), []byte("; "+f.Name+"\n"+f.Query), 0644)
			}
		}
	}
	fmt.Printf("%d functions, %d not verified, %.1fs\n", len(results)+len(lem), bad, time.Since(t0).Seconds())
	if *out != "" {
		var ax []map[string]string
		for _, a := range S.axioms {
			ax = append(ax, map[string]string{"name": a.name, "text": a.src})
		}
		tr := map[string]string{}
		for _, n := range S.order {
			if c := S.contracts[n]; c != nil && c.kind != "func" {
				tr[n] = c.kind + ": " + c.reason
			}
		}
		b, _ := json.MarshalIndent(map[string]interface{}{"results": append(results, lem...), "axioms": ax, "trusted": tr, "seconds": time.Since(t0).Seconds()}, "", " ")
		os.WriteFile(*out, b, 0644)
	}
	if bad > 0 {
		os.Exit(1)
	}
}

// verifyLemmas proves the lemmas from the axioms and the lemmas they name.
func verifyLemmas(P *Program, S *Specs, prop, only string, to time.Duration, done map[string]bool) []*Result {
	var rs []*Result
	used := map[string]bool{}
	var need func(n string)
	need = func(n string) {
		if l := S.byName[n]; l != nil && !used[n] {
			used[n] = true
			for _, h := range l.hyps {
				need(h)
			}
		}
	}
	for n := range done {
		if ct := S.contracts[n]; ct != nil {
			for _, u := range ct.uses {
				need(u)
			}
		}
	}
	for _, l := range S.lemmas {
		for _, p := range l.props {
			if p == prop {
				need(l.name)
			}
		}
	}
	for _, l := range S.lemmas {
		if only != "" && !strings.Contains(","+only+",", ","+l.name+",") {
			continue
		}
		if prop != "" && !used[l.name] {
			continue
		}
		r := &Result{Func: "lemma " + l.name, Props: l.props, ByKind: map[string]int{"lemma": 1}, Backends: map[string]int{}, Obligations: 1}
		func() {
			defer func() {
				if e := recover(); e != nil {
					r.Status, r.Message = "limit", fmt.Sprint(e)
				}
			}()
			x := newExec(P, S, &Contract{name: "lemma " + l.name, locals: map[string]string{}, uses: l.hyps}, nil)
			x.epochA[-2] = "0"
			a := x.namedAxiom(l)
			if l.induct != "" {
				r.Obligations = 2
				r.ByKind["lemma"] = 2
				for i, g := range x.induction(l) {
					qy := buildQuery(x.t.d, x.axiomList(), nil, g)
					ans := ask(qy, false, to)
					r.SolverS += ans.dur.Seconds()
					if ans.ok {
						r.Discharged++
						r.Backends[ans.solver]++
					} else {
						r.Failed = append(r.Failed, Failed{Name: r.Func + []string{" base", " step"}[i], Goal: g, Solver: ans.result, Query: qy})
					}
				}
				r.Status = "verified"
				if len(r.Failed) > 0 {
					r.Status = "failed"
				}
				return
			}
			ans := ask(buildQuery(x.t.d, x.axiomList(), nil, a.s), false, to)
			r.SolverS, r.MaxQueryS = ans.dur.Seconds(), ans.dur.Seconds()
			if ans.ok {
				r.Discharged = 1
				r.Backends[ans.solver]++
				r.Status = "verified"
			} else {
				r.Status = "failed"
				r.Failed = []Failed{{Name: r.Func, Goal: a.s, Solver: ans.result, Query: buildQuery(x.t.d, x.axiomList(), nil, a.s)}}
			}
		}()
		rs = append(rs, r)
	}
	return rs
}

// induction gives the base and the step of a lemma forall("..., n", body) by
// induction over n >= 0; the lemma itself is then n >= 0 => body.
func (x *Exec) induction(l namedExpr) []string {
	ce := l.e.(*ast.CallExpr)
	st := &State{heaps: map[string]string{}, A: "0", lits: map[string]bool{}, ghost: map[string]string{}, epoch: -2}
	mk := func(n string) (string, string) { // binders of the others, body
		e := &SEnv{x: x, st: st, old: st, vars: map[string]SVal{}}
		var binds []string
		for _, d := range splitTop(strLit(ce.Args[0]), ',') {
			nm, ty := d, "int"
			if k := strings.Index(d, ":"); k >= 0 {
				nm, ty = strings.TrimSpace(d[:k]), strings.TrimSpace(d[k+1:])
			}
			if nm == l.induct {
				e.vars[nm] = si(n)
				continue
			}
			x.n++
			v := fmt.Sprintf("%s?%d", nm, x.n)
			if strings.HasPrefix(ty, "#") {
				e.vars[nm] = SVal{s: v, sort: ty[1:]}
				binds = append(binds, "("+v+" "+ty[1:]+")")
			} else {
				t := x.P.resolveType(ty)
				e.vars[nm] = SVal{s: v, typ: t}
				binds = append(binds, "("+v+" "+x.t.sort(t)+")")
			}
		}
		return strings.Join(binds, " "), e.boolean(ce.Args[1])
	}
	all := func(n string, pats bool) string {
		b, body := mk(n)
		if b == "" {
			return body
		}
		return "(forall (" + b + ") " + body + ")"
	}
	c := x.fresh("n", "Int")
	return []string{all("0", false), fmt.Sprintf("(=> (and (<= 0 %s) %s) %s)", c, all(c, false), all("(+ "+c+" 1)", false))}
}
