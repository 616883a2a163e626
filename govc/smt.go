package main

import (
	"bytes"
	"crypto/sha256"
	"fmt"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Fact is one assertion of a path. A fact with key != "" only matters for that
// symbol (well-formedness of a heap, frame of a havocked heap) and is left out
// of queries that do not mention the symbol.
type Fact struct {
	s   string
	key string
}

// facts is a persistent list, shared between forked paths.
type facts struct {
	prev *facts
	f    Fact
}

func (l *facts) add(f Fact) *facts { return &facts{l, f} }
func (l *facts) list() []Fact {
	var r []Fact
	for ; l != nil; l = l.prev {
		r = append(r, l.f)
	}
	for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
		r[i], r[j] = r[j], r[i]
	}
	return r
}

func symbolsOf(s string, into map[string]bool) {
	i := 0
	for i < len(s) {
		c := s[i]
		if c == '|' {
			j := strings.IndexByte(s[i+1:], '|')
			into[s[i:i+j+2]] = true
			i += j + 2
			continue
		}
		if c == '(' || c == ')' || c == ' ' || c == '\n' || c == '\t' {
			i++
			continue
		}
		j := i
		for j < len(s) && !strings.ContainsRune("() \n\t|", rune(s[j])) {
			j++
		}
		into[s[i:j]] = true
		i = j
	}
}

// Decls holds declarations by symbol, in order.
type Decls struct {
	mu    sync.Mutex
	order []string
	text  map[string]string
	deps  map[string][]string
	// group members share one declaration (datatype constructors)
	alias map[string]string
}

func newDecls() *Decls {
	return &Decls{text: map[string]string{}, alias: map[string]string{}}
}

func (d *Decls) add(sym, text string, members ...string) {
	if _, ok := d.text[sym]; ok {
		return
	}
	d.text[sym] = text
	d.order = append(d.order, sym)
	for _, m := range members {
		d.alias[m] = sym
	}
}

// Axiom is a global assertion, included when all its trigger symbols are used.
type Axiom struct {
	name string
	s    string
	keys []string
	alt  [][]string // or when those of one pattern are
}

// Query is one solver question: facts entail goal?
type Query struct {
	text    string
	timeout time.Duration
}

func buildQuery(d *Decls, axioms []Axiom, fs []Fact, goal string) string {
	used := map[string]bool{}
	symbolsOf(goal, used)
	include := make([]bool, len(fs))
	for i, f := range fs {
		if f.key == "" {
			include[i] = true
			symbolsOf(f.s, used)
		}
	}
	axInc := make([]bool, len(axioms))
	declared := map[string]bool{}
	for changed := true; changed; {
		changed = false
		for i, f := range fs {
			if !include[i] && used[f.key] {
				include[i] = true
				symbolsOf(f.s, used)
				changed = true
			}
		}
		for i, a := range axioms {
			if axInc[i] {
				continue
			}
			ok := len(a.alt) == 0
			for _, keys := range append([][]string{a.keys}, a.alt...) {
				if len(a.alt) > 0 && len(keys) == 0 {
					continue
				}
				all := true
				for _, k := range keys {
					if !used[k] {
						all = false
					}
				}
				if len(a.alt) == 0 {
					ok = all
				} else if all {
					ok = true
				}
			}
			if ok {
				axInc[i] = true
				symbolsOf(a.s, used)
				changed = true
			}
		}
		// declarations pull in the symbols they mention
		for s := range used {
			if al, ok := d.alias[s]; ok {
				s = al
			}
			if t, ok := d.text[s]; ok && !declared[s] {
				declared[s] = true
				symbolsOf(t, used)
				changed = true
			}
		}
	}
	var b bytes.Buffer
	for _, s := range d.order {
		if declared[s] {
			b.WriteString(d.text[s])
			b.WriteByte('\n')
		}
	}
	// string literals are distinct
	var lits []string
	for _, s := range d.order {
		if declared[s] && strings.HasPrefix(s, "lit!") {
			lits = append(lits, s)
		}
	}
	if len(lits) > 1 {
		fmt.Fprintf(&b, "(assert (distinct %s))\n", strings.Join(lits, " "))
	}
	for i, a := range axioms {
		if axInc[i] {
			fmt.Fprintf(&b, "(assert %s)\n", a.s)
		}
	}
	for i, f := range fs {
		if include[i] {
			fmt.Fprintf(&b, "(assert %s)\n", f.s)
		}
	}
	fmt.Fprintf(&b, "(assert (not %s))\n(check-sat)\n", goal)
	return b.String()
}

type solverCfg struct {
	name string
	cmd  []string
	pre  string
}

var solvers = []solverCfg{
	{"z3-5.3.2", []string{"z3-new", "-in"}, "(set-option :auto_config false)\n(set-option :smt.mbqi false)\n(set-option :smt.random_seed 1)\n(set-option :smt.solve_eqs.linear true)\n(set-option :smt.case_split 3)\n"},
	{"z3-5.3.2-arith2", []string{"z3-new", "-in"}, "(set-option :auto_config false)\n(set-option :smt.mbqi false)\n(set-option :smt.solve_eqs.linear true)\n(set-option :smt.case_split 3)\n(set-option :smt.arith.solver 2)\n"},
	{"z3-5.3.2-cs0", []string{"z3-new", "-in"}, "(set-option :auto_config false)\n(set-option :smt.mbqi false)\n"},
	{"z3-4.8.12", []string{"z3", "-in"}, "(set-option :auto_config false)\n(set-option :smt.mbqi false)\n"},
	{"cvc5-1.1.2", []string{"cvc5", "--lang=smt2", "-q"}, "(set-logic ALL)\n"},
	{"z3-5.3.2-mbqi", []string{"z3-new", "-in"}, ""},
}

var solverSem = make(chan struct{}, 8)

func runSolver(sc solverCfg, text string, to time.Duration) (string, time.Duration) {
	solverSem <- struct{}{}
	defer func() { <-solverSem }()
	args := append([]string{}, sc.cmd[1:]...)
	if strings.HasPrefix(sc.name, "z3") {
		args = append(args, "-memory:3000")
	}
	// the limit is processor time, so that the answer does not depend on what
	// else the machine does
	cmd := exec.Command(sc.cmd[0], args...)
	cmd.Stdin = strings.NewReader(sc.pre + text)
	var buf bytes.Buffer
	cmd.Stdout, cmd.Stderr = &buf, &buf
	t0 := time.Now()
	if err := cmd.Start(); err != nil {
		return "error: " + err.Error(), 0
	}
	over := make(chan struct{})
	go func() {
		tk := time.NewTicker(25 * time.Millisecond)
		defer tk.Stop()
		for {
			select {
			case <-over:
				return
			case <-tk.C:
				if w := time.Since(t0); w > to && (cpuTime(cmd.Process.Pid) > to || w > 6*to) {
					cmd.Process.Kill()
					return
				}
			}
		}
	}()
	cmd.Wait()
	close(over)
	out := buf.Bytes()
	d := time.Since(t0)
	s := strings.TrimSpace(string(out))
	first := s
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		first = s[:i]
	}
	if first != "unsat" && first != "sat" && first != "unknown" {
		if strings.Contains(s, "error") {
			return "error: " + first, d
		}
		return "timeout", d
	}
	return first, d
}

// cpuTime is the processor time a process has used.
func cpuTime(pid int) time.Duration {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
	if err != nil {
		return 0
	}
	f := strings.Fields(string(b[bytes.LastIndexByte(b, ')')+1:]))
	if len(f) < 13 {
		return 0
	}
	u, _ := strconv.Atoi(f[11])
	k, _ := strconv.Atoi(f[12])
	return time.Duration(u+k) * 10 * time.Millisecond
}

// Answer of a query.
type Answer struct {
	ok     bool
	solver string
	result string
	dur    time.Duration
}

type qcache struct {
	proved map[[32]byte]Answer
	mu     sync.Mutex
	m      map[[32]byte]*cacheEnt
}
type cacheEnt struct {
	once sync.Once
	a    Answer
}

var cache = qcache{m: map[[32]byte]*cacheEnt{}, proved: map[[32]byte]Answer{}}

// hopeless counts obligations that no solver discharged in the full time: the
// verdict is settled then, and the rest get less time each.
var hopeless atomic.Int32

// ask runs the solvers in turn. quick: only the first solver, short timeout.
func ask(text string, quick bool, to time.Duration) Answer {
	h := sha256.Sum256([]byte(fmt.Sprint(quick, to) + text))
	ht := sha256.Sum256([]byte(text))
	cache.mu.Lock()
	if a, ok := cache.proved[ht]; ok {
		cache.mu.Unlock()
		a.dur = 0
		return a
	}
	e := cache.m[h]
	if e == nil {
		e = &cacheEnt{}
		cache.m[h] = e
	}
	cache.mu.Unlock()
	e.once.Do(func() {
		var total time.Duration
		var last []string
		type try struct {
			i int
			t time.Duration
		}
		var plan []try
		if quick {
			plan = []try{{0, to}}
		} else {
			long := to
			if hopeless.Load() > 2 && long > 4*time.Second {
				long = 4 * time.Second
			}
			short := 1500 * time.Millisecond
			if short < long {
				plan = []try{{0, short}, {1, short}}
			}
			for i := range solvers {
				t := long
				if i == len(solvers)-1 && t > 5*time.Second {
					t = 5 * time.Second
				}
				plan = append(plan, try{i, t})
			}
		}
		done := map[int]bool{}
		slimmed := false
		for _, p := range plan {
			i, t, sc := p.i, p.t, solvers[p.i]
			if done[i] {
				continue
			}
			r, d := runSolver(sc, text, t)
			total += d
			if r != "timeout" {
				done[i] = true // a definite answer does not change with more time
			}
			last = append(last, sc.name+":"+r)
			if r == "unsat" {
				e.a = Answer{true, sc.name, "unsat", total}
				return
			}
			if strings.HasPrefix(r, "error") && i == 0 {
				break
			}
			if !quick && !slimmed {
				slimmed = true
				for n := 0; n <= 2; n++ {
					sl := slim(text, n)
					if sl == text && n > 0 {
						break
					}
					r, d := runSolver(sc, sl, 3*time.Second)
					total += d
					if r == "unsat" {
						e.a = Answer{true, sc.name, "unsat", total}
						return
					}
					last = append(last, sc.name+"-slim:"+r)
				}
				if cs := cases(text); cs != nil {
					all := true
					for _, c := range cs {
						one := false
						for _, k := range []int{0, 2} {
							r, d := runSolver(solvers[k], c, 4*time.Second)
							total += d
							if r == "unsat" {
								one = true
								break
							}
						}
						if !one {
							all = false
							break
						}
					}
					if all {
						e.a = Answer{true, sc.name, "unsat", total}
						return
					}
					last = append(last, sc.name+"-cases:unknown")
				}
			}
		}
		if !quick && to >= 8*time.Second {
			hopeless.Add(1)
		}
		e.a = Answer{false, "", strings.Join(last, " "), total}
	})
	if e.a.ok {
		cache.mu.Lock()
		cache.proved[ht] = e.a
		cache.mu.Unlock()
	}
	return e.a
}

func sortedKeys(m map[string]bool) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
