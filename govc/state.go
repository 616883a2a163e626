package main

import (
	"fmt"
	"go/token"
	"go/types"
	"regexp"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// heapMeta describes one heap (a map from references to contents).
type heapMeta struct {
	name string
	kind byte // F field, E slice elements, D map domain, V map values, C cell, L ghost
	sort string
	typ  types.Type // leaf / element / value type
	key  types.Type // map key
}

// State of one symbolic path.
type State struct {
	heaps map[string]string
	epoch int
	A     string
	fs    *facts
	lits  map[string]bool
	ghost map[string]string
	own   []string // objects this function itself made on this path
}

func (st *State) fork() *State {
	n := *st
	n.heaps = make(map[string]string, len(st.heaps))
	for k, v := range st.heaps {
		n.heaps[k] = v
	}
	n.lits = make(map[string]bool, len(st.lits))
	for k, v := range st.lits {
		n.lits[k] = v
	}
	n.ghost = make(map[string]string, len(st.ghost))
	for k, v := range st.ghost {
		n.ghost[k] = v
	}
	return &n
}

func (st *State) assume(f string) {
	if f == "" || f == "true" {
		return
	}
	st.fs = st.fs.add(Fact{f, ""})
	for _, c := range conjuncts(f, nil) {
		st.lits[alpha(c)] = true
	}
}

// alpha renames the bound variables (name?number) in order of appearance, so
// that the same formula written twice is recognised.
func alpha(s string) string {
	if strings.IndexByte(s, '?') < 0 {
		return s
	}
	var b strings.Builder
	b.Grow(len(s))
	names := map[string]int{}
	last := 0
	for i := 0; i < len(s); i++ {
		if s[i] == '|' {
			for i++; i < len(s) && s[i] != '|'; i++ {
			}
			continue
		}
		if s[i] != '?' {
			continue
		}
		j := i
		for j > last && s[j-1] != ' ' && s[j-1] != '(' && s[j-1] != ')' {
			j--
		}
		e := i + 1
		for e < len(s) && s[e] >= '0' && s[e] <= '9' {
			e++
		}
		if e == i+1 {
			continue
		}
		v := s[j:e]
		n, ok := names[v]
		if !ok {
			n = len(names)
			names[v] = n
		}
		b.WriteString(s[last:j])
		b.WriteString("?")
		b.WriteString(strconv.Itoa(n))
		last = e
		i = e - 1
	}
	b.WriteString(s[last:])
	return b.String()
}

// known says that the formula was assumed or proved already.
func (st *State) known(goal string) bool {
	for _, c := range conjuncts(goal, nil) {
		if c != "true" && !st.lits[alpha(c)] {
			return false
		}
	}
	return true
}

func (st *State) assumeKeyed(f, key string) {
	if f == "" || f == "true" {
		return
	}
	st.fs = st.fs.add(Fact{f, key})
}

// Val is a value during execution.
type Val struct {
	s   string
	typ types.Type
	lv  *LV
	fn  *closure
	tup []Val
	it  *mapIter
	dyn types.Type // known dynamic type of an interface value
	raw string     // the value inside a known dynamic interface
}

type closure struct {
	fn    *ssa.Function
	binds []Val
}

type mapIter struct {
	m    string
	typ  types.Type
	id   string
	strs bool
}

// LV is an address that is not a whole heap object.
type LV struct {
	kind byte // 'o' object field, 'e' slice element, 'g' global, 'a' array, 'c' variable assigned once
	box  *Val
	ref  string
	idx  string
	typ  types.Type // type of the root: struct type, element type, global type, array type
	path []int
	name string
}

// Obl is a proof obligation.
type Obl struct {
	kind     string
	label    string
	fs       *facts
	goal     string
	cand     string
	userCand bool
	pos      token.Pos
	where    string
	ans      Answer
	query    string
}

func (o *Obl) name() string { return o.kind + ":" + o.label }

// Exec verifies one function.
type Exec struct {
	canons              map[string][]string
	P                   *Program
	S                   *Specs
	t                   *T
	ct                  *Contract
	fn                  *ssa.Function
	n                   int
	base                []Fact
	known               int
	obls                []*Obl
	dropped             map[string]bool
	recs                map[string]string
	entry               *State
	vars                map[string]SVal
	meta                map[string]*heapMeta
	epochA              map[int]string
	epochs              int
	trusted             map[string]bool
	inlined             map[string]bool
	calls               map[string]bool
	returns             []*facts
	paths               int
	loops               map[string]bool
	loopVar             map[string][]string
	touchC              map[*ssa.Function]map[string]bool
	ghostUse, madeGhost map[string]bool
	stack               []*ssa.Function
	nonterm             []string
	baseSeen            map[string]bool
}

func newExec(P *Program, S *Specs, ct *Contract, fn *ssa.Function) *Exec {
	x := &Exec{P: P, S: S, t: newT(P), ct: ct.body(), fn: fn, dropped: map[string]bool{}}
	x.t.rt = x.trackedUse()
	x.reset()
	x.declareSpecs()
	return x
}

func (x *Exec) reset() {
	x.base = nil
	x.recs = map[string]string{}
	x.baseSeen = map[string]bool{}
	x.known = 0
	x.obls = nil
	x.meta = map[string]*heapMeta{}
	x.madeGhost = map[string]bool{}
	x.epochA = map[int]string{}
	x.trusted = map[string]bool{}
	x.inlined = map[string]bool{}
	x.calls = map[string]bool{}
	x.returns = nil
	x.paths = 0
	x.n = 0
	x.epochs = 0
	x.loops = map[string]bool{}
	x.loopVar = map[string][]string{}
	x.touchC = map[*ssa.Function]map[string]bool{}
	x.nonterm = nil
}

func (x *Exec) declareSpecs() {
	for _, s := range x.S.smt {
		x.t.d.add(s.sym, s.text)
	}
	x.t.d.add("Log", "(declare-sort Log 0)")
	for _, f := range x.S.funs {
		var as []string
		for _, a := range f.args {
			as = append(as, x.specSort(a))
		}
		x.t.d.add(f.name, fmt.Sprintf("(declare-fun %s (%s) %s)", f.name, strings.Join(as, " "), x.specSort(f.res)))
	}
}

// struct sorts named in raw sorts
var structSorts = regexp.MustCompile(`\|S:([^|]+)\|`)

func (x *Exec) specSort(s string) string {
	s = strings.TrimSpace(s)
	if strings.HasPrefix(s, "#") {
		for _, m := range structSorts.FindAllStringSubmatch(s, -1) {
			x.t.sort(x.P.resolveType(m[1]))
		}
		return s[1:]
	}
	return x.t.sort(x.P.resolveType(s))
}

func (x *Exec) fresh(prefix, sort string) string {
	x.n++
	n := fmt.Sprintf("|%s!%d|", prefix, x.n)
	if _, ok := x.t.d.text[n]; ok && x.t.d.text[n] != "(declare-const "+n+" "+sort+")" {
		n = fmt.Sprintf("|%s!%d!%s|", prefix, x.n, strings.Map(func(r rune) rune {
			if r == '|' {
				return '_'
			}
			return r
		}, sort))
	}
	x.t.d.add(n, "(declare-const "+n+" "+sort+")")
	return n
}

// name gives a long term a short name.
func (x *Exec) name(st *State, s, sort, prefix string) string {
	if len(s) < 60 || strings.Contains(s, "?") {
		return s
	}
	c := x.fresh(prefix, sort)
	st.assumeKeyed("(= "+c+" "+s+")", c)
	return c
}

func (x *Exec) freshVal(st *State, prefix string, t types.Type) Val {
	if tp, ok := t.(*types.Tuple); ok {
		v := Val{typ: t}
		for i := 0; i < tp.Len(); i++ {
			v.tup = append(v.tup, x.freshVal(st, prefix, tp.At(i).Type()))
		}
		return v
	}
	c := x.fresh(prefix, x.t.sort(t))
	if w := x.t.wf(t, c, st.A); w != "" {
		st.assume(w)
	}
	return Val{s: c, typ: t}
}

// heap names

func fieldHeap(root types.Type, name string) string { return "F:" + structKey(root) + name }
func elemHeap(elem types.Type) string               { return "E:" + typeKey(elem) }
func mapKey(t types.Type) string {
	m := under(t).(*types.Map)
	return typeKey(m.Key()) + "=>" + typeKey(m.Elem())
}
func cellHeap(t types.Type) string { return "C:" + typeKey(t) }

func (x *Exec) metaF(root types.Type, l leaf) *heapMeta {
	n := fieldHeap(root, l.name)
	m := x.meta[n]
	if m == nil {
		m = &heapMeta{n, 'F', "(Array Int " + x.t.sort(l.typ) + ")", l.typ, nil}
		x.meta[n] = m
	}
	return m
}

func (x *Exec) metaE(elem types.Type) *heapMeta {
	n := elemHeap(elem)
	m := x.meta[n]
	if m == nil {
		m = &heapMeta{n, 'E', "(Array Int (Array Int " + x.t.sort(elem) + "))", elem, nil}
		x.meta[n] = m
	}
	return m
}

func (x *Exec) metaM(t types.Type) (d, v *heapMeta) {
	mt := under(t).(*types.Map)
	k := mapKey(t)
	d, v = x.meta["D:"+k], x.meta["V:"+k]
	if d == nil {
		ks := x.t.sort(mt.Key())
		d = &heapMeta{"D:" + k, 'D', "(Array Int (Array " + ks + " Bool))", types.Typ[types.Bool], mt.Key()}
		v = &heapMeta{"V:" + k, 'V', "(Array Int (Array " + ks + " " + x.t.sort(mt.Elem()) + "))", mt.Elem(), mt.Key()}
		x.meta[d.name], x.meta[v.name] = d, v
	}
	return
}

func (x *Exec) metaC(t types.Type) *heapMeta {
	n := cellHeap(t)
	m := x.meta[n]
	if m == nil {
		m = &heapMeta{n, 'C', "(Array Int " + x.t.sort(t) + ")", t, nil}
		x.meta[n] = m
	}
	return m
}

func (x *Exec) metaG(g *ghostDecl) *heapMeta {
	n := "G:" + g.name
	m := x.meta[n]
	if m == nil {
		m = &heapMeta{n, 'G', "(Array Int " + x.specSort(g.val) + ")", nil, nil}
		x.meta[n] = m
	}
	return m
}

func (x *Exec) metaLog() *heapMeta {
	m := x.meta["$log"]
	if m == nil {
		m = &heapMeta{"$log", 'L', "Log", nil, nil}
		x.meta["$log"] = m
	}
	return m
}

func (x *Exec) heapWF(m *heapMeta, h, A string) string {
	switch m.kind {
	case 'F', 'C':
		w := x.t.wf(m.typ, "(select "+h+" r)", A)
		if w == "" {
			return ""
		}
		return fmt.Sprintf("(forall ((r Int)) (! (=> (and (< 0 r) (<= r %s)) %s) :pattern ((select %s r))))", A, w, h)
	case 'E':
		w := x.t.wf(m.typ, "(select (select "+h+" r) k)", A)
		if w == "" {
			return ""
		}
		return fmt.Sprintf("(forall ((r Int) (k Int)) (! (=> (and (< 0 r) (<= r %s)) %s) :pattern ((select (select %s r) k))))", A, w, h)
	case 'D':
		return fmt.Sprintf("(= (select %s 0) ((as const (Array %s Bool)) false))", h, x.t.sort(m.key))
	case 'V':
		w := x.t.wf(m.typ, "(select (select "+h+" r) k)", A)
		if w == "" {
			return ""
		}
		return fmt.Sprintf("(forall ((r Int) (k %s)) (! (=> (and (< 0 r) (<= r %s)) %s) :pattern ((select (select %s r) k))))", x.t.sort(m.key), A, w, h)
	}
	return ""
}

func (x *Exec) heap(st *State, m *heapMeta) string {
	if h, ok := st.heaps[m.name]; ok {
		return h
	}
	c := q(fmt.Sprintf("%s@%d", m.name, st.epoch))
	if _, ok := x.t.d.text[c]; !ok {
		x.t.d.add(c, "(declare-const "+c+" "+m.sort+")")
	}
	if !x.baseSeen[c] {
		x.baseSeen[c] = true
		if w := x.heapWF(m, c, x.epochA[st.epoch]); w != "" {
			x.base = append(x.base, Fact{w, c})
		}
	}
	st.heaps[m.name] = c
	return c
}

// setHeap gives the heap a new value.
func (x *Exec) setHeap(st *State, m *heapMeta, term string) {
	c := x.fresh(m.name, m.sort)
	st.assumeKeyed("(= "+c+" "+term+")", c)
	st.heaps[m.name] = c
}

// havocHeap gives the heap an unknown value (well formed for the current A).
func (x *Exec) havocHeap(st *State, m *heapMeta) string {
	c := x.fresh(m.name, m.sort)
	if w := x.heapWF(m, c, st.A); w != "" {
		st.assumeKeyed(w, c)
	}
	st.heaps[m.name] = c
	return c
}

func (x *Exec) havocAll(st *State) {
	x.epochs++
	st.epoch = x.epochs
	st.heaps = map[string]string{}
	x.epochA[st.epoch] = st.A
}

func (x *Exec) bumpA(st *State) {
	a := x.fresh("A", "Int")
	st.assume(fmt.Sprintf("(>= %s %s)", a, st.A))
	st.A = a
}

func (x *Exec) alloc(st *State, pt types.Type) string {
	r := x.fresh("ref", "Int")
	st.assume(fmt.Sprintf("(= %s (+ %s 1))", r, st.A))
	st.A = r
	if len(x.t.rt) > 0 {
		tag := "0"
		if pt != nil {
			tag = x.t.tag(pt)
		}
		st.assume(fmt.Sprintf("(= (rtype %s) %s)", r, tag))
	}
	st.lits["(not (= "+r+" 0))"] = true
	st.own = append(st.own[:len(st.own):len(st.own)], r)
	for _, g := range x.boolGhosts() {
		h := x.heap(st, x.metaG(g))
		st.assumeKeyed("(not (select "+h+" "+r+"))", h)
	}
	return r
}

func (x *Exec) oblige(st *State, kind, label, goal string, pos token.Pos) {
	if goal == "" || goal == "true" {
		return
	}
	if st.known(goal) {
		x.known++
		return
	}
	x.obls = append(x.obls, &Obl{kind: kind, label: label, fs: st.fs, goal: goal, pos: pos})
	st.assume(goal)
}

// typeAt follows a field path.
func typeAt(t types.Type, path []int) types.Type {
	for _, i := range path {
		t = under(t).(*types.Struct).Field(i).Type()
	}
	return t
}

func pathName(t types.Type, path []int) string {
	s := ""
	for _, i := range path {
		f := under(t).(*types.Struct).Field(i)
		s += "." + f.Name()
		t = f.Type()
	}
	return s
}

// loadObj reads the struct (part) at path of the object ref of type root.
func (x *Exec) loadObj(st *State, root types.Type, ref string, path []int) string {
	t := typeAt(root, path)
	if u, ok := under(t).(*types.Struct); ok {
		x.t.sort(t)
		r := "(" + q("mk:"+structKey(t))
		for i := 0; i < u.NumFields(); i++ {
			r += " " + x.loadObj(st, root, ref, append(append([]int{}, path...), i))
		}
		if u.NumFields() == 0 {
			r += " 0"
		}
		return r + ")"
	}
	m := x.metaF(root, leaf{path, pathName(root, path), t})
	return "(select " + x.heap(st, m) + " " + ref + ")"
}

func (x *Exec) storeObj(st *State, root types.Type, ref string, path []int, v string) {
	t := typeAt(root, path)
	if u, ok := under(t).(*types.Struct); ok {
		v = x.name(st, v, x.t.sort(t), "sv")
		for i := 0; i < u.NumFields(); i++ {
			x.storeObj(st, root, ref, append(append([]int{}, path...), i), "("+x.t.acc(t, i)+" "+v+")")
		}
		return
	}
	m := x.metaF(root, leaf{path, pathName(root, path), t})
	x.setHeap(st, m, "(store "+x.heap(st, m)+" "+ref+" "+v+")")
}

// project reads a path inside a struct value.
func (x *Exec) project(t types.Type, v string, path []int) string {
	for _, i := range path {
		x.t.sort(t)
		v = "(" + x.t.acc(t, i) + " " + v + ")"
		t = under(t).(*types.Struct).Field(i).Type()
	}
	return v
}

// inject writes a path inside a struct value.
func (x *Exec) inject(t types.Type, v string, path []int, nv string) string {
	if len(path) == 0 {
		return nv
	}
	x.t.sort(t)
	u := under(t).(*types.Struct)
	r := "(" + q("mk:"+structKey(t))
	for i := 0; i < u.NumFields(); i++ {
		f := "(" + x.t.acc(t, i) + " " + v + ")"
		if i == path[0] {
			f = x.inject(u.Field(i).Type(), f, path[1:], nv)
		}
		r += " " + f
	}
	return r + ")"
}

func (x *Exec) global(name string, t types.Type) string {
	c := q("G:" + name)
	if _, ok := x.t.d.text[c]; !ok {
		x.t.d.add(c, "(declare-const "+c+" "+x.t.sort(t)+")")
	}
	if !x.baseSeen[c] {
		x.baseSeen[c] = true
		if w := x.t.wf(t, c, x.epochA[0]); w != "" {
			x.base = append(x.base, Fact{w, c})
		}
	}
	return c
}

func (x *Exec) load(st *State, p Val, t types.Type) string {
	if p.lv != nil {
		lv := p.lv
		switch lv.kind {
		case 'o':
			return x.loadObj(st, lv.typ, lv.ref, lv.path)
		case 'e':
			h := x.heap(st, x.metaE(lv.typ))
			return x.project(lv.typ, fmt.Sprintf("(select (select %s %s) %s)", h, lv.ref, lv.idx), lv.path)
		case 'g':
			return x.global(lv.name, lv.typ)
		case 'a':
			unsupported("load of whole array")
		case 'c':
			return lv.box.s
		}
	}
	x.nilCheck(st, p, token.NoPos)
	if _, ok := under(t).(*types.Struct); ok {
		return x.loadObj(st, t, p.s, nil)
	}
	return "(select " + x.heap(st, x.metaC(t)) + " " + p.s + ")"
}

func (x *Exec) store(st *State, p Val, t types.Type, v string) {
	if p.lv != nil {
		lv := p.lv
		switch lv.kind {
		case 'o':
			x.storeObj(st, lv.typ, lv.ref, lv.path, v)
		case 'e':
			m := x.metaE(lv.typ)
			h := x.heap(st, m)
			nv := v
			if len(lv.path) > 0 {
				nv = x.inject(lv.typ, fmt.Sprintf("(select (select %s %s) %s)", h, lv.ref, lv.idx), lv.path, v)
			}
			x.setHeap(st, m, fmt.Sprintf("(store %s %s (store (select %s %s) %s %s))", h, lv.ref, h, lv.ref, lv.idx, nv))
		default:
			unsupported("store to global or array")
		}
		return
	}
	x.nilCheck(st, p, token.NoPos)
	if _, ok := under(t).(*types.Struct); ok {
		x.storeObj(st, t, p.s, nil, v)
		return
	}
	m := x.metaC(t)
	x.setHeap(st, m, "(store "+x.heap(st, m)+" "+p.s+" "+v+")")
}

func (x *Exec) nilCheck(st *State, p Val, pos token.Pos) {
	if p.lv != nil {
		return
	}
	x.oblige(st, "nopanic", "nil dereference", "(not (= "+p.s+" 0))", pos)
}

// tryExec sets up a verification; the contracts may not fit the tree.
func tryExec(P *Program, S *Specs, ct *Contract, fn *ssa.Function) (x *Exec, msg string) {
	defer func() {
		if r := recover(); r != nil {
			if l, ok := r.(limit); ok {
				msg = l.msg
				return
			}
			panic(r)
		}
	}()
	return newExec(P, S, ct, fn), ""
}
