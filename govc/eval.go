package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

func sortStrings(s []string) { sort.Strings(s) }

// SVal is a value of the specification language.
type SVal struct {
	s    string
	typ  types.Type // Go type when it has one
	sort string     // SMT sort otherwise
	null bool
	elem types.Type // Go type of the elements of a raw array
}

// SEnv evaluates specification expressions in a state.
type SEnv struct {
	x    *Exec
	st   *State // current state
	old  *State // state at entry of the function
	lold *State // state at entry of the loop
	vars map[string]SVal
	it   string // iteration counter
	vis  *visInfo
	idx  []idxVar
	deep int
}

type visInfo struct {
	term string
	typ  types.Type
}

// idxVar remembers that index variable i of each(s, i) is k - off(s).
type idxVar struct {
	name string
	off  string
	k    string
}

func (e *SEnv) child() *SEnv {
	n := *e
	n.vars = make(map[string]SVal, len(e.vars)+2)
	for k, v := range e.vars {
		n.vars[k] = v
	}
	n.idx = append([]idxVar{}, e.idx...)
	return &n
}

func strLit(e ast.Expr) string {
	b, ok := e.(*ast.BasicLit)
	if !ok || b.Kind != token.STRING {
		unsupported("string literal expected in specification")
	}
	s, _ := strconv.Unquote(b.Value)
	return s
}

func (e *SEnv) boolean(ex ast.Expr) string {
	v := e.eval(ex)
	if e.sortOf(v) != "Bool" {
		unsupported("specification expression is not boolean: %s (%s)", v.s, e.sortOf(v))
	}
	return v.s
}

func (e *SEnv) sortOf(v SVal) string {
	if v.typ != nil {
		return e.x.t.sort(v.typ)
	}
	return v.sort
}

func sb(s string) SVal { return SVal{s: s, typ: types.Typ[types.Bool]} }
func si(s string) SVal { return SVal{s: s, typ: types.Typ[types.Int]} }

func (e *SEnv) eval(ex ast.Expr) SVal {
	x := e.x
	switch ex := ex.(type) {
	case *ast.ParenExpr:
		return e.eval(ex.X)
	case *ast.BasicLit:
		switch ex.Kind {
		case token.INT:
			return si(ex.Value)
		case token.STRING:
			return SVal{s: x.t.lit(strLit(ex)), typ: types.Typ[types.String]}
		}
	case *ast.Ident:
		return e.ident(ex)
	case *ast.UnaryExpr:
		v := e.eval(ex.X)
		switch ex.Op {
		case token.NOT:
			return sb("(not " + v.s + ")")
		case token.SUB:
			return si("(- " + v.s + ")")
		}
	case *ast.BinaryExpr:
		return e.binary(ex)
	case *ast.StarExpr:
		v := e.eval(ex.X)
		t := ptrElem(v.typ)
		return SVal{s: x.loadObj(e.st, t, v.s, nil), typ: t}
	case *ast.SelectorExpr:
		return e.selector(ex)
	case *ast.IndexExpr:
		return e.index(ex)
	case *ast.SliceExpr:
		v := e.eval(ex.X)
		if e.sortOf(v) == "Str" {
			lo, hi := "0", "(strlen "+v.s+")"
			if ex.Low != nil {
				lo = e.eval(ex.Low).s
			}
			if ex.High != nil {
				hi = e.eval(ex.High).s
			}
			return SVal{s: fmt.Sprintf("(substr %s %s %s)", v.s, lo, hi), typ: v.typ}
		}
		lo, hi := "0", "(slen "+v.s+")"
		if ex.Low != nil {
			lo = e.eval(ex.Low).s
		}
		if ex.High != nil {
			hi = e.eval(ex.High).s
		}
		return SVal{s: fmt.Sprintf("(mk-slice (sarr %s) %s %s %s)", v.s, add("(soff "+v.s+")", lo), sub(hi, lo), sub("(scap "+v.s+")", lo)), typ: v.typ}
	case *ast.CallExpr:
		return e.call(ex)
	}
	unsupported("specification expression %T", ex)
	return SVal{}
}

func (e *SEnv) ident(ex *ast.Ident) SVal {
	switch ex.Name {
	case "true", "false":
		return sb(ex.Name)
	case "nil":
		return SVal{null: true}
	case "iter":
		if e.it == "" {
			unsupported("iter outside loop")
		}
		return si(e.it)
	case "log":
		return SVal{s: e.x.heap(e.st, e.x.metaLog()), sort: "Log"}
	case "allocated":
		return si(e.st.A)
	}
	if v, ok := e.vars[ex.Name]; ok {
		return v
	}
	if m, ok := e.x.S.macros[ex.Name]; ok && len(m.params) == 0 {
		return e.child().eval(m.body)
	}
	if f, ok := e.x.S.funs[ex.Name]; ok && len(f.args) == 0 {
		return e.funRes(f, f.name)
	}
	panic(limit{"unknown name in specification: " + ex.Name})
}

func (e *SEnv) funRes(f *specFun, s string) SVal {
	if strings.HasPrefix(f.res, "#") {
		return SVal{s: s, sort: f.res[1:]}
	}
	return SVal{s: s, typ: e.x.P.resolveType(f.res)}
}

func (e *SEnv) isNil(v SVal) string {
	switch under(v.typ).(type) {
	case *types.Slice:
		return "(= (sarr " + v.s + ") 0)"
	case *types.Interface:
		return "(= (itag " + v.s + ") 0)"
	}
	return "(= " + v.s + " 0)"
}

func (e *SEnv) binary(ex *ast.BinaryExpr) SVal {
	a := e.eval(ex.X)
	b := e.eval(ex.Y)
	switch ex.Op {
	case token.LAND:
		return sb("(and " + a.s + " " + b.s + ")")
	case token.LOR:
		return sb("(or " + a.s + " " + b.s + ")")
	case token.EQL, token.NEQ:
		var r string
		switch {
		case a.null && b.null:
			r = "true"
		case b.null:
			r = e.isNil(a)
		case a.null:
			r = e.isNil(b)
		default:
			if e.sortOf(a) != e.sortOf(b) {
				unsupported("specification compares %s with %s", e.sortOf(a), e.sortOf(b))
			}
			r = "(= " + a.s + " " + b.s + ")"
		}
		if ex.Op == token.NEQ {
			r = "(not " + r + ")"
		}
		return sb(r)
	case token.ADD:
		if e.sortOf(a) == "Str" {
			return SVal{s: "(cat " + a.s + " " + b.s + ")", typ: a.typ}
		}
		return si(add(a.s, b.s))
	case token.SUB:
		return si(sub(a.s, b.s))
	case token.MUL:
		return si("(* " + a.s + " " + b.s + ")")
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		return sb("(" + ex.Op.String() + " " + a.s + " " + b.s + ")")
	}
	unsupported("specification operator %s", ex.Op)
	return SVal{}
}

// fieldPath resolves a field name through embedding.
func fieldPath(t types.Type, name string) []int {
	if p, ok := under(t).(*types.Pointer); ok {
		t = p.Elem()
	}
	var pkg *types.Package
	if n, ok := types.Unalias(t).(*types.Named); ok {
		pkg = n.Obj().Pkg()
	}
	st, ok := under(t).(*types.Struct)
	if !ok {
		unsupported("no fields in %s (looking for %s)", t, name)
	}
	if pkg == nil && st.NumFields() > 0 {
		pkg = st.Field(0).Pkg()
	}
	obj, idx, _ := types.LookupFieldOrMethod(t, true, pkg, name)
	if v, ok := obj.(*types.Var); !ok || v == nil {
		// unexported field of another package
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == name {
				return []int{i}
			}
		}
		unsupported("no field %s in %s", name, t)
	}
	return idx
}

func (e *SEnv) selector(ex *ast.SelectorExpr) SVal {
	v := e.eval(ex.X)
	return e.sel(v, ex.Sel.Name)
}

func (e *SEnv) sel(v SVal, name string) SVal {
	if v.typ == nil {
		unsupported("selector .%s on untyped specification value", name)
	}
	x := e.x
	path := fieldPath(v.typ, name)
	cur := v
	i := 0
	for i < len(path) {
		if p, ok := under(cur.typ).(*types.Pointer); ok {
			// consume as many by-value steps as possible
			root := p.Elem()
			j := i
			t := root
			for j < len(path) {
				f := under(t).(*types.Struct).Field(path[j])
				t = f.Type()
				j++
				if _, isS := under(t).(*types.Struct); !isS {
					break
				}
			}
			cur = SVal{s: x.loadObj(e.st, root, cur.s, path[i:j]), typ: t}
			i = j
			continue
		}
		f := under(cur.typ).(*types.Struct).Field(path[i])
		x.t.sort(cur.typ)
		cur = SVal{s: "(" + x.t.acc(cur.typ, path[i]) + " " + cur.s + ")", typ: f.Type()}
		i++
	}
	return cur
}

// addr resolves a selector to root type, reference and path.
func (e *SEnv) addr(ex *ast.SelectorExpr) (types.Type, string, []int) {
	// gather the chain of selectors down to a pointer value
	if in, ok := ex.X.(*ast.SelectorExpr); ok {
		v := e.eval(in)
		if _, isp := under(v.typ).(*types.Pointer); !isp {
			root, ref, path := e.addr(in)
			sub := fieldPath(v.typ, ex.Sel.Name)
			return root, ref, append(append([]int{}, path...), sub...)
		}
	}
	v := e.eval(ex.X)
	p, ok := under(v.typ).(*types.Pointer)
	if !ok {
		unsupported("mod of a field of a value")
	}
	path := fieldPath(v.typ, ex.Sel.Name)
	// walk through embedded pointers
	root, ref := p.Elem(), v.s
	var cur []int
	t := root
	for k, i := range path {
		cur = append(cur, i)
		t = under(t).(*types.Struct).Field(i).Type()
		if pt, ok := under(t).(*types.Pointer); ok && k < len(path)-1 {
			ref = e.x.loadObj(e.st, root, ref, cur)
			root = pt.Elem()
			t = root
			cur = nil
		}
	}
	return root, ref, cur
}

func (e *SEnv) index(ex *ast.IndexExpr) SVal {
	v := e.eval(ex.X)
	x := e.x
	if v.typ == nil {
		i := e.eval(ex.Index)
		// (Array K V)
		s := strings.TrimSuffix(strings.TrimPrefix(v.sort, "(Array "), ")")
		k := sexpFirst(s)
		r := SVal{s: "(select " + v.s + " " + i.s + ")", sort: strings.TrimSpace(s[len(k):])}
		if v.elem != nil {
			if _, ok := under(v.elem).(*types.Slice); ok {
				r.typ = v.elem
			}
		}
		return r
	}
	switch u := under(v.typ).(type) {
	case *types.Slice:
		h := x.heap(e.st, x.metaE(u.Elem()))
		off := "(soff " + v.s + ")"
		return SVal{s: "(select (select " + h + " (sarr " + v.s + ")) " + e.absIdx(off, ex.Index) + ")", typ: u.Elem()}
	case *types.Map:
		_, m := x.metaM(v.typ)
		i := e.eval(ex.Index)
		return SVal{s: "(select (select " + x.heap(e.st, m) + " " + v.s + ") " + i.s + ")", typ: u.Elem()}
	case *types.Basic:
		i := e.eval(ex.Index)
		return si("(sbyte " + v.s + " " + i.s + ")")
	}
	unsupported("index of %s", v.typ)
	return SVal{}
}

func sexpFirst(s string) string {
	if s[0] == '|' {
		j := strings.IndexByte(s[1:], '|')
		return s[:j+2]
	}
	if s[0] != '(' {
		return strings.Fields(s)[0]
	}
	d := 0
	for i := 0; i < len(s); i++ {
		if s[i] == '(' {
			d++
		} else if s[i] == ')' {
			d--
			if d == 0 {
				return s[:i+1]
			}
		}
	}
	return s
}

// absIdx gives off + i, using the absolute index where i comes from each().
func (e *SEnv) absIdx(off string, ix ast.Expr) string {
	if id, ok := ix.(*ast.Ident); ok {
		for j := len(e.idx) - 1; j >= 0; j-- {
			if e.idx[j].name == id.Name && e.idx[j].off == off {
				if v, ok := e.vars[id.Name]; ok && v.s == "(- "+e.idx[j].k+" "+off+")" {
					return e.idx[j].k
				}
			}
		}
	}
	i := e.eval(ix).s
	return add(off, i)
}

func (e *SEnv) call(ex *ast.CallExpr) SVal {
	x := e.x
	fn, ok := ex.Fun.(*ast.Ident)
	if !ok {
		unsupported("specification call")
	}
	arg := func(i int) SVal { return e.eval(ex.Args[i]) }
	switch fn.Name {
	case "old":
		c := e.child()
		c.st = e.old
		return c.eval(ex.Args[0])
	case "lold":
		if e.lold == nil {
			unsupported("lold outside loop")
		}
		c := e.child()
		c.st = e.lold
		return c.eval(ex.Args[0])
	case "imp":
		return sb("(=> " + arg(0).s + " " + arg(1).s + ")")
	case "iff":
		return sb("(= " + arg(0).s + " " + arg(1).s + ")")
	case "not":
		return sb("(not " + arg(0).s + ")")
	case "and", "or":
		var ps []string
		for i := range ex.Args {
			ps = append(ps, arg(i).s)
		}
		return sb("(" + fn.Name + " " + strings.Join(ps, " ") + ")")
	case "ite":
		a, b := arg(1), arg(2)
		if a.null && !b.null {
			a = SVal{s: x.t.zero(b.typ), typ: b.typ}
		}
		if b.null {
			b = SVal{s: x.t.zero(a.typ), typ: a.typ}
		}
		return SVal{s: "(ite " + arg(0).s + " " + a.s + " " + b.s + ")", typ: a.typ, sort: a.sort}
	case "len":
		v := arg(0)
		if e.sortOf(v) == "Str" {
			return si("(strlen " + v.s + ")")
		}
		return si("(slen " + v.s + ")")
	case "cap":
		return si("(scap " + arg(0).s + ")")
	case "arr":
		return si("(sarr " + arg(0).s + ")")
	case "off":
		return si("(soff " + arg(0).s + ")")
	case "has":
		m := arg(0)
		d, _ := x.metaM(m.typ)
		return sb("(select (select " + x.heap(e.st, d) + " " + m.s + ") " + arg(1).s + ")")
	case "visited":
		if e.vis == nil {
			unsupported("visited outside a loop over a map")
		}
		return sb("(select " + e.vis.term + " " + arg(0).s + ")")
	case "fresh":
		return sb("(and (< " + e.old.A + " " + e.ref(arg(0)) + ") (<= " + e.ref(arg(0)) + " " + e.st.A + "))")
	case "lfresh":
		if e.lold == nil {
			unsupported("lfresh outside a loop")
		}
		return sb("(< " + e.lold.A + " " + e.ref(arg(0)) + ")")
	case "alloc":
		return sb("(and (< 0 " + e.ref(arg(0)) + ") (<= " + e.ref(arg(0)) + " " + e.st.A + "))")
	case "wt": // the value is well formed for its static type (allocated, of that type)
		v := arg(0)
		if w := x.t.wf(v.typ, v.s, e.st.A); w != "" {
			return sb(w)
		}
		return sb("true")
	case "is": // is(x, "T")
		return sb("(= (itag " + arg(0).s + ") " + x.t.tag(x.P.resolveType(strLit(ex.Args[1]))) + ")")
	case "impl":
		return sb("(" + x.implPred(x.P.resolveType(strLit(ex.Args[1]))) + " (itag " + arg(0).s + "))")
	case "as":
		t := x.P.resolveType(strLit(ex.Args[1]))
		v := arg(0)
		if e.sortOf(v) == "Int" {
			return SVal{s: v.s, typ: t}
		}
		return SVal{s: x.t.unbox(t, "(ipay "+v.s+")"), typ: t}
	case "mk": // interface holding x of static type T
		v := arg(0)
		t := v.typ
		if len(ex.Args) > 1 {
			t = x.P.resolveType(strLit(ex.Args[1]))
		}
		return SVal{s: x.t.mkIface(t, v.s), typ: types.NewInterfaceType(nil, nil)}
	case "st": // struct literal st("T", f1, f2...)
		t := x.P.resolveType(strLit(ex.Args[0]))
		x.t.sort(t)
		r := "(" + q("mk:"+structKey(t))
		for i := 1; i < len(ex.Args); i++ {
			r += " " + arg(i).s
		}
		return SVal{s: r + ")", typ: t}
	case "nilof":
		t := x.P.resolveType(strLit(ex.Args[0]))
		return SVal{s: x.t.zero(t), typ: t}
	case "contents": // raw element array of a slice
		v := arg(0)
		if _, ok := under(v.typ).(*types.Map); ok { // raw values of a map
			_, m := x.metaM(v.typ)
			return SVal{s: "(select " + x.heap(e.st, m) + " " + v.s + ")", sort: "(Array " + x.t.sort(m.key) + " " + x.t.sort(under(v.typ).(*types.Map).Elem()) + ")"}
		}
		et := under(v.typ).(*types.Slice).Elem()
		return SVal{s: "(select " + x.heap(e.st, x.metaE(et)) + " (sarr " + v.s + "))", sort: "(Array Int " + x.t.sort(et) + ")", elem: et}
	case "dom": // raw domain of a map
		v := arg(0)
		d, _ := x.metaM(v.typ)
		return SVal{s: "(select " + x.heap(e.st, d) + " " + v.s + ")", sort: "(Array " + x.t.sort(d.key) + " Bool)"}
	case "hp": // raw heap
		m := e.heapArg(strLit(ex.Args[0]))
		return SVal{s: x.heap(e.st, m), sort: m.sort}
	case "fnconst":
		f := x.P.funcs[strLit(ex.Args[0])]
		if f == nil {
			unsupported("no function %s", strLit(ex.Args[0]))
		}
		return si(x.fnID(f))
	case "global":
		n := strLit(ex.Args[0])
		parts := strings.SplitN(n, ".", 2)
		g := x.P.pkgs[parts[0]].Var(parts[1])
		if g == nil {
			unsupported("no global %s", n)
		}
		t := g.Type().(*types.Pointer).Elem()
		return SVal{s: x.global(n, t), typ: t}
	case "raw":
		return SVal{s: strLit(ex.Args[0]), sort: strLit(ex.Args[1])}
	case "cast": // give a raw value a Go type
		v := arg(0)
		return SVal{s: v.s, typ: x.P.resolveType(strLit(ex.Args[1]))}
	case "ev": // ev("name", log, args...)
		r := "(ev." + strLit(ex.Args[0])
		sorts := []string{}
		for i := 1; i < len(ex.Args); i++ {
			v := arg(i)
			sorts = append(sorts, e.sortOf(v))
			r += " " + v.s
		}
		x.t.d.add("ev."+strLit(ex.Args[0]), fmt.Sprintf("(declare-fun ev.%s (%s) Log)", strLit(ex.Args[0]), strings.Join(sorts, " ")))
		return SVal{s: r + ")", sort: "Log"}
	case "forall", "exists":
		return e.quant(fn.Name, ex)
	case "each", "some":
		return e.each(fn.Name, ex)
	case "upd": // an array with one element changed
		v := arg(0)
		return SVal{s: "(store " + v.s + " " + arg(1).s + " " + arg(2).s + ")", sort: v.sort}
	case "seen": // true; makes a term available to patterns
		v := arg(0)
		return sb(x.touch(e.sortOf(v), v.s))
	case "letin": // letin("name", value, body)
		c := e.child()
		c.vars[strLit(ex.Args[0])] = arg(1)
		return c.eval(ex.Args[2])
	}
	if g, ok := x.S.ghosts[fn.Name]; ok {
		s := "(select " + x.heap(e.st, x.metaG(g)) + " " + e.ref(arg(0)) + ")"
		if strings.HasPrefix(g.val, "#") {
			return SVal{s: s, sort: g.val[1:]}
		}
		return SVal{s: s, typ: x.P.resolveType(g.val)}
	}
	if m, ok := x.S.macros[fn.Name]; ok {
		if len(m.params) != len(ex.Args) {
			unsupported("macro %s takes %d arguments", m.name, len(m.params))
		}
		c := e.child()
		if e.deep > 40 {
			unsupported("macro recursion in %s", m.name)
		}
		c.deep++
		c.vars = map[string]SVal{}
		for i, p := range m.params {
			c.vars[p] = arg(i)
		}
		// index variables stay usable under their new names
		c.idx = nil
		for _, iv := range e.idx {
			for i, p := range m.params {
				if id, ok := ex.Args[i].(*ast.Ident); ok && id.Name == iv.name {
					c.idx = append(c.idx, idxVar{p, iv.off, iv.k})
				}
			}
		}
		return c.eval(m.body)
	}
	if f, ok := x.S.funs[fn.Name]; ok {
		if len(f.args) != len(ex.Args) {
			unsupported("function %s takes %d arguments", f.name, len(f.args))
		}
		r := "(" + f.name
		for i := range ex.Args {
			v := arg(i)
			want := x.specSort(f.args[i])
			if v.null {
				v = SVal{s: x.t.zero(x.P.resolveType(f.args[i])), sort: want}
			}
			if e.sortOf(v) != want {
				unsupported("argument %d of %s has sort %s, want %s", i+1, f.name, e.sortOf(v), want)
			}
			r += " " + v.s
		}
		return e.funRes(f, r+")")
	}
	unsupported("unknown function %s in specification", fn.Name)
	return SVal{}
}

func (e *SEnv) heapArg(s string) *heapMeta {
	x := e.x
	switch {
	case strings.HasPrefix(s, "[]"):
		return x.metaE(x.P.resolveType(s[2:]))
	case strings.HasPrefix(s, "dom map["):
		d, _ := x.metaM(x.P.resolveType(s[4:]))
		return d
	case strings.HasPrefix(s, "map["):
		_, v := x.metaM(x.P.resolveType(s))
		return v
	}
	return x.heapByName(s)
}

// ref is the reference behind a pointer, slice or interface.
func (e *SEnv) ref(v SVal) string {
	switch e.sortOf(v) {
	case "Slice":
		return "(sarr " + v.s + ")"
	case "Iface":
		return "(ipay " + v.s + ")"
	}
	return v.s
}

func (e *SEnv) quant(kind string, ex *ast.CallExpr) SVal {
	c := e.child()
	x := e.x
	var binds, guards []string
	decl := ""
	if id, ok := ex.Args[0].(*ast.Ident); ok {
		decl = id.Name
	} else {
		decl = strLit(ex.Args[0])
	}
	for _, d := range splitTop(decl, ',') {
		nm, ty := d, "int"
		if k := strings.Index(d, ":"); k >= 0 {
			nm, ty = strings.TrimSpace(d[:k]), strings.TrimSpace(d[k+1:])
		}
		x.n++
		v := fmt.Sprintf("%s?%d", nm, x.n)
		if strings.HasPrefix(ty, "#") {
			c.vars[nm] = SVal{s: v, sort: ty[1:]}
			binds = append(binds, "("+v+" "+ty[1:]+")")
			continue
		}
		t := x.P.resolveType(ty)
		c.vars[nm] = SVal{s: v, typ: t}
		binds = append(binds, "("+v+" "+x.t.sort(t)+")")
		if _, ok := under(t).(*types.Pointer); ok {
			guards = append(guards, "(< 0 "+v+")", "(<= "+v+" "+e.st.A+")")
			if x.t.rt[typeKey(ptrElem(t))] {
				guards = append(guards, "(= (rtype "+v+") "+x.t.tag(t)+")")
			}
		}
	}
	body := c.boolean(ex.Args[1])
	if kind == "forall" {
		body = imp(and(guards...), body)
	} else {
		body = and(append(guards, body)...)
	}
	pats := ""
	for _, p := range ex.Args[2:] {
		if pc, ok := p.(*ast.CallExpr); ok {
			if id, ok := pc.Fun.(*ast.Ident); ok && id.Name == "pats" {
				var ps []string
				for _, a := range pc.Args {
					ps = append(ps, c.eval(a).s)
				}
				pats += " :pattern (" + strings.Join(ps, " ") + ")"
				continue
			}
		}
		pats += " :pattern (" + c.eval(p).s + ")"
	}
	if pats != "" {
		body = "(! " + body + pats + ")"
	}
	return sb("(" + kind + " (" + strings.Join(binds, " ") + ") " + body + ")")
}

// each(s, i, body): for every index i of slice s.
func (e *SEnv) each(kind string, ex *ast.CallExpr) SVal {
	x := e.x
	s := e.eval(ex.Args[0])
	iname := ex.Args[1].(*ast.Ident).Name
	hs := e.st // the state in which the elements are looked at
	if ce, ok := ex.Args[0].(*ast.CallExpr); ok {
		if id, ok := ce.Fun.(*ast.Ident); ok && id.Name == "old" {
			hs = e.old
		}
	}
	c := e.child()
	x.n++
	k := fmt.Sprintf("%s?%d", iname, x.n)
	off := "(soff " + s.s + ")"
	c.vars[iname] = SVal{s: "(- " + k + " " + off + ")", typ: types.Typ[types.Int]}
	c.idx = append(c.idx, idxVar{iname, off, k})
	body := c.boolean(ex.Args[2])
	guard := fmt.Sprintf("(and (<= %s %s) (< %s (+ %s (slen %s))))", off, k, k, off, s.s)
	et := under(s.typ).(*types.Slice).Elem()
	pat := fmt.Sprintf("(select (select %s (sarr %s)) %s)", x.heap(hs, x.metaE(et)), s.s, k)
	if !strings.Contains(body, pat) {
		// the element must occur for the pattern to be found
		guard = "(and " + guard + " " + x.touch(x.t.sort(et), pat) + ")"
	}
	pats := " :pattern (" + pat + ")"
	for _, p := range ex.Args[3:] {
		pats += " :pattern (" + c.eval(p).s + ")"
	}
	if kind == "some" {
		ground := x.touch("(Array Int "+x.t.sort(et)+")", fmt.Sprintf("(select %s (sarr %s))", x.heap(hs, x.metaE(et)), s.s))
		return sb(fmt.Sprintf("(and %s (exists ((%s Int)) (! (and %s %s) %s)))", ground, k, guard, body, pats))
	}
	return sb(fmt.Sprintf("(forall ((%s Int)) (! (=> %s %s) %s))", k, guard, body, pats))
}

// touch is true of everything; it puts a term where patterns can find it.
func (x *Exec) touch(so, term string) string {
	f := "touch." + so
	if strings.ContainsAny(so, "( |") {
		f = "|touch." + strings.ReplaceAll(so, "|", "") + "|"
	}
	if _, ok := x.t.d.text[f]; !ok {
		x.t.d.add(f, fmt.Sprintf("(declare-fun %s (%s) Bool)", f, so))
		x.t.ax = append(x.t.ax, Axiom{name: f, s: fmt.Sprintf("(forall ((x %s)) (! (%s x) :pattern ((%s x))))", so, f, f), keys: []string{f}})
	}
	return "(" + f + " " + term + ")"
}

// event appends to the ghost log: name(args...) with up to four Int/Str/Slice arguments.
func (e *SEnv) event(ex ast.Expr, log string) string {
	c := ex.(*ast.CallExpr)
	nm := c.Fun.(*ast.Ident).Name
	x := e.x
	r := "(" + "ev." + nm + " " + log
	sorts := []string{"Log"}
	for _, a := range c.Args {
		v := e.eval(a)
		sorts = append(sorts, e.sortOf(v))
		r += " " + v.s
	}
	x.t.d.add("ev."+nm, fmt.Sprintf("(declare-fun ev.%s (%s) Log)", nm, strings.Join(sorts, " ")))
	return r + ")"
}

// rec introduces a function defined by recursion over the indexes of a slice
// (such a function always exists, so nothing is assumed about the program).
var reQ = regexp.MustCompile(`\?\d+`)

func (e *SEnv) rec(r recDef, st *State) SVal {
	x := e.x
	f := SVal{s: "rec!!", sort: "(Array Int Int)"}
	base := "(= (select " + f.s + " 0) " + e.eval(r.base).s + ")"
	s := e.eval(r.over)
	c := e.child()
	x.n++
	k := fmt.Sprintf("%s?%d", r.i, x.n)
	off := "(soff " + s.s + ")"
	i := "(- " + k + " " + off + ")"
	c.vars[r.i] = SVal{s: i, typ: types.Typ[types.Int]}
	c.vars[r.prev] = si("(select " + f.s + " " + i + ")")
	c.idx = append(c.idx, idxVar{r.i, off, k})
	step := c.eval(r.step).s
	et := under(s.typ).(*types.Slice).Elem()
	stepF := fmt.Sprintf("(forall ((%s Int)) (! (=> (and (<= %s %s) (< %s (+ %s (slen %s)))) (= (select %s (+ %s 1)) %s)) :pattern ((select (select %s (sarr %s)) %s))))", k, off, k, k, off, s.s, f.s, i, step, x.heap(e.st, x.metaE(et)), s.s, k)
	// the same definition is the same function
	key := reQ.ReplaceAllString(base+stepF, "?")
	nm := x.recs[key]
	if nm == "" {
		nm = x.fresh("rec", "(Array Int Int)")
		x.recs[key] = nm
	}
	f.s = nm
	st.assume(strings.ReplaceAll(base, "rec!!", nm))
	st.assume(strings.ReplaceAll(stepF, "rec!!", nm))
	return f
}
