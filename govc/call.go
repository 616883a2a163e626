package main

import (
	"fmt"
	"go/ast"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type kont func(*State, Val)

func sigKey(s *types.Signature) string {
	var ps []string
	for i := 0; i < s.Params().Len(); i++ {
		ps = append(ps, typeKey(s.Params().At(i).Type()))
	}
	var rs []string
	for i := 0; i < s.Results().Len(); i++ {
		rs = append(rs, typeKey(s.Results().At(i).Type()))
	}
	return "func(" + strings.Join(ps, ",") + ")" + strings.Join(rs, ",")
}

func ifaceMethodKey(m *types.Func) string {
	rt := m.Type().(*types.Signature).Recv().Type()
	return typeKey(rt) + "." + m.Name()
}

func (x *Exec) call(fr *frame, st *State, in *ssa.Call, k kont) {
	c := in.Common()
	if bi, ok := c.Value.(*ssa.Builtin); ok {
		x.builtin(fr, st, in, bi.Name(), k)
		return
	}
	var args []Val
	if c.IsInvoke() {
		recv := x.val(fr, st, c.Value)
		for _, a := range c.Args {
			args = append(args, x.val(fr, st, a))
		}
		if recv.dyn != nil {
			if fn := x.P.prog.LookupMethod(recv.dyn, c.Method.Pkg(), c.Method.Name()); fn != nil {
				x.callFn(fr, st, fn, nil, append([]Val{{s: recv.raw, typ: recv.dyn}}, args...), in, k)
				return
			}
		}
		ct := x.contract(ifaceMethodKey(c.Method))
		if ct == nil {
			unsupported("no contract for interface method %s", ifaceMethodKey(c.Method))
		}
		x.oblige(st, "nopanic", "nil interface call "+c.Method.Name(), "(not (= (itag "+recv.s+") 0))", in.Pos())
		x.apply(fr, st, ct, append([]Val{recv}, args...), in.Type(), in, k)
		return
	}
	for _, a := range c.Args {
		args = append(args, x.val(fr, st, a))
	}
	if fn := c.StaticCallee(); fn != nil {
		var binds []Val
		if mc, ok := c.Value.(*ssa.MakeClosure); ok {
			binds = x.val(fr, st, mc).fn.binds
		}
		x.callFn(fr, st, fn, binds, args, in, k)
		return
	}
	fv := x.val(fr, st, c.Value)
	x.callValue(fr, st, fv, c.Value.Type(), args, in, k)
}

func (x *Exec) functypeContract(t types.Type) *Contract {
	if ct := x.contract(typeKey(t)); ct != nil {
		return ct
	}
	if s, ok := under(t).(*types.Signature); ok {
		return x.contract(sigKey(s))
	}
	return nil
}

func (x *Exec) callValue(fr *frame, st *State, fv Val, t types.Type, args []Val, in *ssa.Call, k kont) {
	if fv.fn != nil {
		x.callFn(fr, st, fv.fn.fn, fv.fn.binds, args, in, k)
		return
	}
	x.oblige(st, "nopanic", "call of nil function", "(not (= "+fv.s+" 0))", 0)
	ct := x.functypeContract(t)
	if ct == nil {
		unsupported("no contract for function type %s", t)
	}
	var rt types.Type = under(t).(*types.Signature).Results()
	if tp := rt.(*types.Tuple); tp.Len() == 1 {
		rt = tp.At(0).Type()
	}
	x.apply(fr, st, ct, append([]Val{fv}, args...), rt, in, k)
}

func (x *Exec) callFn(fr *frame, st *State, fn *ssa.Function, binds, args []Val, in *ssa.Call, k kont) {
	name := funcName(fn)
	var rt types.Type
	rt = fn.Signature.Results()
	if tp := rt.(*types.Tuple); tp.Len() == 1 {
		rt = tp.At(0).Type()
	}
	if ct := x.contract(name); ct != nil && !x.ct.inline[name] {
		lvs := false
		for _, a := range args {
			if a.lv != nil {
				lvs = true
			}
		}
		if lvs {
			unsupported("interior pointer passed to %s", name)
		}
		x.apply(fr, st, ct, append(args, binds...), rt, in, k)
		return
	}
	if fn.Blocks == nil {
		unsupported("no contract for external function %s", name)
	}
	x.inline(fr, st, fn, binds, args, k)
}

func (x *Exec) inline(fr *frame, st *State, fn *ssa.Function, binds, args []Val, k kont) {
	if fr.depth > 8 {
		unsupported("inlining too deep at %s", fn)
	}
	for _, s := range strings.Split(fr.path, "/") {
		if s == funcName(fn) {
			unsupported("recursive function %s needs a contract", funcName(fn))
		}
	}
	if fn == x.fn {
		unsupported("recursive function %s needs a contract", funcName(fn))
	}
	if x.P.loops[fn] == nil {
		x.P.loops[fn] = findLoops(fn)
	}
	x.inlined[funcName(fn)] = true
	nf := &frame{fn: fn, env: map[ssa.Value]Val{}, path: fr.path + "/" + funcName(fn), depth: fr.depth + 1, loops: map[*ssa.BasicBlock]*loopCtx{}}
	for i, p := range fn.Params {
		v := args[i]
		v.typ = p.Type()
		nf.env[p] = v
	}
	for i, f := range fn.FreeVars {
		nf.env[f] = binds[i]
	}
	nf.ret = func(st2 *State, vs []Val) {
		v := Val{}
		if len(vs) == 1 {
			v = vs[0]
		} else {
			v = Val{tup: vs, typ: fn.Signature.Results()}
		}
		k(st2, v)
	}
	x.enterFn(nf, st)
}

func (x *Exec) enterFn(fr *frame, st *State) {
	x.paths++
	if x.paths > maxPaths {
		unsupported("too many paths")
	}
	b := fr.fn.Blocks[0]
	if x.P.loops[fr.fn].loop(b) != nil {
		unsupported("loop at function entry")
	}
	x.run(fr, st, b, 0)
}

// apply uses a callee's contract.
func (x *Exec) apply(fr *frame, st *State, ct *Contract, args []Val, rt types.Type, in *ssa.Call, k kont) {
	if ct.trusted() {
		x.trusted[ct.name] = true
	} else {
		x.calls[ct.name] = true
	}
	names := append(append([]string{}, ct.params...), ct.free...)
	if ct.kind == "functype" {
		names = append([]string{"self"}, ct.params...)
	}
	if len(args) != len(names) && !(len(names) > 0 && names[0] == "...") {
		unsupported("contract of %s has %d parameters, the call has %d arguments", ct.name, len(names), len(args))
	}
	env := &SEnv{x: x, st: st, old: st, vars: map[string]SVal{}}
	for i, n := range names {
		if n == "..." {
			break
		}
		env.vars[n] = SVal{s: args[i].s, typ: args[i].typ}
	}
	pos := x.fn.Pos()
	if in != nil {
		pos = in.Pos()
	}
	for _, r := range x.S.split(ct.requires) {
		x.oblige(st, "requires", ct.name+" "+r.label, env.boolean(r.e), pos)
	}
	// recursion: the measure goes down
	if (ct == x.ct || ct.group != "" && ct.group == x.ct.group) && len(ct.decreases) > 0 {
		// measures are compared from the first to the last
		e0 := &SEnv{x: x, st: x.entry, old: x.entry, vars: x.vars}
		less := "false"
		var nonneg []string
		for i := len(ct.decreases) - 1; i >= 0; i-- {
			now := env.eval(ct.decreases[i].e).s
			was := e0.eval(x.ct.decreases[i].e).s
			nonneg = append(nonneg, "(<= 0 "+now+")")
			less = fmt.Sprintf("(or (< %s %s) (and (= %s %s) %s))", now, was, now, was, less)
		}
		x.oblige(st, "decreases", "recursive call of "+ct.name, and(append(nonneg, less)...), pos)
	}
	for _, r := range ct.recs {
		env.vars[r.name] = env.rec(r, st)
	}
	pre := st.fork()
	env.old = pre
	ns := st
	if ct.modAll {
		x.bumpA(ns)
		log := ""
		// unknown code leaves the log alone but for its own event; a function
		// of the program under contract may add anything
		if ct.trusted() {
			log = x.heap(ns, x.metaLog())
		}
		x.havocAll(ns)
		if log != "" {
			ns.heaps["$log"] = log
		}
	} else {
		x.bumpA(ns)
		menv := &SEnv{x: x, st: pre, old: pre, vars: env.vars}
		x.applyMods(ns, menv.mods(ct.mods), pre)
	}
	for _, ev := range ct.events {
		m := x.metaLog()
		eenv := &SEnv{x: x, st: pre, old: pre, vars: env.vars}
		x.setHeap(ns, m, eenv.event(ev.e, x.heap(ns, m)))
	}
	env.st = ns
	var rv Val
	switch t := rt.(type) {
	case *types.Tuple:
		rv = Val{typ: t}
		for i := 0; i < t.Len(); i++ {
			v := x.freshVal(ns, "r", t.At(i).Type())
			rv.tup = append(rv.tup, v)
			if i < len(ct.results) {
				env.vars[ct.results[i]] = SVal{s: v.s, typ: v.typ}
			}
		}
	case nil:
	default:
		rv = x.freshVal(ns, "r", t)
		if len(ct.results) > 0 {
			env.vars[ct.results[0]] = SVal{s: rv.s, typ: rv.typ}
		}
	}
	x.noNewGhosts(ns, pre.A, ct)
	x.noNewObjects(ns, pre.A, ct)
	for _, g := range ct.ghostdefs {
		r := env.ref(env.eval(parseE(g.label, ct.name)))
		ns.assume("(=> (< " + pre.A + " " + r + ") " + env.boolean(g.e) + ")")
	}
	for _, e := range ct.ensures {
		ns.assume(env.boolean(e.e))
	}
	x.hint(ns)
	k(ns, rv)
}

// hint proves the contract's hints at this point and makes them facts.
func (x *Exec) hint(st *State) {
	for _, h := range x.ct.hints {
		env := &SEnv{x: x, st: st, old: x.entry, vars: x.vars}
		x.oblige(st, "hint", h.label, env.boolean(h.e), 0)
	}
}

// modSet is the set of pre-existing locations of one heap that may change.
type modSet struct {
	m     *heapMeta
	locs  []string
	conds []func(string) string
}

func (ms *modSet) excl(r string) string {
	var ps []string
	for _, l := range ms.locs {
		ps = append(ps, "(not (= "+r+" "+l+"))")
	}
	for _, c := range ms.conds {
		ps = append(ps, "(not "+c(r)+")")
	}
	return and(ps...)
}

// mods evaluates mod clauses.
func (e *SEnv) mods(cls []Clause) map[string]*modSet {
	r := map[string]*modSet{}
	get := func(m *heapMeta) *modSet {
		if r[m.name] == nil {
			r[m.name] = &modSet{m: m}
		}
		return r[m.name]
	}
	x := e.x
	for _, cl := range cls {
		switch ex := cl.e.(type) {
		case *ast.SelectorExpr:
			root, ref, path := e.addr(ex)
			t := typeAt(root, path)
			for _, l := range leaves(t) {
				full := append(append([]int{}, path...), l.path...)
				ms := get(x.metaF(root, leaf{full, pathName(root, full), l.typ}))
				ms.locs = append(ms.locs, ref)
			}
		case *ast.Ident:
			if ex.Name == "log" {
				get(x.metaLog())
			} else {
				unsupported("mod clause %s", cl.src)
			}
		case *ast.CallExpr:
			fn := ex.Fun.(*ast.Ident).Name
			if g, ok := x.S.ghosts[fn]; ok { // live(x) or live(r, cond)
				ms := get(x.metaG(g))
				if len(ex.Args) == 1 {
					ms.locs = append(ms.locs, e.ref(e.eval(ex.Args[0])))
					continue
				}
				v, cond := ex.Args[0].(*ast.Ident).Name, ex.Args[1]
				ms.conds = append(ms.conds, func(r string) string {
					e2 := e.child()
					e2.vars[v] = SVal{s: r, typ: x.P.resolveType(g.key)}
					return e2.boolean(cond)
				})
				continue
			}
			switch fn {
			case "elems":
				s := e.eval(ex.Args[0])
				ms := get(x.metaE(under(s.typ).(*types.Slice).Elem()))
				ms.locs = append(ms.locs, "(sarr "+s.s+")")
			case "entries":
				s := e.eval(ex.Args[0])
				d, v := x.metaM(s.typ)
				for _, m := range []*heapMeta{d, v} {
					ms := get(m)
					ms.locs = append(ms.locs, s.s)
				}
			case "field", "elemsof", "entriesof": // field("tree.PN.P", r, cond)
				var hs []*heapMeta
				switch fn {
				case "field":
					hs = []*heapMeta{x.heapByName(strLit(ex.Args[0]))}
				case "elemsof":
					hs = []*heapMeta{x.metaE(x.P.resolveType(strLit(ex.Args[0])))}
				default:
					d, v := x.metaM(x.P.resolveType(strLit(ex.Args[0])))
					hs = []*heapMeta{d, v}
				}
				for _, m := range hs {
					ms := get(m)
					if len(ex.Args) == 1 {
						ms.conds = append(ms.conds, func(string) string { return "true" })
						continue
					}
					v := ex.Args[1].(*ast.Ident).Name
					cond := ex.Args[2]
					ms.conds = append(ms.conds, func(r string) string {
						e2 := e.child()
						var vt types.Type = types.Typ[types.Int]
						if fn == "field" {
							nm := strLit(ex.Args[0])
							vt = types.NewPointer(x.P.resolveType(nm[:strings.LastIndex(nm, ".")]))
						}
						e2.vars[v] = SVal{s: r, typ: vt}
						return e2.boolean(cond)
					})
				}
			default:
				unsupported("mod clause %s", cl.src)
			}
		default:
			unsupported("mod clause %s", cl.src)
		}
	}
	return r
}

// heapByName resolves "tree.PN.P" or a nested path.
func (x *Exec) heapByName(s string) *heapMeta {
	parts := strings.Split(s, ".")
	t := x.P.resolveType(parts[0] + "." + parts[1])
	var path []int
	cur := t
	for _, f := range parts[2:] {
		u := under(cur).(*types.Struct)
		ok := false
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Name() == f {
				path = append(path, i)
				cur = u.Field(i).Type()
				ok = true
				break
			}
		}
		if !ok {
			unsupported("no field %s in %s", f, s)
		}
	}
	return x.metaF(t, leaf{path, pathName(t, path), cur})
}

func (x *Exec) applyMods(ns *State, ms map[string]*modSet, pre *State) {
	var names []string
	for n := range ms {
		names = append(names, n)
	}
	sortStrings(names)
	for _, n := range names {
		s := ms[n]
		h := x.heap(pre, s.m)
		if s.m.kind == 'L' {
			x.havocHeap(ns, s.m)
			continue
		}
		if len(s.locs) == 1 && len(s.conds) == 0 {
			x.heap(ns, s.m)
			x.havocHeapAt(ns, s.m, s.locs[0])
			continue
		}
		c := x.havocHeap(ns, s.m)
		ns.assumeKeyed(x.frameFact(s.m, c, h, pre.A, s.excl("r")), c)
	}
}

// frameFact says heap c equals h on references up to A outside the excluded.
func (x *Exec) frameFact(m *heapMeta, c, h, A, excl string) string {
	lo := ""
	if m.kind == 'G' {
		lo = "(< 0 r)"
	}
	return fmt.Sprintf("(forall ((r Int)) (! (=> %s (= (select %s r) (select %s r))) :pattern ((select %s r))))", and("(<= r "+A+")", lo, excl), c, h, c)
}

func (x *Exec) builtin(fr *frame, st *State, in *ssa.Call, name string, k kont) {
	c := in.Common()
	var args []Val
	for _, a := range c.Args {
		args = append(args, x.val(fr, st, a))
	}
	switch name {
	case "len", "cap":
		a := args[0]
		switch u := under(c.Args[0].Type()).(type) {
		case *types.Slice:
			if name == "len" {
				k(st, Val{s: "(slen " + a.s + ")", typ: in.Type()})
			} else {
				k(st, Val{s: "(scap " + a.s + ")", typ: in.Type()})
			}
		case *types.Basic:
			k(st, Val{s: "(strlen " + a.s + ")", typ: in.Type()})
		case *types.Map:
			v := x.freshVal(st, "maplen", in.Type())
			st.assume("(<= 0 " + v.s + ")")
			k(st, v)
		default:
			unsupported("len of %s", u)
		}
	case "append":
		x.append(st, c, args, in, k)
	case "copy":
		d, s := args[0], args[1]
		et := under(c.Args[0].Type()).(*types.Slice).Elem()
		if x.t.sort(c.Args[1].Type()) == "Str" {
			unsupported("copy from string")
		}
		n := x.fresh("n", "Int")
		st.assume(fmt.Sprintf("(= %s (ite (<= (slen %s) (slen %s)) (slen %s) (slen %s)))", n, d.s, s.s, d.s, s.s))
		m := x.metaE(et)
		h := x.heap(st, m)
		x.copyRange(st, m, h, "(sarr "+d.s+")", "(soff "+d.s+")", n, fmt.Sprintf("(select %s (sarr %s))", h, s.s), "(soff "+s.s+")")
		k(st, Val{s: n, typ: in.Type()})
	case "delete":
		d, _ := x.metaM(c.Args[0].Type())
		h := x.heap(st, d)
		x.setHeap(st, d, fmt.Sprintf("(ite (= %s 0) %s (store %s %s (store (select %s %s) %s false)))", args[0].s, h, h, args[0].s, h, args[0].s, args[1].s))
		k(st, Val{})
	case "print", "println":
		k(st, Val{})
	default:
		unsupported("builtin %s", name)
	}
}

// copyRange writes src[soff..soff+n) over arr[off..off+n).
func (x *Exec) copyRange(st *State, m *heapMeta, h, arr, off, n, src, soff string) {
	es := strings.TrimSuffix(strings.TrimPrefix(m.sort, "(Array Int "), ")")
	b := x.fresh("arr", es)
	st.assumeKeyed(fmt.Sprintf("(forall ((k Int)) (! (= (select %s k) (ite (and (<= %s k) (< k (+ %s %s))) (select %s (+ %s (- k %s))) (select (select %s %s) k))) :pattern ((select %s k))))",
		b, off, off, n, src, soff, off, h, arr, b), b)
	// a read of the source shows where it went
	st.assumeKeyed(fmt.Sprintf("(forall ((k Int)) (! (=> (and (<= %s k) (< k (+ %s %s))) (= (select %s (+ %s (- k %s))) (select %s k))) :pattern ((select %s k))))",
		soff, soff, n, b, off, soff, src, src), b)
	x.setHeap(st, m, fmt.Sprintf("(store %s %s %s)", h, arr, b))
}

func (x *Exec) append(st *State, c *ssa.CallCommon, args []Val, in *ssa.Call, k kont) {
	et := under(in.Type()).(*types.Slice).Elem()
	m := x.metaE(et)
	s := x.name(st, args[0].s, "Slice", "s")
	if len(args) == 1 {
		k(st, Val{s: s, typ: in.Type()})
		return
	}
	var n, src, soff string
	if x.t.sort(c.Args[1].Type()) == "Str" {
		n, src, soff = "(strlen "+args[1].s+")", "(bytesOf "+args[1].s+")", "0"
	} else {
		t := args[1].s
		if t == "(mk-slice 0 0 0 0)" {
			k(st, Val{s: s, typ: in.Type()})
			return
		}
		t = x.name(st, t, "Slice", "t")
		n, soff = "(slen "+t+")", "(soff "+t+")"
		src = fmt.Sprintf("(select %s (sarr %s))", x.heap(st, m), t)
		if cn := constLen(c.Args[1]); cn >= 0 {
			n, soff = fmt.Sprint(cn), "0"
		}
	}
	cn := constLen(c.Args[1])
	ln := "(slen " + s + ")"
	write := func(st *State, h, arr, off string) {
		if cn >= 0 && cn <= 4 {
			a := fmt.Sprintf("(select %s %s)", h, arr)
			for j := 0; j < cn; j++ {
				a = fmt.Sprintf("(store %s %s (select %s %d))", a, add(add(off, ln), fmt.Sprint(j)), src, j)
			}
			x.setHeap(st, m, fmt.Sprintf("(store %s %s %s)", h, arr, a))
			return
		}
		x.copyRange(st, m, h, arr, add(off, ln), n, src, soff)
	}
	fits := fmt.Sprintf("(<= (+ %s %s) (scap %s))", ln, n, s)
	// in place
	st2 := st.fork()
	st.assume(fits)
	if cn > 0 {
		st.assume("(< 0 (scap " + s + "))")
	}
	h := x.heap(st, m)
	write(st, h, "(sarr "+s+")", "(soff "+s+")")
	r := x.fresh("app", "Slice")
	st.assume(fmt.Sprintf("(= %s (mk-slice (sarr %s) (soff %s) (+ %s %s) (scap %s)))", r, s, s, ln, n, s))
	k(st, Val{s: r, typ: in.Type()})
	// new array
	st2.assume("(not " + fits + ")")
	h = x.heap(st2, m)
	old := fmt.Sprintf("(select %s (sarr %s))", h, s)
	ref := x.alloc(st2, nil)
	x.bornArray(st2, et, ref)
	cp := x.fresh("cap", "Int")
	st2.assume(fmt.Sprintf("(>= %s (+ %s %s))", cp, ln, n))
	es := strings.TrimSuffix(strings.TrimPrefix(m.sort, "(Array Int "), ")")
	b := x.fresh("arr", es)
	st2.assumeKeyed(fmt.Sprintf("(forall ((k Int)) (! (=> (and (<= 0 k) (< k %s)) (= (select %s k) (select %s (+ (soff %s) k)))) :pattern ((select %s k))))", ln, b, old, s, b), b)
	st2.assumeKeyed(fmt.Sprintf("(forall ((k Int)) (! (=> (and (<= (soff %s) k) (< k (+ (soff %s) %s))) (= (select %s (- k (soff %s))) (select %s k))) :pattern ((select %s k))))", s, s, ln, b, s, old, old), b)
	if w := x.t.wf(et, "(select "+b+" k)", st2.A); w != "" {
		st2.assumeKeyed(fmt.Sprintf("(forall ((k Int)) (! %s :pattern ((select %s k))))", w, b), b)
	}
	hh := x.fresh(m.name, m.sort)
	st2.assumeKeyed(fmt.Sprintf("(= %s (store %s %s %s))", hh, h, ref, b), hh)
	write(st2, hh, ref, "0")
	r2 := x.fresh("app", "Slice")
	st2.assume(fmt.Sprintf("(= %s (mk-slice %s 0 (+ %s %s) %s))", r2, ref, ln, n, cp))
	k(st2, Val{s: r2, typ: in.Type()})
}

// bornArray assumes of a new array what the born clauses for its element type
// say of obj, the array.
func (x *Exec) bornArray(st *State, et types.Type, ref string) {
	for _, bc := range x.ct.born {
		if strings.HasPrefix(bc.label, "[]") && typeKey(x.P.resolveType(bc.label[2:])) == typeKey(et) {
			e := &SEnv{x: x, st: st, old: x.entry, vars: map[string]SVal{"obj": si(ref)}}
			st.assume(e.boolean(bc.e))
		}
	}
}

// constLen recognises the slice of a varargs array.
func constLen(v ssa.Value) int {
	if s, ok := v.(*ssa.Slice); ok && s.Low == nil && s.High == nil {
		if a, ok := s.X.(*ssa.Alloc); ok {
			if at, ok := under(ptrElem(a.Type())).(*types.Array); ok {
				return int(at.Len())
			}
		}
	}
	return -1
}

// boolGhosts lists the boolean ghosts the function under verification uses.
func (x *Exec) boolGhosts() []*ghostDecl {
	if x.ghostUse == nil {
		x.ghostUse = map[string]bool{}
		seen := map[string]bool{}
		var walk func(e ast.Expr)
		walk = func(e ast.Expr) {
			ids := map[string]bool{}
			exprIdents(e, ids)
			for n := range ids {
				if x.S.ghosts[n] != nil {
					x.ghostUse[n] = true
				}
				if m := x.S.macros[n]; m != nil && !seen[n] {
					seen[n] = true
					walk(m.body)
				}
			}
		}
		cts := []*Contract{x.ct}
		if x.ct.apply != nil {
			cts = append(cts, x.ct.apply)
		}
		for _, c := range cts {
			for _, l := range [][]Clause{c.requires, c.ensures, c.invs, c.mods} {
				for _, cl := range l {
					walk(cl.e)
				}
			}
			for n := range c.allocs {
				x.ghostUse[n] = true
			}
			for _, g := range c.gsets {
				x.ghostUse[g.name] = true
			}
		}
	}
	var r []*ghostDecl
	for _, n := range sortedKeys(x.ghostUse) {
		if g := x.S.ghosts[n]; g.val == "bool" {
			r = append(r, g)
		}
	}
	return r
}

func (x *Exec) noGhost(h, lo, hi string) string {
	return fmt.Sprintf("(forall ((r Int)) (! (=> (and (< %s r) (<= r %s)) (not (select %s r))) :pattern ((select %s r))))", lo, hi, h, h)
}

// noNewGhosts: objects a callee made have no ghost set unless it says so.
func (x *Exec) noNewGhosts(ns *State, preA string, ct *Contract) {
	for n := range ct.allocs {
		x.madeGhost[n] = true
	}
	for _, g := range x.boolGhosts() {
		if ct.allocs[g.name] {
			continue
		}
		h := x.heap(ns, x.metaG(g))
		ns.assumeKeyed(x.noGhost(h, preA, ns.A), h)
	}
}

// noNewObjects: a callee made no object of a tracked type it cannot make.
func (x *Exec) noNewObjects(ns *State, preA string, ct *Contract) {
	if len(x.t.rt) == 0 || (ct.modAll && ct.trusted()) {
		return
	}
	mk := map[string]bool{}
	for _, m := range ct.makes {
		mk[m] = true
	}
	if ct.kind == "func" {
		mk = x.S.makesOf(x.P, x.P.funcs[ct.name])
	}
	if mk["*"] {
		return
	}
	for _, t := range sortedKeys(x.t.rt) {
		if !mk[t] {
			ns.assume(x.noObject(t, preA, ns.A))
		}
	}
}

func (x *Exec) noObject(t, lo, hi string) string {
	return fmt.Sprintf("(forall ((r Int)) (! (=> (and (< %s r) (<= r %s)) (not (= (rtype r) %s))) :pattern ((rtype r))))", lo, hi, x.t.tag(types.NewPointer(x.P.resolveType(t))))
}

// makesOf finds the struct types a function may allocate.
func (S *Specs) makesOf(P *Program, fn *ssa.Function) map[string]bool {
	P.mu.Lock()
	defer P.mu.Unlock()
	if fn == nil {
		return map[string]bool{"*": true}
	}
	if r := P.made[fn]; r != nil {
		return r
	}
	out := map[string]bool{}
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function)
	contract := func(ct *Contract) {
		if ct == nil || (ct.modAll && ct.trusted()) {
			out["*"] = true
			return
		}
		for _, m := range ct.makes {
			out[m] = true
		}
	}
	walk = func(f *ssa.Function) {
		if seen[f] {
			return
		}
		seen[f] = true
		if f.Blocks == nil {
			if ct := S.contracts[funcName(f)]; ct != nil {
				contract(ct)
			}
			return
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				switch i := ins.(type) {
				case *ssa.Alloc:
					out[typeKey(ptrElem(i.Type()))] = true
				case *ssa.MakeClosure:
					walk(i.Fn.(*ssa.Function))
				case ssa.CallInstruction:
					c := i.Common()
					if c.IsInvoke() {
						contract(S.contracts[ifaceMethodKey(c.Method)])
						continue
					}
					if _, ok := c.Value.(*ssa.Builtin); ok {
						continue
					}
					if g := c.StaticCallee(); g != nil {
						walk(g)
						continue
					}
					ct := S.contracts[typeKey(c.Value.Type())]
					if ct == nil {
						if s, ok := under(c.Value.Type()).(*types.Signature); ok {
							ct = S.contracts[sigKey(s)]
						}
					}
					contract(ct)
				}
			}
		}
	}
	walk(fn)
	P.made[fn] = out
	return out
}

// trackedUse finds the tracked types the contract quantifies over.
func (x *Exec) trackedUse() map[string]bool {
	r := map[string]bool{}
	seen := map[string]bool{}
	var walk func(e ast.Expr)
	walk = func(e ast.Expr) {
		ast.Inspect(e, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.BasicLit:
				for _, t := range x.S.track {
					if strings.Contains(n.Value, ":*"+t) {
						r[t] = true
					}
				}
			case *ast.Ident:
				if m := x.S.macros[n.Name]; m != nil && !seen[n.Name] {
					seen[n.Name] = true
					walk(m.body)
				}
			}
			return true
		})
	}
	cts := []*Contract{x.ct}
	if x.ct.apply != nil {
		cts = append(cts, x.ct.apply)
	}
	for _, c := range cts {
		for _, l := range [][]Clause{c.requires, c.ensures, c.invs} {
			for _, cl := range l {
				walk(cl.e)
			}
		}
	}
	return r
}

// contract is the contract of a callee as the function being verified sees it.
func (x *Exec) contract(name string) *Contract {
	if x.ct.view != "" {
		if ct := x.S.contracts[name+"@"+x.ct.view]; ct != nil {
			return ct
		}
	}
	return x.S.contracts[name]
}
