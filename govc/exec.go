package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const maxPaths = 6000

type frame struct {
	fn    *ssa.Function
	env   map[ssa.Value]Val
	path  string
	depth int
	loops map[*ssa.BasicBlock]*loopCtx
	ret   func(*State, []Val)
}

func (f *frame) clone() *frame {
	n := *f
	n.env = make(map[ssa.Value]Val, len(f.env))
	for k, v := range f.env {
		n.env[k] = v
	}
	n.loops = make(map[*ssa.BasicBlock]*loopCtx, len(f.loops))
	for k, v := range f.loops {
		n.loops[k] = v
	}
	return &n
}

type loopCtx struct {
	key          string
	iter         string
	head         *State // state at loop entry
	cands        []*cand
	vhead        []string
	vars         []*cand
	assumedHeaps map[string]string
	touched      map[string]bool
	all          bool
}

// run executes from instruction i of block b.
func (x *Exec) run(fr *frame, st *State, b *ssa.BasicBlock, i int) {
	for ; i < len(b.Instrs); i++ {
		in := b.Instrs[i]
		switch in := in.(type) {
		case *ssa.DebugRef:
		case *ssa.If:
			c := x.val(fr, st, in.Cond).s
			neg := "(not " + c + ")"
			if strings.HasPrefix(c, "(not ") {
				neg = c[5 : len(c)-1]
			}
			t := c != "false" && !st.lits[neg]
			f := c != "true" && !st.lits[c]
			if t && f {
				fr2, st2 := fr.clone(), st.fork()
				st.assume(c)
				x.jump(fr, st, b, b.Succs[0])
				st2.assume(neg)
				x.jump(fr2, st2, b, b.Succs[1])
			} else if t {
				x.jump(fr, st, b, b.Succs[0])
			} else {
				x.jump(fr, st, b, b.Succs[1])
			}
			return
		case *ssa.Jump:
			x.jump(fr, st, b, b.Succs[0])
			return
		case *ssa.Return:
			var vs []Val
			for _, r := range in.Results {
				vs = append(vs, x.val(fr, st, r))
			}
			fr.ret(st, vs)
			return
		case *ssa.Panic:
			x.oblige(st, "nopanic", "explicit panic", "false", in.Pos())
			return
		case *ssa.Call:
			done := false
			next := i + 1
			x.call(fr, st, in, func(st2 *State, v Val) {
				f2 := fr
				if done {
					unsupported("internal: continuation reuse")
				}
				f2 = fr.clone()
				f2.env[in] = v
				x.run(f2, st2, b, next)
			})
			return
		default:
			if x.step(fr, st, in, b, i) {
				return
			}
		}
	}
}

func (x *Exec) jump(fr *frame, st *State, from, to *ssa.BasicBlock) {
	li := x.P.loops[fr.fn]
	if l := li.loop(to); l != nil {
		if ctx := fr.loops[to]; ctx != nil && l.body[from] {
			x.closeLoop(fr, st, l, ctx, from)
			return
		}
		x.enterLoop(fr, st, l, from)
		return
	}
	x.enterBlock(fr, st, from, to)
}

func predIdx(from, to *ssa.BasicBlock) int {
	for k, p := range to.Preds {
		if p == from {
			return k
		}
	}
	panic("no pred")
}

func phis(b *ssa.BasicBlock) []*ssa.Phi {
	var r []*ssa.Phi
	for _, in := range b.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			r = append(r, p)
		} else {
			break
		}
	}
	return r
}

func (x *Exec) enterBlock(fr *frame, st *State, from, to *ssa.BasicBlock) {
	ps := phis(to)
	if len(ps) > 0 {
		k := predIdx(from, to)
		vals := make([]Val, len(ps))
		for i, p := range ps {
			vals[i] = x.val(fr, st, p.Edges[k])
			vals[i].typ = p.Type()
		}
		for i, p := range ps {
			fr.env[p] = vals[i]
		}
	}
	x.run(fr, st, to, len(ps))
}

func (x *Exec) fnID(fn *ssa.Function) string {
	n := q("fn:" + funcName(fn))
	h := 0
	for _, c := range funcName(fn) {
		h = (h*131 + int(c)) % 1000000007
	}
	x.t.d.add(n, fmt.Sprintf("(define-fun %s () Int (- %d))", n, 1000+h))
	return n
}

func (x *Exec) val(fr *frame, st *State, v ssa.Value) Val {
	switch v := v.(type) {
	case *ssa.Const:
		return x.constant(v)
	case *ssa.Global:
		et := v.Type().(*types.Pointer).Elem()
		return Val{typ: v.Type(), lv: &LV{kind: 'g', name: v.Pkg.Pkg.Name() + "." + v.Name(), typ: et}}
	case *ssa.Function:
		return Val{s: x.fnID(v), typ: v.Type(), fn: &closure{fn: v}}
	}
	r, ok := fr.env[v]
	if !ok {
		unsupported("value %s = %s not evaluated in %s", v.Name(), v, fr.fn)
	}
	return r
}

func smtInt(n string) string {
	if strings.HasPrefix(n, "-") {
		return "(- " + n[1:] + ")"
	}
	return n
}

func (x *Exec) constant(c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		return Val{s: x.t.zero(t), typ: t}
	}
	switch c.Value.Kind() {
	case constant.Bool:
		if constant.BoolVal(c.Value) {
			return Val{s: "true", typ: t}
		}
		return Val{s: "false", typ: t}
	case constant.Int:
		return Val{s: smtInt(c.Value.ExactString()), typ: t}
	case constant.String:
		return Val{s: x.t.lit(constant.StringVal(c.Value)), typ: t}
	}
	unsupported("constant %s", c)
	return Val{}
}

func ptrElem(t types.Type) types.Type { return under(t).(*types.Pointer).Elem() }

// step executes one simple instruction; true means the path ended.
func (x *Exec) step(fr *frame, st *State, in ssa.Instruction, b *ssa.BasicBlock, i int) bool {
	set := func(v ssa.Value, s string) {
		s = x.name(st, s, x.t.sort(v.Type()), v.Name())
		fr.env[v] = Val{s: s, typ: v.Type()}
	}
	switch in := in.(type) {
	case *ssa.Alloc:
		et := ptrElem(in.Type())
		if constCell(in) {
			fr.env[in] = Val{typ: in.Type(), lv: &LV{kind: 'c', typ: et}}
			break
		}
		r := x.alloc(st, in.Type())
		switch u := under(et).(type) {
		case *types.Struct:
			for _, l := range leaves(et) {
				m := x.metaF(et, l)
				x.setHeap(st, m, fmt.Sprintf("(store %s %s %s)", x.heap(st, m), r, x.t.zero(l.typ)))
			}
			fr.env[in] = Val{s: r, typ: in.Type()}
			for _, g := range x.boolGhosts() {
				if g.key == typeKey(in.Type()) {
					x.madeGhost[g.name] = true
					st.assume("(not (select " + x.heap(st, x.metaG(g)) + " " + r + "))")
				}
			}
			for _, bc := range x.ct.born {
				if strings.HasPrefix(bc.label, "[]") {
					continue
				}
				if typeKey(x.P.resolveType("*"+bc.label)) == typeKey(in.Type()) {
					e := &SEnv{x: x, st: st, old: x.entry, vars: map[string]SVal{"obj": {s: r, typ: in.Type()}}}
					st.assume(e.boolean(bc.e))
				}
			}
		case *types.Array:
			m := x.metaE(u.Elem())
			x.setHeap(st, m, fmt.Sprintf("(store %s %s ((as const (Array Int %s)) %s))", x.heap(st, m), r, x.t.sort(u.Elem()), x.t.zero(u.Elem())))
			x.bornArray(st, u.Elem(), r)
			fr.env[in] = Val{typ: in.Type(), lv: &LV{kind: 'a', ref: r, typ: et}}
		default:
			m := x.metaC(et)
			x.setHeap(st, m, fmt.Sprintf("(store %s %s %s)", x.heap(st, m), r, x.t.zero(et)))
			fr.env[in] = Val{s: r, typ: in.Type()}
		}
	case *ssa.BinOp:
		set(in, x.binop(st, in.Op, x.val(fr, st, in.X), x.val(fr, st, in.Y), in.X.Type(), in.Pos()))
	case *ssa.UnOp:
		switch in.Op {
		case token.MUL:
			p := x.val(fr, st, in.X)
			if p.lv != nil && p.lv.kind == 'c' {
				v := *p.lv.box
				v.typ = in.Type()
				fr.env[in] = v
				break
			}
			s := x.load(st, p, in.Type())
			set(in, s)
			if w := x.t.wf(in.Type(), fr.env[in].s, st.A); w != "" && !st.lits[w] {
				st.assume(w)
			}
		case token.NOT:
			s := x.val(fr, st, in.X).s
			switch {
			case s == "true":
				s = "false"
			case s == "false":
				s = "true"
			case strings.HasPrefix(s, "(not "):
				s = s[5 : len(s)-1]
			default:
				s = "(not " + s + ")"
			}
			set(in, s)
		case token.SUB:
			set(in, "(- "+x.val(fr, st, in.X).s+")")
		default:
			unsupported("unary %s", in.Op)
		}
	case *ssa.Store:
		if a, ok := in.Addr.(*ssa.Alloc); ok && constCell(a) {
			v := x.val(fr, st, in.Val)
			fr.env[a] = Val{typ: a.Type(), lv: &LV{kind: 'c', typ: ptrElem(a.Type()), box: &v}}
			break
		}
		x.store(st, x.val(fr, st, in.Addr), ptrElem(in.Addr.Type()), x.val(fr, st, in.Val).s)
	case *ssa.FieldAddr:
		p := x.val(fr, st, in.X)
		if p.lv != nil {
			lv := *p.lv
			if lv.kind == 'g' {
				unsupported("field of global")
			}
			lv.path = append(append([]int{}, lv.path...), in.Field)
			fr.env[in] = Val{typ: in.Type(), lv: &lv}
		} else {
			x.nilCheck(st, p, in.Pos())
			fr.env[in] = Val{typ: in.Type(), lv: &LV{kind: 'o', ref: p.s, typ: ptrElem(in.X.Type()), path: []int{in.Field}}}
		}
	case *ssa.Field:
		v := x.val(fr, st, in.X)
		x.t.sort(in.X.Type())
		set(in, "("+x.t.acc(in.X.Type(), in.Field)+" "+v.s+")")
	case *ssa.IndexAddr:
		v := x.val(fr, st, in.X)
		idx := x.val(fr, st, in.Index).s
		if v.lv != nil && v.lv.kind == 'a' {
			fr.env[in] = Val{typ: in.Type(), lv: &LV{kind: 'e', ref: v.lv.ref, idx: idx, typ: under(v.lv.typ).(*types.Array).Elem()}}
			break
		}
		x.oblige(st, "nopanic", "index in range", fmt.Sprintf("(and (<= 0 %s) (< %s (slen %s)))", idx, idx, v.s), in.Pos())
		fr.env[in] = Val{typ: in.Type(), lv: &LV{kind: 'e', ref: "(sarr " + v.s + ")", idx: add("(soff "+v.s+")", idx), typ: under(in.X.Type()).(*types.Slice).Elem()}}
	case *ssa.Index:
		v := x.val(fr, st, in.X)
		idx := x.val(fr, st, in.Index).s
		if x.t.sort(in.X.Type()) == "Str" {
			x.oblige(st, "nopanic", "index in range", fmt.Sprintf("(and (<= 0 %s) (< %s (strlen %s)))", idx, idx, v.s), in.Pos())
			set(in, "(sbyte "+v.s+" "+idx+")")
			break
		}
		unsupported("index of array value")
	case *ssa.Lookup:
		v := x.val(fr, st, in.X)
		k := x.val(fr, st, in.Index).s
		if x.t.sort(in.X.Type()) == "Str" {
			x.oblige(st, "nopanic", "index in range", fmt.Sprintf("(and (<= 0 %s) (< %s (strlen %s)))", k, k, v.s), in.Pos())
			set(in, "(sbyte "+v.s+" "+k+")")
			break
		}
		d, m := x.metaM(in.X.Type())
		mt := under(in.X.Type()).(*types.Map)
		k = x.name(st, k, x.t.sort(mt.Key()), "key")
		dom := fmt.Sprintf("(select (select %s %s) %s)", x.heap(st, d), v.s, k)
		raw := fmt.Sprintf("(select (select %s %s) %s)", x.heap(st, m), v.s, k)
		z := x.t.zero(mt.Elem())
		s := x.fresh("look", x.t.sort(mt.Elem()))
		st.assumeKeyed(fmt.Sprintf("(= %s (ite %s %s %s))", s, dom, raw, z), s)
		if in.CommaOk {
			okv := x.fresh("ok", "Bool")
			st.assumeKeyed("(= "+okv+" "+dom+")", okv)
			fr.env[in] = Val{typ: in.Type(), tup: []Val{{s: s, typ: mt.Elem()}, {s: okv, typ: types.Typ[types.Bool]}}}
		} else {
			fr.env[in] = Val{s: s, typ: in.Type()}
		}
	case *ssa.MapUpdate:
		v := x.val(fr, st, in.Map)
		x.oblige(st, "nopanic", "assignment to nil map", "(not (= "+v.s+" 0))", in.Pos())
		k := x.val(fr, st, in.Key).s
		e := x.val(fr, st, in.Value).s
		d, m := x.metaM(in.Map.Type())
		hd, hm := x.heap(st, d), x.heap(st, m)
		x.setHeap(st, d, fmt.Sprintf("(store %s %s (store (select %s %s) %s true))", hd, v.s, hd, v.s, k))
		x.setHeap(st, m, fmt.Sprintf("(store %s %s (store (select %s %s) %s %s))", hm, v.s, hm, v.s, k, e))
	case *ssa.MakeMap:
		r := x.alloc(st, nil)
		d, m := x.metaM(in.Type())
		mt := under(in.Type()).(*types.Map)
		ks := x.t.sort(mt.Key())
		x.setHeap(st, d, fmt.Sprintf("(store %s %s ((as const (Array %s Bool)) false))", x.heap(st, d), r, ks))
		x.setHeap(st, m, fmt.Sprintf("(store %s %s ((as const (Array %s %s)) %s))", x.heap(st, m), r, ks, x.t.sort(mt.Elem()), x.t.zero(mt.Elem())))
		fr.env[in] = Val{s: r, typ: in.Type()}
	case *ssa.MakeSlice:
		et := under(in.Type()).(*types.Slice).Elem()
		ln := x.val(fr, st, in.Len).s
		cp := x.val(fr, st, in.Cap).s
		x.oblige(st, "nopanic", "makeslice length", fmt.Sprintf("(and (<= 0 %s) (<= %s %s))", ln, ln, cp), in.Pos())
		r := x.alloc(st, nil)
		m := x.metaE(et)
		x.setHeap(st, m, fmt.Sprintf("(store %s %s ((as const (Array Int %s)) %s))", x.heap(st, m), r, x.t.sort(et), x.t.zero(et)))
		x.bornArray(st, et, r)
		set(in, fmt.Sprintf("(mk-slice %s 0 %s %s)", r, ln, cp))
	case *ssa.Slice:
		x.slice(fr, st, in, set)
	case *ssa.ChangeType:
		v := x.val(fr, st, in.X)
		v.typ = in.Type()
		if x.t.sort(in.X.Type()) != x.t.sort(in.Type()) {
			unsupported("changetype %s to %s", in.X.Type(), in.Type())
		}
		fr.env[in] = v
	case *ssa.Convert:
		x.convert(fr, st, in, set)
	case *ssa.ChangeInterface:
		v := x.val(fr, st, in.X)
		v.typ = in.Type()
		fr.env[in] = v
	case *ssa.MakeInterface:
		v := x.val(fr, st, in.X)
		if v.lv != nil {
			unsupported("interior pointer in interface")
		}
		s := x.t.mkIface(in.X.Type(), v.s)
		fr.env[in] = Val{s: s, typ: in.Type(), dyn: in.X.Type(), raw: v.s}
	case *ssa.MakeClosure:
		c := &closure{fn: in.Fn.(*ssa.Function)}
		for _, bd := range in.Bindings {
			c.binds = append(c.binds, x.val(fr, st, bd))
		}
		id := x.alloc(st, nil)
		fr.env[in] = Val{s: id, typ: in.Type(), fn: c}
	case *ssa.TypeAssert:
		x.typeAssert(fr, st, in)
	case *ssa.Extract:
		t := x.val(fr, st, in.Tuple)
		v := t.tup[in.Index]
		v.typ = in.Type()
		fr.env[in] = v
	case *ssa.Range:
		v := x.val(fr, st, in.X)
		x.n++
		it := &mapIter{m: v.s, typ: in.X.Type(), id: fmt.Sprintf("it%d", x.n)}
		if x.t.sort(in.X.Type()) == "Str" {
			it.strs = true
			st.ghost[it.id] = "(- 1)"
		} else {
			ks := x.t.sort(under(in.X.Type()).(*types.Map).Key())
			st.ghost[it.id] = "((as const (Array " + ks + " Bool)) false)"
		}
		fr.env[in] = Val{typ: in.Type(), it: it}
	case *ssa.Next:
		x.next(fr, st, in)
	default:
		unsupported("instruction %T", in)
	}
	return false
}

func add(a, b string) string {
	if a == "0" {
		return b
	}
	if b == "0" {
		return a
	}
	return "(+ " + a + " " + b + ")"
}

func (x *Exec) next(fr *frame, st *State, in *ssa.Next) {
	it := x.val(fr, st, in.Iter).it
	ok := x.fresh("more", "Bool")
	vis := st.ghost[it.id]
	if it.strs {
		k := x.fresh("k", "Int")
		r := x.fresh("rune", "Int")
		st.assume(fmt.Sprintf("(=> %s (and (< %s %s) (< %s (strlen %s)) (<= 0 %s)))", ok, vis, k, k, it.m, r))
		st.assume(fmt.Sprintf("(=> (not %s) (>= (+ %s 4) (- (strlen %s) 1)))", ok, vis, it.m))
		st.ghost[it.id] = k
		fr.env[in] = Val{typ: in.Type(), tup: []Val{{s: ok}, {s: k}, {s: r}}}
		return
	}
	mt := under(it.typ).(*types.Map)
	d, m := x.metaM(it.typ)
	ks := x.t.sort(mt.Key())
	k := x.freshVal(st, "k", mt.Key()).s
	hd, hm := x.heap(st, d), x.heap(st, m)
	st.assume(fmt.Sprintf("(=> %s (and (select (select %s %s) %s) (not (select %s %s))))", ok, hd, it.m, k, vis, k))
	st.assume(fmt.Sprintf("(=> (not %s) (forall ((k %s)) (! (=> (select (select %s %s) k) (select %s k)) :pattern ((select (select %s %s) k)) :pattern ((select %s k)))))", ok, ks, hd, it.m, vis, hd, it.m, vis))
	nv := x.fresh("visited", "(Array "+ks+" Bool)")
	st.assumeKeyed(fmt.Sprintf("(= %s (ite %s (store %s %s true) %s))", nv, ok, vis, k, vis), nv)
	st.ghost[it.id] = nv
	fr.env[in] = Val{typ: in.Type(), tup: []Val{{s: ok, typ: types.Typ[types.Bool]}, {s: k, typ: mt.Key()}, {s: x.name(st, fmt.Sprintf("(select (select %s %s) %s)", hm, it.m, k), x.t.sort(mt.Elem()), "mv"), typ: mt.Elem()}}}
}

func (x *Exec) slice(fr *frame, st *State, in *ssa.Slice, set func(ssa.Value, string)) {
	v := x.val(fr, st, in.X)
	get := func(o ssa.Value, d string) string {
		if o == nil {
			return d
		}
		return x.val(fr, st, o).s
	}
	if v.lv != nil && v.lv.kind == 'a' {
		n := fmt.Sprint(under(v.lv.typ).(*types.Array).Len())
		lo, hi, mx := get(in.Low, "0"), get(in.High, n), get(in.Max, n)
		if lo != "0" || hi != n || mx != n {
			unsupported("slice of array with bounds")
		}
		set(in, fmt.Sprintf("(mk-slice %s 0 %s %s)", v.lv.ref, n, n))
		return
	}
	if x.t.sort(in.X.Type()) == "Str" {
		lo, hi := get(in.Low, "0"), get(in.High, "(strlen "+v.s+")")
		x.oblige(st, "nopanic", "slice bounds", fmt.Sprintf("(and (<= 0 %s) (<= %s %s) (<= %s (strlen %s)))", lo, lo, hi, hi, v.s), in.Pos())
		set(in, fmt.Sprintf("(substr %s %s %s)", v.s, lo, hi))
		return
	}
	lo, hi, mx := get(in.Low, "0"), get(in.High, "(slen "+v.s+")"), get(in.Max, "(scap "+v.s+")")
	x.oblige(st, "nopanic", "slice bounds", fmt.Sprintf("(and (<= 0 %s) (<= %s %s) (<= %s %s) (<= %s (scap %s)))", lo, lo, hi, hi, mx, mx, v.s), in.Pos())
	s := fmt.Sprintf("(mk-slice (sarr %s) %s %s %s)", v.s, add("(soff "+v.s+")", lo), sub(hi, lo), sub(mx, lo))
	if in.Low != nil {
		s = fmt.Sprintf("(ite (= (sarr %s) 0) %s %s)", v.s, "(mk-slice 0 0 0 0)", s)
	}
	set(in, s)
}

func sub(a, b string) string {
	if b == "0" {
		return a
	}
	return "(- " + a + " " + b + ")"
}

func (x *Exec) convert(fr *frame, st *State, in *ssa.Convert, set func(ssa.Value, string)) {
	v := x.val(fr, st, in.X)
	from, to := x.t.sort(in.X.Type()), x.t.sort(in.Type())
	switch {
	case from == "Int" && to == "Int":
		fr.env[in] = Val{s: v.s, typ: in.Type()}
	case from == to:
		fr.env[in] = Val{s: v.s, typ: in.Type()}
	case from == "Str" && to == "Slice":
		et := under(in.Type()).(*types.Slice).Elem()
		r := x.alloc(st, nil)
		m := x.metaE(et)
		if typeKey(et) == "byte" || typeKey(et) == "uint8" {
			x.setHeap(st, m, fmt.Sprintf("(store %s %s (bytesOf %s))", x.heap(st, m), r, v.s))
			set(in, fmt.Sprintf("(mk-slice %s 0 (strlen %s) (strlen %s))", r, v.s, v.s))
		} else {
			x.havocHeapAt(st, m, r)
			st.assume("(<= 0 (runesOf " + v.s + "))")
			set(in, fmt.Sprintf("(mk-slice %s 0 (runesOf %s) (runesOf %s))", r, v.s, v.s))
		}
	case from == "Slice" && to == "Str":
		et := under(in.X.Type()).(*types.Slice).Elem()
		h := x.heap(st, x.metaE(et))
		set(in, fmt.Sprintf("(bstr (select %s (sarr %s)) (soff %s) (slen %s))", h, v.s, v.s, v.s))
	case from == "Int" && to == "Str":
		x.t.d.add("runestr", "(declare-fun runestr (Int) Str)")
		set(in, "(runestr "+v.s+")")
	default:
		unsupported("conversion %s to %s", in.X.Type(), in.Type())
	}
}

// havocHeapAt makes the contents at one reference unknown.
func (x *Exec) havocHeapAt(st *State, m *heapMeta, ref string) {
	inner := strings.TrimSuffix(strings.TrimPrefix(m.sort, "(Array Int "), ")")
	c := x.fresh("any", inner)
	x.setHeap(st, m, fmt.Sprintf("(store %s %s %s)", x.heap(st, m), ref, c))
	switch m.kind {
	case 'F', 'C':
		st.assume(x.t.wf(m.typ, c, st.A))
	case 'E':
		if w := x.t.wf(m.typ, "(select "+c+" k)", st.A); w != "" {
			st.assumeKeyed(fmt.Sprintf("(forall ((k Int)) (! %s :pattern ((select %s k))))", w, c), c)
		}
	case 'V':
		if w := x.t.wf(m.typ, "(select "+c+" k)", st.A); w != "" {
			st.assumeKeyed(fmt.Sprintf("(forall ((k %s)) (! %s :pattern ((select %s k))))", x.t.sort(m.key), w, c), c)
		}
	}
}

func (x *Exec) binop(st *State, op token.Token, a, b Val, t types.Type, pos token.Pos) string {
	s := x.t.sort(t)
	switch op {
	case token.EQL, token.NEQ:
		var e string
		isNil := func(v Val) bool { return v.s == x.t.zero(t) }
		switch {
		case a.lv != nil || b.lv != nil:
			// an interior address is never nil and never a whole object
			e = "false"
			if a.lv != nil && b.lv != nil {
				unsupported("comparison of interior pointers")
			}
		case s == "Slice":
			if isNil(b) {
				e = "(= (sarr " + a.s + ") 0)"
			} else {
				e = "(= (sarr " + b.s + ") 0)"
			}
		case s == "Iface" && isNil(b):
			e = "(= (itag " + a.s + ") 0)"
			if a.dyn != nil {
				e = "false"
			}
		case s == "Iface" && isNil(a):
			e = "(= (itag " + b.s + ") 0)"
		case a.s == b.s:
			e = "true"
		default:
			e = "(= " + a.s + " " + b.s + ")"
		}
		if op == token.NEQ {
			if e == "true" {
				return "false"
			}
			if e == "false" {
				return "true"
			}
			return "(not " + e + ")"
		}
		return e
	}
	if s == "Str" {
		if op == token.ADD {
			return "(cat " + a.s + " " + b.s + ")"
		}
		x.t.d.add("strlt", "(declare-fun strlt (Str Str) Bool)")
		switch op {
		case token.LSS:
			return "(strlt " + a.s + " " + b.s + ")"
		case token.GTR:
			return "(strlt " + b.s + " " + a.s + ")"
		}
		unsupported("string operator %s", op)
	}
	if s != "Int" {
		unsupported("operator %s on %s", op, t)
	}
	switch op {
	case token.ADD:
		return add(a.s, b.s)
	case token.SUB:
		return sub(a.s, b.s)
	case token.MUL:
		return "(* " + a.s + " " + b.s + ")"
	case token.QUO, token.REM:
		x.oblige(st, "nopanic", "division by zero", "(not (= "+b.s+" 0))", pos)
		f := "godiv"
		if op == token.REM {
			f = "gorem"
		}
		x.t.d.add("godiv", "(define-fun godiv ((a Int) (b Int)) Int (ite (>= a 0) (div a b) (- (div (- a) b))))")
		x.t.d.add("gorem", "(define-fun gorem ((a Int) (b Int)) Int (- a (* b (godiv a b))))")
		return "(" + f + " " + a.s + " " + b.s + ")"
	case token.LSS:
		return "(< " + a.s + " " + b.s + ")"
	case token.LEQ:
		return "(<= " + a.s + " " + b.s + ")"
	case token.GTR:
		return "(> " + a.s + " " + b.s + ")"
	case token.GEQ:
		return "(>= " + a.s + " " + b.s + ")"
	}
	unsupported("operator %s", op)
	return ""
}

func (x *Exec) implPred(t types.Type) string {
	n := q("impl:" + typeKey(t))
	x.t.d.add(n, "(declare-fun "+n+" (Int) Bool)")
	it := under(t).(*types.Interface)
	for _, c := range x.P.conc {
		tg := x.t.tag(c)
		if types.Implements(c, it) {
			x.t.axiom(n+tg, "("+n+" "+tg+")", n)
		} else {
			x.t.axiom(n+tg, "(not ("+n+" "+tg+"))", n)
		}
	}
	x.t.axiom(n+"0", "(not ("+n+" 0))", n)
	return n
}

func (x *Exec) typeAssert(fr *frame, st *State, in *ssa.TypeAssert) {
	v := x.val(fr, st, in.X)
	var cond, res string
	if types.IsInterface(in.AssertedType) {
		cond = "(" + x.implPred(in.AssertedType) + " (itag " + v.s + "))"
		res = v.s
	} else {
		cond = "(= (itag " + v.s + ") " + x.t.tag(in.AssertedType) + ")"
		res = x.t.unbox(in.AssertedType, "(ipay "+v.s+")")
		if v.dyn != nil && types.Identical(v.dyn, in.AssertedType) {
			cond, res = "true", v.raw
		}
	}
	if !in.CommaOk {
		x.oblige(st, "nopanic", "type assertion", cond, in.Pos())
		fr.env[in] = Val{s: x.name(st, res, x.t.sort(in.AssertedType), "as"), typ: in.Type()}
		st.assume(x.t.wf(in.AssertedType, fr.env[in].s, st.A))
		return
	}
	ok := cond
	if len(cond) > 6 {
		ok = x.fresh("isT", "Bool")
		st.assume("(= " + ok + " " + cond + ")")
	}
	r := x.fresh("as", x.t.sort(in.AssertedType))
	st.assumeKeyed(fmt.Sprintf("(= %s (ite %s %s %s))", r, ok, res, x.t.zero(in.AssertedType)), r)
	if w := x.t.wf(in.AssertedType, r, st.A); w != "" {
		st.assumeKeyed(w, r)
	}
	fr.env[in] = Val{typ: in.Type(), tup: []Val{{s: r, typ: in.AssertedType}, {s: ok, typ: types.Typ[types.Bool]}}}
}

// constCell reports whether a variable is assigned exactly once, right where
// it is declared, and only read afterwards, here and in every closure that
// captures it. Such a variable is a value and not a memory cell.
func constCell(a *ssa.Alloc) bool {
	switch under(ptrElem(a.Type())).(type) {
	case *types.Struct, *types.Array:
		return false
	}
	var st *ssa.Store
	for _, r := range *a.Referrers() {
		switch r := r.(type) {
		case *ssa.Store:
			if st != nil || r.Addr != a || r.Val == a || r.Block() != a.Block() {
				return false
			}
			st = r
		case *ssa.UnOp:
			if r.Op != token.MUL {
				return false
			}
		case *ssa.MakeClosure:
			for i, b := range r.Bindings {
				if b == a && !readOnly(r.Fn.(*ssa.Function).FreeVars[i]) {
					return false
				}
			}
		case *ssa.DebugRef:
		default:
			return false
		}
	}
	if st == nil {
		return false
	}
	// nothing reads it before the store
	for _, in := range a.Block().Instrs {
		if in == ssa.Instruction(st) {
			break
		}
		for _, o := range in.Operands(nil) {
			if *o == ssa.Value(a) {
				return false
			}
		}
	}
	return true
}

func readOnly(f *ssa.FreeVar) bool {
	for _, r := range *f.Referrers() {
		switch r := r.(type) {
		case *ssa.UnOp:
			if r.Op != token.MUL {
				return false
			}
		case *ssa.MakeClosure:
			for i, b := range r.Bindings {
				if b == ssa.Value(f) && !readOnly(r.Fn.(*ssa.Function).FreeVars[i]) {
					return false
				}
			}
		case *ssa.DebugRef:
		default:
			return false
		}
	}
	return true
}
