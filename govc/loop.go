package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// cand is a candidate loop invariant (or variant).
type cand struct {
	key  string
	eval func(st *State, get func(ssa.Value) Val, iter string, vis *visInfo) string
	user bool
	src  string
}

// touched collects the heaps that executing the blocks may change at locations
// that existed before; nil map means "everything".
func (x *Exec) touchedBlocks(fn *ssa.Function, in func(*ssa.BasicBlock) bool, seen map[*ssa.Function]bool, out map[string]bool) {
	addM := func(ms ...*heapMeta) {
		for _, m := range ms {
			out[m.name] = true
		}
	}
	for _, b := range fn.Blocks {
		if !in(b) {
			continue
		}
		for _, ins := range b.Instrs {
			switch i := ins.(type) {
			case *ssa.Store:
				if a, ok := i.Addr.(*ssa.Alloc); ok && constCell(a) {
					break
				}
				x.touchedAddr(i.Addr, out)
			case *ssa.MapUpdate:
				d, v := x.metaM(i.Map.Type())
				addM(d, v)
			case *ssa.MakeMap:
				d, v := x.metaM(i.Type())
				addM(d, v)
			case *ssa.MakeSlice:
				addM(x.metaE(under(i.Type()).(*types.Slice).Elem()))
			case *ssa.Convert:
				if x.t.sort(i.X.Type()) == "Str" && x.t.sort(i.Type()) == "Slice" {
					addM(x.metaE(under(i.Type()).(*types.Slice).Elem()))
				}
			case *ssa.Alloc:
				if constCell(i) {
					break
				}
				et := ptrElem(i.Type())
				switch u := under(et).(type) {
				case *types.Struct:
					for _, l := range leaves(et) {
						addM(x.metaF(et, l))
					}
				case *types.Array:
					addM(x.metaE(u.Elem()))
				default:
					addM(x.metaC(et))
				}
			case *ssa.Call:
				x.touchedCall(i, seen, out)
			case *ssa.Go, *ssa.Defer:
				unsupported("go/defer")
			}
		}
	}
}

func (x *Exec) touchedAddr(a ssa.Value, out map[string]bool) {
	var path []int
	for {
		switch v := a.(type) {
		case *ssa.FieldAddr:
			path = append([]int{v.Field}, path...)
			a = v.X
			continue
		case *ssa.IndexAddr:
			switch u := under(v.X.Type()).(type) {
			case *types.Slice:
				out[x.metaE(u.Elem()).name] = true
			case *types.Pointer:
				out[x.metaE(under(u.Elem()).(*types.Array).Elem()).name] = true
			}
			return
		}
		break
	}
	root := ptrElem(a.Type())
	if _, ok := under(root).(*types.Struct); ok {
		t := typeAt(root, path)
		for _, l := range leaves(t) {
			full := append(append([]int{}, path...), l.path...)
			out[x.metaF(root, leaf{full, pathName(root, full), l.typ}).name] = true
		}
		return
	}
	if _, ok := under(root).(*types.Array); ok {
		out[x.metaE(under(root).(*types.Array).Elem()).name] = true
		return
	}
	out[x.metaC(root).name] = true
}

func (x *Exec) touchedContract(ct *Contract, sig *types.Signature, recv types.Type, out map[string]bool) {
	if len(ct.events) > 0 || (ct.modAll && !ct.trusted()) {
		out[x.metaLog().name] = true
	}
	if ct.modAll {
		out["*"] = true
		return
	}
	if len(ct.mods) == 0 {
		return
	}
	// evaluate the clauses with dummy arguments to find the heaps
	st := &State{heaps: map[string]string{}, A: "0", lits: map[string]bool{}, ghost: map[string]string{}, epoch: -1}
	if _, ok := x.epochA[-1]; !ok {
		x.epochA[-1] = "0"
	}
	e := &SEnv{x: x, st: st, old: st, vars: map[string]SVal{}}
	var ts []types.Type
	if recv != nil {
		ts = append(ts, recv)
	}
	for i := 0; i < sig.Params().Len(); i++ {
		ts = append(ts, sig.Params().At(i).Type())
	}
	names := ct.params
	if ct.kind == "functype" {
		names = append([]string{"self"}, names...)
		ts = append([]types.Type{types.Typ[types.Int]}, ts...)
	}
	for i, n := range names {
		if i < len(ts) {
			c := q("dummy:" + n + ":" + typeKey(ts[i]))
			x.t.d.add(c, "(declare-const "+c+" "+x.t.sort(ts[i])+")")
			e.vars[n] = SVal{s: c, typ: ts[i]}
		}
	}
	saved := x.n
	for n := range e.mods(ct.mods) {
		out[n] = true
	}
	x.n = saved
}

func (x *Exec) touchedCall(c *ssa.Call, seen map[*ssa.Function]bool, out map[string]bool) {
	cc := c.Common()
	if bi, ok := cc.Value.(*ssa.Builtin); ok {
		switch bi.Name() {
		case "append", "copy":
			out[x.metaE(under(cc.Args[0].Type()).(*types.Slice).Elem()).name] = true
		case "delete":
			d, v := x.metaM(cc.Args[0].Type())
			out[d.name], out[v.name] = true, true
		}
		return
	}
	if cc.IsInvoke() {
		if mi, ok := cc.Value.(*ssa.MakeInterface); ok {
			if fn := x.P.prog.LookupMethod(mi.X.Type(), cc.Method.Pkg(), cc.Method.Name()); fn != nil {
				x.touchedFn(fn, seen, out)
				return
			}
		}
		ct := x.contract(ifaceMethodKey(cc.Method))
		if ct == nil {
			unsupported("no contract for interface method %s", ifaceMethodKey(cc.Method))
		}
		x.touchedContract(ct, cc.Method.Type().(*types.Signature), cc.Value.Type(), out)
		return
	}
	if fn := cc.StaticCallee(); fn != nil {
		x.touchedFn(fn, seen, out)
		return
	}
	if ct := x.functypeContract(cc.Value.Type()); ct != nil {
		x.touchedContract(ct, cc.Signature(), nil, out)
		return
	}
	// a call of a function value: resolved when executed (known closures)
	out["?"] = true
}

func (x *Exec) touchedFn(fn *ssa.Function, seen map[*ssa.Function]bool, out map[string]bool) {
	if ct := x.contract(funcName(fn)); ct != nil && !x.ct.inline[funcName(fn)] {
		var rt types.Type
		if fn.Signature.Recv() != nil {
			rt = fn.Signature.Recv().Type()
		}
		x.touchedContract(ct, fn.Signature, rt, out)
		return
	}
	if fn.Blocks == nil {
		unsupported("no contract for external function %s", funcName(fn))
	}
	if seen[fn] {
		return
	}
	seen[fn] = true
	x.touchedBlocks(fn, func(*ssa.BasicBlock) bool { return true }, seen, out)
}

// dominating values of the frame that are available at the loop header.
func (x *Exec) available(fr *frame, hdr *ssa.BasicBlock) []ssa.Value {
	var r []ssa.Value
	for _, p := range fr.fn.Params {
		r = append(r, p)
	}
	for _, p := range fr.fn.FreeVars {
		r = append(r, p)
	}
	for _, b := range fr.fn.Blocks {
		if b == hdr || !b.Dominates(hdr) {
			continue
		}
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				if _, have := fr.env[v]; have {
					r = append(r, v)
				}
			}
		}
	}
	return r
}

func (x *Exec) loopMapIter(fr *frame, l *loop) *mapIter {
	for b := range l.body {
		for _, in := range b.Instrs {
			if n, ok := in.(*ssa.Next); ok {
				if v, have := fr.env[n.Iter]; have && v.it != nil {
					// the innermost loop that holds the Next
					inner := true
					for h, l2 := range x.P.loops[fr.fn].byHeader {
						if h != l.header && l.body[h] && l2.body[b] {
							inner = false
						}
					}
					if inner {
						return v.it
					}
				}
			}
		}
	}
	return nil
}

func (x *Exec) loopMapIters(fr *frame, l *loop) []*mapIter {
	var r []*mapIter
	for _, b := range fr.fn.Blocks {
		if !l.body[b] {
			continue
		}
		for _, in := range b.Instrs {
			if n, ok := in.(*ssa.Next); ok {
				if v, have := fr.env[n.Iter]; have && v.it != nil {
					r = append(r, v.it)
				}
			}
		}
	}
	return r
}

func exprIdents(e ast.Expr, into map[string]bool) {
	ast.Inspect(e, func(n ast.Node) bool {
		if id, ok := n.(*ast.Ident); ok {
			into[id.Name] = true
		}
		if b, ok := n.(*ast.BasicLit); ok && b.Kind == token.STRING {
			into[strings.Trim(b.Value, "\"`")] = true
		}
		return true
	})
}

// metaIdents finds the metavariables an expression mentions, through macros.
func (x *Exec) metaIdents(e ast.Expr) []string {
	ids := map[string]bool{}
	exprIdents(e, ids)
	var r []string
	for n := range x.ct.locals {
		if ids[n] {
			r = append(r, n)
		}
	}
	sortStrings(r)
	return r
}

type binding struct {
	name string
	v    ssa.Value
	plus int
	it   bool
}

func (x *Exec) bindings(fr *frame, l *loop, e ast.Expr) [][]binding {
	names := x.metaIdents(e)
	res := [][]binding{{}}
	for _, n := range names {
		tn := x.ct.locals[n]
		only := ""
		if k := strings.Index(tn, " "); k >= 0 {
			only = strings.TrimSpace(tn[k:])
			tn = tn[:k]
		}
		want := x.P.resolveType(tn)
		var opts []binding
		for _, p := range phis(l.header) {
			if !types.Identical(p.Type(), want) && !(under(p.Type()) != nil && types.Identical(under(p.Type()), under(want)) && x.t.sort(want) != "Int") {
				continue
			}
			opts = append(opts, binding{n, p, 0, false})
			if typeKey(want) == "int" {
				for _, ed := range p.Edges {
					if c, ok := ed.(*ssa.Const); ok && c.Value != nil && c.Value.ExactString() == "-1" {
						opts = append(opts, binding{n, p, 1, false})
					}
				}
			}
		}
		// a phi of the same name, where there is one, is the one that is meant
		if only == "phi" {
			var same []binding
			for _, o := range opts {
				if p, ok := o.v.(*ssa.Phi); ok && p.Comment == n {
					same = append(same, o)
				}
			}
			if len(same) > 0 {
				opts = same
			}
		}
		if only != "phi" {
			for _, v := range x.available(fr, l.header) {
				if types.Identical(v.Type(), want) {
					if fr.env[v].lv != nil {
						continue
					}
					opts = append(opts, binding{n, v, 0, false})
				}
			}
			// what a type assertion gave is meant only if nothing else is there
			var own []binding
			for _, o := range opts {
				if ex, ok := o.v.(*ssa.Extract); ok {
					if _, ok := ex.Tuple.(*ssa.TypeAssert); ok {
						continue
					}
				}
				own = append(own, o)
			}
			if len(own) > 0 {
				opts = own
			}
		}
		if typeKey(want) == "int" && only != "phi" {
			opts = append(opts, binding{n, nil, 0, true})
		}
		var nx [][]binding
		for _, r := range res {
			for _, o := range opts {
				nx = append(nx, append(append([]binding{}, r...), o))
			}
		}
		res = nx
		if len(res) > 200 {
			res = res[:200]
		}
	}
	return res
}

func (x *Exec) userCands(fr *frame, l *loop, key string, cls []Clause, lold *State, tag string) []*cand {
	var r []*cand
	depth := 0
	for _, o := range findLoops(l.header.Parent()).byHeader {
		if o.body[l.header] {
			depth++
		}
	}
	for ci, cl := range cls {
		cl := cl
		// [d1], [d2], ...: only for loops at that depth
		if lb := strings.SplitN(cl.label, ".", 2)[0]; len(lb) == 2 && lb[0] == 'd' && lb[1] >= '1' && lb[1] <= '9' && int(lb[1]-'0') != depth {
			continue
		}
		for bi, bs := range x.bindings(fr, l, cl.e) {
			bs := bs
			nm := ""
			for _, b := range bs {
				if b.it {
					nm += " " + b.name + "=iter"
				} else {
					nm += fmt.Sprintf(" %s=%s+%d", b.name, b.v.Name(), b.plus)
				}
			}
			_ = bi
			r = append(r, &cand{
				key:  fmt.Sprintf("%s %s%d%s", key, tag, ci, nm),
				user: true,
				src:  cl.src,
				eval: func(st *State, get func(ssa.Value) Val, iter string, vis *visInfo) string {
					e := &SEnv{x: x, st: st, old: x.entry, lold: lold, vars: map[string]SVal{}, it: iter, vis: vis}
					for k, v := range x.vars {
						e.vars[k] = v
					}
					for _, b := range bs {
						if b.it {
							e.vars[b.name] = si(iter)
							continue
						}
						v := get(b.v)
						s := v.s
						if b.plus != 0 {
							s = "(+ " + s + " 1)"
						}
						e.vars[b.name] = SVal{s: s, typ: b.v.Type()}
					}
					return e.eval(cl.e).s
				},
			})
		}
	}
	return r
}

func (x *Exec) autoCands(fr *frame, st *State, l *loop, key string, inc map[ssa.Value]Val, touched map[string]bool, lold *State) []*cand {
	var r []*cand
	addc := func(nm string, f func(st *State, get func(ssa.Value) Val, iter string, vis *visInfo) string) {
		r = append(r, &cand{key: key + " auto " + nm, eval: f})
	}
	avail := x.available(fr, l.header)
	for _, p := range phis(l.header) {
		p := p
		if x.t.sort(p.Type()) != "Int" || isPtrLike(p.Type()) {
			continue
		}
		if _, ok := under(p.Type()).(*types.Signature); ok {
			continue
		}
		init := inc[p].s
		addc(p.Name()+"=init+iter", func(_ *State, get func(ssa.Value) Val, iter string, _ *visInfo) string {
			return fmt.Sprintf("(= %s (+ %s %s))", get(p).s, init, iter)
		})
		addc(p.Name()+"=init-iter", func(_ *State, get func(ssa.Value) Val, iter string, _ *visInfo) string {
			return fmt.Sprintf("(= %s (- %s %s))", get(p).s, init, iter)
		})
		addc(p.Name()+">=init", func(_ *State, get func(ssa.Value) Val, iter string, _ *visInfo) string {
			return fmt.Sprintf("(>= %s %s)", get(p).s, init)
		})
		addc(p.Name()+"<=init", func(_ *State, get func(ssa.Value) Val, iter string, _ *visInfo) string {
			return fmt.Sprintf("(<= %s %s)", get(p).s, init)
		})
		// bounds the loop compares with
		seen := map[ssa.Value]bool{}
		for b := range l.body {
			for _, in := range b.Instrs {
				bo, ok := in.(*ssa.BinOp)
				if !ok {
					continue
				}
				switch bo.Op {
				case token.LSS, token.LEQ, token.GTR, token.GEQ, token.EQL, token.NEQ:
				default:
					continue
				}
				if x.t.sort(bo.X.Type()) != "Int" {
					continue
				}
				for _, y := range []ssa.Value{bo.X, bo.Y} {
					y := y
					if seen[y] {
						continue
					}
					seen[y] = true
					ok := false
					if _, isc := y.(*ssa.Const); isc {
						ok = true
					}
					for _, a := range avail {
						if a == y {
							ok = true
						}
					}
					if !ok {
						continue
					}
					yv := x.val(fr, st, y)
					if yv.lv != nil || yv.s == "" {
						continue
					}
					nm := y.Name()
					addc(p.Name()+"<"+nm, func(_ *State, get func(ssa.Value) Val, _ string, _ *visInfo) string {
						return fmt.Sprintf("(< %s %s)", get(p).s, yv.s)
					})
					addc(p.Name()+"<="+nm, func(_ *State, get func(ssa.Value) Val, _ string, _ *visInfo) string {
						return fmt.Sprintf("(<= %s %s)", get(p).s, yv.s)
					})
					addc(p.Name()+">="+nm, func(_ *State, get func(ssa.Value) Val, _ string, _ *visInfo) string {
						return fmt.Sprintf("(>= %s %s)", get(p).s, yv.s)
					})
				}
			}
		}
	}
	// frames
	e0 := &SEnv{x: x, st: x.entry, old: x.entry, vars: x.vars}
	ms := map[string]*modSet{}
	if !x.ct.modAll {
		ms = e0.mods(x.ct.mods)
	}
	for _, n := range sortedKeys(touched) {
		m := x.meta[n]
		if m == nil || m.kind == 'L' {
			continue
		}
		mk := func(base *State, A string, excl string) func(*State, func(ssa.Value) Val, string, *visInfo) string {
			hb := x.heap(base, m)
			return func(st *State, _ func(ssa.Value) Val, _ string, _ *visInfo) string {
				h := x.heap(st, m)
				if h == hb {
					return "true"
				}
				return x.frameFact(m, h, hb, A, excl)
			}
		}
		if x.entry.epoch == st.epoch {
			ex := ""
			if s := ms[n]; s != nil {
				ex = s.excl("r")
			}
			addc("frame0 "+n, mk(x.entry, x.entry.A, ex))
		}
		addc("frameL "+n, mk(lold, lold.A, ""))
		// all but one location
		var locs []string
		for _, v := range avail {
			val := fr.env[v]
			switch m.kind {
			case 'F':
				if pt, ok := under(v.Type()).(*types.Pointer); ok && val.lv == nil && val.s != "" {
					if strings.HasPrefix(n, "F:"+structKey(pt.Elem())+".") {
						locs = append(locs, val.s)
					}
				}
				if pt, ok := under(v.Type()).(*types.Pointer); ok && val.lv == nil && val.s != "" {
					// a pointer held in a field
					if _, isS := under(pt.Elem()).(*types.Struct); isS {
						for _, lf := range leaves(pt.Elem()) {
							if fp, ok := under(lf.typ).(*types.Pointer); ok && strings.HasPrefix(n, "F:"+structKey(fp.Elem())+".") {
								locs = append(locs, x.loadObj(lold, pt.Elem(), val.s, lf.path))
							}
						}
					}
				}
			case 'E':
				if sl, ok := under(v.Type()).(*types.Slice); ok && val.s != "" && elemHeap(sl.Elem()) == n {
					locs = append(locs, "(sarr "+val.s+")")
				}
				if val.lv != nil && val.lv.kind == 'a' && elemHeap(under(val.lv.typ).(*types.Array).Elem()) == n {
					locs = append(locs, val.lv.ref)
				}
				if pt, ok := under(v.Type()).(*types.Pointer); ok && val.lv == nil && val.s != "" {
					if _, isS := under(pt.Elem()).(*types.Struct); isS {
						for _, lf := range leaves(pt.Elem()) {
							if sl, ok := under(lf.typ).(*types.Slice); ok && elemHeap(sl.Elem()) == n {
								locs = append(locs, "(sarr "+x.loadObj(lold, pt.Elem(), val.s, lf.path)+")")
							}
						}
					}
				}
			case 'D', 'V':
				if _, ok := under(v.Type()).(*types.Map); ok && val.s != "" && "D:"+mapKey(v.Type()) == "D"+n[1:] {
					locs = append(locs, val.s)
				}
				if pt, ok := under(v.Type()).(*types.Pointer); ok && val.lv == nil && val.s != "" {
					if _, isS := under(pt.Elem()).(*types.Struct); isS {
						for _, lf := range leaves(pt.Elem()) {
							if _, ok := under(lf.typ).(*types.Map); ok && "D:"+mapKey(lf.typ) == "D"+n[1:] {
								locs = append(locs, x.loadObj(lold, pt.Elem(), val.s, lf.path))
							}
						}
					}
				}
			}
		}
		// phis of slice type: the array they start with
		if m.kind == 'E' {
			for _, p := range phis(l.header) {
				if sl, ok := under(p.Type()).(*types.Slice); ok && elemHeap(sl.Elem()) == n {
					locs = append(locs, "(sarr "+inc[p].s+")")
				}
			}
		}
		done := map[string]bool{}
		for i, lc := range locs {
			if done[lc] || i > 12 {
				continue
			}
			done[lc] = true
			addc(fmt.Sprintf("frame1 %s %d", n, i), mk(lold, lold.A, "(not (= r "+lc+"))"))
		}
	}
	for _, g := range x.boolGhosts() {
		m := x.metaG(g)
		addc("new "+g.name, func(st *State, _ func(ssa.Value) Val, _ string, _ *visInfo) string {
			return x.noGhost(x.heap(st, m), lold.A, st.A)
		})
	}
	for _, t := range sortedKeys(x.t.rt) {
		t := t
		addc("made "+t, func(st *State, _ func(ssa.Value) Val, _ string, _ *visInfo) string {
			return x.noObject(t, lold.A, st.A)
		})
	}
	// maps being ranged over
	if it := x.loopMapIter(fr, l); it != nil && !it.strs {
		d, _ := x.metaM(it.typ)
		hd := x.heap(lold, d)
		ks := x.t.sort(d.key)
		addc("visited", func(_ *State, _ func(ssa.Value) Val, _ string, vis *visInfo) string {
			return fmt.Sprintf("(forall ((k %s)) (! (=> (select %s k) (select (select %s %s) k)) :pattern ((select %s k))))", ks, vis.term, hd, it.m, vis.term)
		})
	}
	return r
}

func loopKey(fr *frame, l *loop) string {
	return fmt.Sprintf("%s L%d", fr.path, l.header.Index)
}

func (x *Exec) enterLoop(fr *frame, st *State, l *loop, from *ssa.BasicBlock) {
	hdr := l.header
	key := loopKey(fr, l)
	x.loops[key] = true
	ps := phis(hdr)
	k := predIdx(from, hdr)
	inc := map[ssa.Value]Val{}
	for _, p := range ps {
		v := x.val(fr, st, p.Edges[k])
		if v.lv != nil || (v.it != nil) {
			unsupported("interior pointer in loop variable")
		}
		v.typ = p.Type()
		inc[p] = v
	}
	touched := map[string]bool{}
	x.touchedBlocks(fr.fn, func(b *ssa.BasicBlock) bool { return l.body[b] }, map[*ssa.Function]bool{}, touched)
	delete(touched, "?")
	all := touched["*"]
	delete(touched, "*")
	lold := st.fork()
	cands := x.autoCands(fr, st, l, key, inc, touched, lold)
	cands = append(cands, x.userCands(fr, l, key, x.S.split(x.ct.invs), lold, "inv")...)
	it := x.loopMapIter(fr, l)
	getInc := func(v ssa.Value) Val {
		if r, ok := inc[v]; ok {
			return r
		}
		return x.val(fr, st, v)
	}
	var vis *visInfo
	if it != nil && !it.strs {
		vis = &visInfo{st.ghost[it.id], it.typ}
	}
	var live []*cand
	for _, c := range cands {
		if x.dropped[c.key] {
			continue
		}
		g, ok := x.tryEval(func() string { return c.eval(st, getInc, "0", vis) })
		if !ok {
			x.dropped[c.key] = true
			continue
		}
		x.obligeCand(st, c, "entry", g)
		live = append(live, c)
	}
	ns := st.fork()
	x.bumpA(ns)
	if all {
		log, hasLog := ns.heaps["$log"]
		x.havocAll(ns)
		if hasLog && !touched["$log"] {
			ns.heaps["$log"] = log
		}
	} else {
		for _, n := range sortedKeys(touched) {
			x.heap(ns, x.meta[n])
			x.havocHeap(ns, x.meta[n])
		}
	}
	for _, i := range x.loopMapIters(fr, l) {
		if i.strs {
			ns.ghost[i.id] = x.fresh("pos", "Int")
		} else {
			ns.ghost[i.id] = x.fresh("visited", "(Array "+x.t.sort(under(i.typ).(*types.Map).Key())+" Bool)")
		}
	}
	fr2 := fr.clone()
	for _, p := range ps {
		if inc[p].fn != nil && x.t.sort(p.Type()) == "Int" {
			// a function value that changes: identity unknown
		}
		v := x.freshVal(ns, p.Name(), p.Type())
		fr2.env[p] = v
	}
	iter := x.fresh("iter", "Int")
	ns.assume("(<= 0 " + iter + ")")
	if it != nil && !it.strs {
		vis = &visInfo{ns.ghost[it.id], it.typ}
	}
	get := func(v ssa.Value) Val { return x.val(fr2, ns, v) }
	for _, c := range live {
		ns.assume(c.eval(ns, get, iter, vis))
	}
	ctx := &loopCtx{key: key, iter: iter, head: lold, cands: live, touched: touched, all: all, assumedHeaps: map[string]string{}}
	// variants
	vars := x.userCands(fr, l, key, x.ct.variants, lold, "variant")
	for _, p := range ps {
		p := p
		if x.t.sort(p.Type()) != "Int" || isPtrLike(p.Type()) {
			continue
		}
		if _, isf := under(p.Type()).(*types.Signature); isf {
			continue
		}
		for _, in := range hdr.Instrs {
			if bo, ok := in.(*ssa.BinOp); ok && (bo.Op == token.LSS || bo.Op == token.LEQ) && x.t.sort(bo.Y.Type()) == "Int" {
				y := bo.Y
				if ins, isi := y.(ssa.Instruction); isi && ins.Block() != nil && l.body[ins.Block()] {
					continue
				}
				yv := x.val(fr, st, y)
				vars = append(vars, &cand{key: key + " variant auto " + p.Name(), eval: func(_ *State, get func(ssa.Value) Val, _ string, _ *visInfo) string {
					return fmt.Sprintf("(- %s %s)", yv.s, get(p).s)
				}})
			}
		}
	}
	for _, c := range vars {
		if x.dropped[c.key] {
			continue
		}
		v, ok := x.tryEval(func() string { return c.eval(ns, get, iter, vis) })
		if !ok {
			x.dropped[c.key] = true
			continue
		}
		ctx.vars = append(ctx.vars, c)
		ctx.vhead = append(ctx.vhead, v)
		x.loopVar[key] = append(x.loopVar[key], c.key)
	}
	if it != nil {
		x.loopVar[key] = append(x.loopVar[key], "map or string range")
	}
	for n, h := range ns.heaps {
		ctx.assumedHeaps[n] = h
	}
	fr2.loops[hdr] = ctx
	x.run(fr2, ns, hdr, len(ps))
}

func (x *Exec) tryEval(f func() string) (s string, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(limit); is {
				ok = false
				return
			}
			panic(r)
		}
	}()
	return f(), true
}

func (x *Exec) obligeCand(st *State, c *cand, when, goal string) {
	if goal == "" || st.known(goal) {
		return
	}
	x.obls = append(x.obls, &Obl{kind: "invariant-" + when, label: c.key + " " + c.src, fs: st.fs, goal: goal, cand: c.key, userCand: c.user})
}

func (x *Exec) closeLoop(fr *frame, st *State, l *loop, ctx *loopCtx, from *ssa.BasicBlock) {
	x.paths++
	if x.paths > maxPaths {
		unsupported("too many paths")
	}
	hdr := l.header
	k := predIdx(from, hdr)
	inc := map[ssa.Value]Val{}
	for _, p := range phis(hdr) {
		v := x.val(fr, st, p.Edges[k])
		if v.lv != nil {
			unsupported("interior pointer in loop variable")
		}
		inc[p] = v
	}
	if !ctx.all {
		for n, h := range st.heaps {
			if old, ok := ctx.assumedHeaps[n]; ok && old != h && !ctx.touched[n] {
				unsupported("internal: heap %s changes in loop %s", n, ctx.key)
			} else if !ok && !ctx.touched[n] && h != q(fmt.Sprintf("%s@%d", n, st.epoch)) {
				unsupported("internal: heap %s changes in loop %s", n, ctx.key)
			}
		}
	}
	get := func(v ssa.Value) Val {
		if r, ok := inc[v]; ok {
			return r
		}
		return x.val(fr, st, v)
	}
	it := x.loopMapIter(fr, l)
	var vis *visInfo
	if it != nil && !it.strs {
		vis = &visInfo{st.ghost[it.id], it.typ}
	}
	ni := "(+ " + ctx.iter + " 1)"
	for _, c := range ctx.cands {
		if x.dropped[c.key] {
			continue
		}
		x.obligeCand(st, c, "step", c.eval(st, get, ni, vis))
	}
	for i, c := range ctx.vars {
		if x.dropped[c.key] {
			continue
		}
		v := c.eval(st, get, ni, vis)
		x.obls = append(x.obls, &Obl{kind: "variant", label: c.key, fs: st.fs, goal: fmt.Sprintf("(and (<= 0 %s) (< %s %s))", ctx.vhead[i], v, ctx.vhead[i]), cand: c.key, userCand: c.user})
	}
}
