package main

import (
	"fmt"
	"go/types"
	"strings"
)

// limit is thrown when the code uses something outside the supported subset.
type limit struct{ msg string }

func unsupported(f string, a ...interface{}) { panic(limit{fmt.Sprintf(f, a...)}) }

func qual(p *types.Package) string { return p.Name() }

func typeKey(t types.Type) string { return types.TypeString(types.Unalias(t), qual) }

func q(s string) string { return "|" + s + "|" }

// T is the per-verification type context.
type T struct {
	d    *Decls
	tags map[string]int // concrete types in interfaces
	n    int
	prog *Program
	lits map[string]string
	ax   []Axiom
	axn  map[string]bool
	rt   map[string]bool // struct types quantified over; references know their type
}

func (c *T) axiom(name, s string, keys ...string) {
	if c.axn[name] {
		return
	}
	c.axn[name] = true
	c.ax = append(c.ax, Axiom{name: name, s: s, keys: keys})
}

func newT(p *Program) *T {
	t := &T{d: newDecls(), tags: map[string]int{}, prog: p, lits: map[string]string{}, axn: map[string]bool{}}
	t.d.add("Str", "(declare-sort Str 0)")
	t.d.add("Iface", "(declare-datatypes ((Iface 0)) (((mk-iface (itag Int) (ipay Int)))))", "mk-iface", "itag", "ipay")
	t.d.add("Slice", "(declare-datatypes ((Slice 0)) (((mk-slice (sarr Int) (soff Int) (slen Int) (scap Int)))))", "mk-slice", "sarr", "soff", "slen", "scap")
	t.d.add("strlen", "(declare-fun strlen (Str) Int)\n(assert (forall ((s Str)) (! (>= (strlen s) 0) :pattern ((strlen s)))))")
	t.d.add("cat", "(declare-fun cat (Str Str) Str)\n(assert (forall ((a Str) (b Str)) (! (= (strlen (cat a b)) (+ (strlen a) (strlen b))) :pattern ((cat a b)))))")
	t.d.add("substr", "(declare-fun substr (Str Int Int) Str)\n(assert (forall ((a Str) (i Int) (j Int)) (! (=> (and (<= 0 i) (<= i j) (<= j (strlen a))) (= (strlen (substr a i j)) (- j i))) :pattern ((substr a i j)))))")
	t.d.add("sbyte", "(declare-fun sbyte (Str Int) Int)")
	t.d.add("bytesOf", "(declare-fun bytesOf (Str) (Array Int Int))\n(assert (forall ((s Str) (i Int)) (! (= (select (bytesOf s) i) (sbyte s i)) :pattern ((select (bytesOf s) i)))))")
	t.d.add("bstr", "(declare-fun bstr ((Array Int Int) Int Int) Str)\n(assert (forall ((a (Array Int Int)) (o Int) (n Int)) (! (=> (>= n 0) (= (strlen (bstr a o n)) n)) :pattern ((bstr a o n)))))\n(assert (forall ((s Str)) (! (= (bstr (bytesOf s) 0 (strlen s)) s) :pattern ((bytesOf s)))))")
	t.d.add("runesOf", "(declare-fun runesOf (Str) Int)")
	t.d.add("rtype", "(declare-fun rtype (Int) Int)")
	t.d.add("isptrtag", "(declare-fun isptrtag (Int) Bool)")
	return t
}

func under(t types.Type) types.Type { return t.Underlying() }

func isPtrLike(t types.Type) bool {
	switch under(t).(type) {
	case *types.Pointer, *types.Map, *types.Chan:
		return true
	}
	return false
}

func (c *T) sort(t types.Type) string {
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return "Int"
		case u.Info()&types.IsBoolean != 0:
			return "Bool"
		case u.Info()&types.IsString != 0:
			return "Str"
		case u.Kind() == types.UntypedNil:
			return "Int"
		}
	case *types.Pointer, *types.Map, *types.Signature, *types.Chan:
		return "Int"
	case *types.Interface:
		return "Iface"
	case *types.Slice:
		return "Slice"
	case *types.Array:
		return "(Array Int " + c.sort(u.Elem()) + ")"
	case *types.Struct:
		return c.structSort(t, u)
	}
	unsupported("type %s", t)
	return ""
}

func structKey(t types.Type) string {
	return typeKey(t)
}

func (c *T) structSort(t types.Type, u *types.Struct) string {
	key := structKey(t)
	name := q("S:" + key)
	if _, ok := c.d.text[name]; ok {
		return name
	}
	var b strings.Builder
	var members []string
	mk := q("mk:" + key)
	members = append(members, mk)
	fmt.Fprintf(&b, "(declare-datatypes ((%s 0)) (((%s", name, mk)
	for i := 0; i < u.NumFields(); i++ {
		fs := c.sort(u.Field(i).Type())
		acc := c.acc(t, i)
		members = append(members, acc)
		fmt.Fprintf(&b, " (%s %s)", acc, fs)
	}
	if u.NumFields() == 0 {
		fmt.Fprintf(&b, " (%s Int)", q("unit:"+key))
	}
	b.WriteString("))))")
	c.d.add(name, b.String(), members...)
	return name
}

// acc names the accessor of field i of struct type t.
func (c *T) acc(t types.Type, i int) string {
	u := under(t).(*types.Struct)
	return q("sel:" + structKey(t) + "." + u.Field(i).Name())
}

func (c *T) zero(t types.Type) string {
	switch u := under(t).(type) {
	case *types.Basic:
		switch c.sort(t) {
		case "Int":
			return "0"
		case "Bool":
			return "false"
		case "Str":
			return c.lit("")
		}
	case *types.Pointer, *types.Map, *types.Signature, *types.Chan:
		return "0"
	case *types.Interface:
		return "(mk-iface 0 0)"
	case *types.Slice:
		return "(mk-slice 0 0 0 0)"
	case *types.Array:
		return fmt.Sprintf("((as const %s) %s)", c.sort(t), c.zero(u.Elem()))
	case *types.Struct:
		c.sort(t)
		r := "(" + q("mk:"+structKey(t))
		for i := 0; i < u.NumFields(); i++ {
			r += " " + c.zero(u.Field(i).Type())
		}
		if u.NumFields() == 0 {
			r += " 0"
		}
		return r + ")"
	}
	unsupported("zero of %s", t)
	return ""
}

// lit returns the constant for a string literal.
func (c *T) lit(s string) string {
	if n, ok := c.lits[s]; ok {
		return n
	}
	n := fmt.Sprintf("lit!%d", len(c.lits))
	c.lits[s] = n
	txt := fmt.Sprintf("(declare-const %s Str)\n(assert (= (strlen %s) %d))", n, n, len(s))
	if s == "" {
		txt += fmt.Sprintf("\n(assert (forall ((s Str)) (! (=> (= (strlen s) 0) (= s %s)) :pattern ((strlen s)))))\n(assert (forall ((s Str)) (! (= (cat s %s) s) :pattern ((cat s %s)))))\n(assert (forall ((s Str)) (! (= (cat %s s) s) :pattern ((cat %s s)))))", n, n, n, n, n)
	}
	c.d.add(n, txt)
	return n
}

// tag numbers concrete dynamic types.
func (c *T) tag(t types.Type) string {
	k := typeKey(t)
	n, ok := c.tags[k]
	if !ok {
		n = c.prog.tagOf(t)
		c.tags[k] = n
		if _, isp := under(t).(*types.Pointer); isp {
			c.axiom(fmt.Sprint("ptrtag", n), fmt.Sprintf("(isptrtag %d)", n), "isptrtag")
		}
	}
	return fmt.Sprint(n)
}

// box turns a value of concrete type t into an interface payload.
func (c *T) box(t types.Type, v string) string {
	if isPtrLike(t) {
		return v
	}
	s := c.sort(t)
	b, ub := q("box:"+typeKey(t)), q("unbox:"+typeKey(t))
	c.d.add(b, fmt.Sprintf("(declare-fun %s (%s) Int)\n(declare-fun %s (Int) %s)\n(assert (forall ((x %s)) (! (= (%s (%s x)) x) :pattern ((%s x)))))\n(assert (forall ((x Int)) (! (= (%s (%s x)) x) :pattern ((%s x)))))", b, s, ub, s, s, ub, b, b, b, ub, ub), ub)
	return "(" + b + " " + v + ")"
}

func (c *T) unbox(t types.Type, v string) string {
	if isPtrLike(t) {
		return v
	}
	c.box(t, "0")
	return "(" + q("unbox:"+typeKey(t)) + " " + v + ")"
}

func (c *T) mkIface(t types.Type, v string) string {
	tg := c.tag(t)
	return "(mk-iface " + tg + " " + c.box(t, v) + ")"
}

// leaf is one scalar field of a struct, reached through nested struct values.
type leaf struct {
	path []int
	name string
	typ  types.Type
}

func leaves(t types.Type) []leaf {
	u, ok := under(t).(*types.Struct)
	if !ok {
		return []leaf{{nil, "", t}}
	}
	var r []leaf
	for i := 0; i < u.NumFields(); i++ {
		f := u.Field(i)
		if _, ok := under(f.Type()).(*types.Struct); ok {
			for _, l := range leaves(f.Type()) {
				r = append(r, leaf{append([]int{i}, l.path...), "." + f.Name() + l.name, l.typ})
			}
		} else {
			r = append(r, leaf{[]int{i}, "." + f.Name(), f.Type()})
		}
	}
	return r
}

// wf is the well-formedness every value of Go type t has when the allocation
// counter is A; "" when there is nothing to say.
func (c *T) wf(t types.Type, v, A string) string {
	switch u := under(t).(type) {
	case *types.Pointer, *types.Map, *types.Chan:
		if p, ok := u.(*types.Pointer); ok && c.rt[typeKey(p.Elem())] {
			return fmt.Sprintf("(and (<= 0 %s) (<= %s %s) (or (= %s 0) (= (rtype %s) %s)))", v, v, A, v, v, c.tag(t))
		}
		return fmt.Sprintf("(and (<= 0 %s) (<= %s %s))", v, v, A)
	case *types.Signature:
		return fmt.Sprintf("(<= %s %s)", v, A)
	case *types.Slice:
		return fmt.Sprintf("(and (<= 0 (sarr %s)) (<= (sarr %s) %s) (<= 0 (soff %s)) (<= 0 (slen %s)) (<= (slen %s) (scap %s)) (=> (= (sarr %s) 0) (= %s (mk-slice 0 0 0 0))))", v, v, A, v, v, v, v, v, v)
	case *types.Interface:
		if len(c.rt) > 0 {
			return fmt.Sprintf("(and (<= 0 (itag %s)) (=> (= (itag %s) 0) (= (ipay %s) 0)) (=> (isptrtag (itag %s)) (and (<= 0 (ipay %s)) (<= (ipay %s) %s) (or (= (ipay %s) 0) (= (rtype (ipay %s)) (itag %s))))))", v, v, v, v, v, v, A, v, v, v)
		}
		return fmt.Sprintf("(and (<= 0 (itag %s)) (=> (= (itag %s) 0) (= (ipay %s) 0)) (=> (isptrtag (itag %s)) (and (<= 0 (ipay %s)) (<= (ipay %s) %s))))", v, v, v, v, v, v, A)
	case *types.Basic:
		if u.Info()&types.IsUnsigned != 0 {
			return fmt.Sprintf("(<= 0 %s)", v)
		}
		return ""
	case *types.Struct:
		var ps []string
		c.sort(t)
		for i := 0; i < u.NumFields(); i++ {
			if w := c.wf(u.Field(i).Type(), "("+c.acc(t, i)+" "+v+")", A); w != "" {
				ps = append(ps, w)
			}
		}
		return and(ps...)
	}
	return ""
}

func and(ps ...string) string {
	var r []string
	for _, p := range ps {
		if p != "" && p != "true" {
			r = append(r, p)
		}
	}
	if len(r) == 0 {
		return ""
	}
	if len(r) == 1 {
		return r[0]
	}
	return "(and " + strings.Join(r, " ") + ")"
}

func imp(a, b string) string {
	if a == "" || a == "true" {
		return b
	}
	return "(=> " + a + " " + b + ")"
}
