package main

import (
	"fmt"
	"math/rand"
	"strings"

	"github.com/adamcolton/parlex"
	"github.com/adamcolton/parlex/lexeme"
	"github.com/adamcolton/parlex/parser/packrat"
	"github.com/adamcolton/parlex/parser/topdown"
	"github.com/adamcolton/parlex/symbol/stringsymbol"
	"github.com/adamcolton/parlex/tree"
	treered "github.com/adamcolton/parlex/tree/reducer"
)

// T is the oracle's immutable tree.
type T struct {
	k, v string
	l, c int
	ch   []*T
}

func (t *T) dump() string {
	var sb strings.Builder
	var w func(t *T)
	w = func(t *T) {
		fmt.Fprintf(&sb, "%s:%q@%d,%d", t.k, t.v, t.l, t.c)
		if len(t.ch) > 0 {
			sb.WriteString("(")
			for i, c := range t.ch {
				if i > 0 {
					sb.WriteString(" ")
				}
				w(c)
			}
			sb.WriteString(")")
		}
	}
	w(t)
	return sb.String()
}

// pnDump dumps a real node the same way, giving up on cycles.
func pnDump(n parlex.ParseNode) string {
	if isNil(n) {
		return "<nil>"
	}
	var sb strings.Builder
	budget := 20000
	var w func(n parlex.ParseNode)
	w = func(n parlex.ParseNode) {
		budget--
		if budget < 0 {
			return
		}
		if isNil(n) {
			sb.WriteString("<nil>")
			return
		}
		l, c := n.Pos()
		fmt.Fprintf(&sb, "%s:%q@%d,%d", n.Kind().String(), n.Value(), l, c)
		if n.Children() > 0 {
			sb.WriteString("(")
			for i := 0; i < n.Children(); i++ {
				if i > 0 {
					sb.WriteString(" ")
				}
				w(n.Child(i))
			}
			sb.WriteString(")")
		}
	}
	w(n)
	if budget < 0 {
		return "cyclic or enormous tree"
	}
	return sb.String()
}

// real makes a linked *tree.PN; spare gives child slices spare capacity, which
// exposes aliasing.
func (t *T) real(r *rand.Rand) *tree.PN {
	n := &tree.PN{Lexeme: lexeme.String(t.k).Set(t.v).At(t.l, t.c)}
	spare := 0
	if r != nil {
		spare = r.Intn(4)
	}
	if len(t.ch) > 0 || spare > 0 {
		n.C = make([]*tree.PN, 0, len(t.ch)+spare)
	}
	for _, c := range t.ch {
		rc := c.real(r)
		rc.P = n
		n.C = append(n.C, rc)
	}
	return n
}

var treeKinds = []string{"A", "B", "C", "D", "x"}

func randT(r *rand.Rand, depth, width int) *T {
	t := &T{k: treeKinds[r.Intn(len(treeKinds))], l: r.Intn(9), c: r.Intn(9)}
	if r.Intn(2) == 0 {
		t.v = []string{"v", "w", "12", "(", "two words"}[r.Intn(5)]
	}
	if depth > 0 {
		for i := r.Intn(width + 1); i > 0; i-- {
			t.ch = append(t.ch, randT(r, depth-1, width))
		}
	}
	return t
}

// op is one reduction with its meaning.
type op struct {
	name string
	idxs []int
	strs []string
	cond *op
	then []*op
	els  []*op
}

func (o *op) String() string {
	switch o.name {
	case "RemoveChildren":
		return strings.ReplaceAll("RemoveChildren("+strings.Trim(fmt.Sprint(o.idxs), "[]")+")", " ", ",")
	case "RemoveAll":
		return `RemoveAll("` + strings.Join(o.strs, `","`) + `")`
	case "PromoteGrandChildren", "PromoteSingleChild":
		return o.name + "()"
	case "Nil":
		return "Nil"
	case "If":
		return fmt.Sprintf("If(ChildIs(%d,\"%s\"),%s,%s)", o.cond.idxs[0], o.cond.strs[0], chainText(o.then), chainText(o.els))
	}
	return fmt.Sprintf("%s(%d)", o.name, o.idxs[0])
}

func chainText(ops []*op) string {
	s := make([]string, len(ops))
	for i, o := range ops {
		s[i] = o.String()
	}
	return strings.Join(s, ".")
}

func at(i, n int) (int, bool) {
	if i < 0 {
		i += n
	}
	return i, i >= 0 && i < n
}

func splice(a []*T, i int, mid []*T) []*T {
	out := append([]*T{}, a[:i]...)
	out = append(out, mid...)
	return append(out, a[i+1:]...)
}

func (t *T) with(ch []*T) *T { c := *t; c.ch = ch; return &c }

// apply gives the documented meaning of an operation, and the bool the method
// reports.
func (o *op) apply(t *T) (*T, bool) {
	switch o.name {
	case "RemoveChild":
		if i, ok := at(o.idxs[0], len(t.ch)); ok {
			return t.with(splice(t.ch, i, nil)), true
		}
	case "RemoveChildren":
		drop := map[int]bool{}
		for _, x := range o.idxs {
			if i, ok := at(x, len(t.ch)); ok {
				drop[i] = true
			}
		}
		var ch []*T
		for i, c := range t.ch {
			if !drop[i] {
				ch = append(ch, c)
			}
		}
		return t.with(ch), true
	case "RemoveAll":
		var ch []*T
		for _, c := range t.ch {
			hit := false
			for _, s := range o.strs {
				hit = hit || s == c.k
			}
			if !hit {
				ch = append(ch, c)
			}
		}
		return t.with(ch), true
	case "PromoteSingleChild":
		if len(t.ch) == 1 {
			c := t.ch[0]
			return &T{c.k, c.v, c.l, c.c, c.ch}, true
		}
	case "PromoteChild":
		if i, ok := at(o.idxs[0], len(t.ch)); ok {
			c := t.ch[i]
			return &T{c.k, c.v, c.l, c.c, splice(t.ch, i, c.ch)}, true
		}
	case "PromoteChildrenOf":
		if i, ok := at(o.idxs[0], len(t.ch)); ok {
			return t.with(splice(t.ch, i, t.ch[i].ch)), true
		}
	case "PromoteChildValue":
		if i, ok := at(o.idxs[0], len(t.ch)); ok {
			c := t.ch[i]
			return &T{t.k, c.v, c.l, c.c, splice(t.ch, i, nil)}, true
		}
	case "PromoteGrandChildren":
		var ch []*T
		for _, c := range t.ch {
			ch = append(ch, c.ch...)
		}
		return t.with(ch), true
	case "ReplaceWithChild":
		if i, ok := at(o.idxs[0], len(t.ch)); ok {
			return t.ch[i], true
		}
	case "If":
		i, ok := at(o.cond.idxs[0], len(t.ch))
		br := o.els
		if ok && t.ch[i].k == o.cond.strs[0] {
			br = o.then
		}
		for _, b := range br {
			t, _ = b.apply(t)
		}
		return t, true
	}
	return t, false
}

// call runs the real method.
func (o *op) call(n *tree.PN) (res bool, has bool) {
	switch o.name {
	case "RemoveChild":
		return n.RemoveChild(o.idxs[0]), true
	case "RemoveChildren":
		n.RemoveChildren(o.idxs...)
	case "RemoveAll":
		n.RemoveAll(o.strs...)
	case "PromoteSingleChild":
		return n.PromoteSingleChild(), true
	case "PromoteChild":
		return n.PromoteChild(o.idxs[0]), true
	case "PromoteChildrenOf":
		return n.PromoteChildrenOf(o.idxs[0]), true
	case "PromoteChildValue":
		n.PromoteChildValue(o.idxs[0])
	case "PromoteGrandChildren":
		n.PromoteGrandChildren()
	case "ReplaceWithChild":
		return n.ReplaceWithChild(o.idxs[0]), true
	case "If":
		o.red(nil)(n)
	}
	return false, false
}

// red builds the Reduction programmatically, chained to r.
func (o *op) red(r tree.Reduction) tree.Reduction {
	switch o.name {
	case "RemoveChild":
		return r.RemoveChild(o.idxs[0])
	case "RemoveChildren":
		return r.RemoveChildren(o.idxs...)
	case "RemoveAll":
		return r.RemoveAll(o.strs...)
	case "PromoteSingleChild":
		return r.PromoteSingleChild()
	case "PromoteChild":
		return r.PromoteChild(o.idxs[0])
	case "PromoteChildrenOf":
		return r.PromoteChildrenOf(o.idxs[0])
	case "PromoteChildValue":
		return r.PromoteChildValue(o.idxs[0])
	case "PromoteGrandChildren":
		return r.PromoteGrandChildren()
	case "ReplaceWithChild":
		return r.ReplaceWithChild(o.idxs[0])
	case "If":
		return r.If(tree.ChildIs(o.cond.idxs[0], o.cond.strs[0]), chainRed(o.then), chainRed(o.els))
	}
	return r
}

func chainRed(ops []*op) tree.Reduction {
	var r tree.Reduction
	for _, o := range ops {
		r = o.red(r)
	}
	return r
}

var opNames = []string{"RemoveChild", "RemoveChildren", "RemoveAll", "PromoteSingleChild", "PromoteChild", "PromoteChildrenOf",
	"PromoteChildValue", "PromoteGrandChildren", "ReplaceWithChild"}

func randOp(r *rand.Rand, depth int) *op {
	if depth > 0 && r.Intn(6) == 0 {
		return &op{name: "If", cond: &op{idxs: []int{r.Intn(7) - 3}, strs: []string{treeKinds[r.Intn(5)]}},
			then: randOps(r, depth-1), els: randOps(r, depth-1)}
	}
	o := &op{name: opNames[r.Intn(len(opNames))]}
	for i := 1 + r.Intn(3); i > 0; i-- {
		o.idxs = append(o.idxs, r.Intn(11)-5)
		o.strs = append(o.strs, treeKinds[r.Intn(5)])
	}
	return o
}

func randOps(r *rand.Rand, depth int) []*op {
	var out []*op
	for i := 1 + r.Intn(3); i > 0; i-- {
		out = append(out, randOp(r, depth))
	}
	return out
}

func treeOps(c *Ctx) {
	for i := 0; i < c.N(30000, 600000) && !c.Done(); i++ {
		t := randT(c.R, 3, 4)
		var ops []*op
		for k := 1 + c.R.Intn(5); k > 0; k-- {
			ops = append(ops, randOp(c.R, 0))
		}
		seed := c.R.Int63()
		c.Case(fmt.Sprintf("ops %s on %s (slice spare seed %d)", chainText(ops), t.dump(), seed), len(t.ch) > 1, func() (string, string) {
			n := t.real(rand.New(rand.NewSource(seed)))
			cur := t
			for _, o := range ops {
				// queries agree with the tree
				for x := -6; x <= 6; x++ {
					idx, ok := at(x, len(cur.ch))
					gi, gl, gok := n.GetIdx(x)
					if gok != ok || gl != len(cur.ch) || (ok && gi != idx) {
						return fmt.Sprintf("GetIdx(%d) %d %d %v", x, idx, len(cur.ch), ok), fmt.Sprintf("%d %d %v", gi, gl, gok)
					}
					for _, k := range treeKinds {
						is := ok && cur.ch[idx].k == k
						if n.ChildIs(x, k) != is || n.ChildAt(x, "zz", k) != is {
							return fmt.Sprintf("ChildIs/ChildAt(%d,%s) %v", x, k, is), fmt.Sprint(n.ChildIs(x, k), n.ChildAt(x, "zz", k))
						}
					}
					if got := n.Child(x); (got == nil) == ok {
						return fmt.Sprintf("Child(%d) %v", x, ok), pnDump(got)
					}
				}
				next, want := o.apply(cur)
				got, has := o.call(n)
				if has && got != want {
					return fmt.Sprintf("%v returns %v", o, want), fmt.Sprint(got)
				}
				cur = next
				if e, g := cur.dump(), pnDump(n); e != g {
					return "after " + o.String() + ": " + e, "after " + o.String() + ": " + g
				}
			}
			return "", ""
		})
	}
}

func reduceT(t *T, rules map[string][]*op) *T {
	n := &T{t.k, t.v, t.l, t.c, nil}
	for _, c := range t.ch {
		n.ch = append(n.ch, reduceT(c, rules))
	}
	for _, o := range rules[n.k] {
		n, _ = o.apply(n)
	}
	return n
}

func randRed(r *rand.Rand, depth int) map[string][]*op {
	rules := map[string][]*op{}
	for _, k := range treeKinds {
		if r.Intn(2) == 0 {
			rules[k] = randOps(r, depth)
		}
	}
	return rules
}

func redText(rules map[string][]*op) string {
	var sb strings.Builder
	for _, k := range treeKinds {
		if ops, ok := rules[k]; ok {
			fmt.Fprintf(&sb, "%s %s\n", k, chainText(ops))
		}
	}
	return sb.String()
}

func reducers(c *Ctx) {
	// traversal order with recording reductions: children left to right, then
	// the node itself, once each, on nodes that are copies
	for i := 0; i < c.N(3000, 60000) && !c.Done(); i++ {
		t := randT(c.R, 3, 3)
		kinds := map[string]bool{}
		for _, k := range treeKinds {
			kinds[k] = c.R.Intn(2) == 0
		}
		c.Case(fmt.Sprintf("order of reductions for kinds %v on %s", kinds, t.dump()), len(t.ch) > 1, func() (string, string) {
			var exp, got []string
			var w func(t *T)
			w = func(t *T) {
				for _, c := range t.ch {
					w(c)
				}
				if kinds[t.k] {
					exp = append(exp, t.dump())
				}
			}
			w(t)
			rd := tree.Reducer{"A": nil}
			orig := map[*tree.PN]bool{}
			n := t.real(nil)
			var reg func(n *tree.PN)
			reg = func(n *tree.PN) {
				orig[n] = true
				for _, c := range n.C {
					reg(c)
				}
			}
			reg(n)
			bad := ""
			for k, on := range kinds {
				if on {
					rd.Add(k, func(p *tree.PN) {
						if orig[p] {
							bad = "reduction was given a node of the input tree"
						}
						got = append(got, pnDump(p))
					})
				}
			}
			before := pnDump(n)
			res := rd.Reduce(n)
			if bad != "" {
				return "", bad
			}
			if a := pnDump(n); a != before {
				return "input unchanged " + before, a
			}
			if e, g := t.dump(), pnDump(res); e != g {
				return e, g
			}
			return strings.Join(exp, "\n"), strings.Join(got, "\n")
		})
	}
	for i := 0; i < c.N(8000, 200000) && !c.Done(); i++ {
		t := randT(c.R, 3, 4)
		r1, r2 := randRed(c.R, 1), randRed(c.R, 1)
		c.Case(fmt.Sprintf("reducer {%s} merged with {%s} on %s", redText(r1), redText(r2), t.dump()), len(r1) > 0, func() (string, string) {
			n := t.real(nil)
			before := pnDump(n)
			rd1, rd2 := tree.Reducer{}, tree.Reducer{}
			for k, o := range r1 {
				rd1.Add(k, chainRed(o))
			}
			for k, o := range r2 {
				rd2[k] = chainRed(o)
			}
			both := map[string][]*op{}
			for _, k := range treeKinds {
				if ops := append(append([]*op{}, r1[k]...), r2[k]...); len(ops) > 0 {
					both[k] = ops
				}
			}
			m := tree.Merge(rd1, rd2)
			if e, g := reduceT(t, r1).dump(), pnDump(rd1.Reduce(n)); e != g {
				return "first: " + e, "first: " + g
			}
			if e, g := reduceT(t, both).dump(), pnDump(m.Reduce(n)); e != g {
				return "merged: " + e, "merged: " + g
			}
			if e, g := reduceT(t, r2).dump(), pnDump(rd2.RawReduce(n)); e != g {
				return "second: " + e, "second: " + g
			}
			for _, k := range treeKinds {
				x := (&T{k: k}).real(nil)
				_, want := both[k]
				if m.Can(x) != want {
					return fmt.Sprintf("Can(%s)=%v", k, want), "not"
				}
			}
			if a := pnDump(n); a != before {
				return "input unchanged " + before, a
			}
			if rd1.Reduce(nil) != nil {
				return "nil", "Reduce(nil) not nil"
			}
			return "", ""
		})
	}
}

// linked checks the parents of a whole tree; "" when right.
func linked(root parlex.ParseNode) string {
	if isNil(root) {
		return ""
	}
	if p := root.Parent(); p != nil {
		return "root has a non-nil parent"
	}
	seen := map[*tree.PN]bool{}
	var w func(n parlex.ParseNode) string
	w = func(n parlex.ParseNode) string {
		if pn, ok := n.(*tree.PN); ok {
			if seen[pn] {
				return "node " + pn.Kind().String() + " occurs twice"
			}
			seen[pn] = true
		}
		for i := 0; i < n.Children(); i++ {
			c := n.Child(i)
			if c.Parent() != n {
				return fmt.Sprintf("child %d (%s) of %s has another parent", i, c.Kind().String(), n.Kind().String())
			}
			if e := w(c); e != "" {
				return e
			}
		}
		return ""
	}
	return w(root)
}

func parents(c *Ctx) {
	for i := 0; i < c.N(12000, 200000) && !c.Done(); i++ {
		t := randT(c.R, 3, 4)
		ops := randOps(c.R, 1)
		r1 := randRed(c.R, 1)
		seed := c.R.Int63()
		c.Case(fmt.Sprintf("parents after %s and reducer {%s} on %s", chainText(ops), redText(r1), t.dump()), len(t.ch) > 1, func() (string, string) {
			n := t.real(rand.New(rand.NewSource(seed)))
			cl := tree.Clone(n)
			if e := linked(cl); e != "" {
				return "", "Clone: " + e
			}
			rd := tree.Reducer{}
			for k, o := range r1 {
				rd[k] = chainRed(o)
			}
			if e := linked(rd.Reduce(n)); e != "" {
				return "", "Reduce: " + e
			}
			for _, o := range ops {
				o.call(n)
				if e := linked(n); e != "" {
					return "", o.String() + ": " + e
				}
			}
			// operating below the root keeps the link upwards
			m := t.real(nil)
			if len(m.C) > 0 {
				for _, o := range ops {
					o.call(m.C[0])
					if e := linked(m); e != "" {
						return "", "on child 0 " + o.String() + ": " + e
					}
				}
			}
			p, err := tree.New(cl.String())
			if err != nil {
				return "no error", err.Error()
			}
			if e := linked(p); e != "" {
				return "", "New: " + e
			}
			return "", ""
		})
	}
	i := 0
	forGrammars(c, c.N(200, 5000), func(g *G, ws [][]string) {
		i++
		rg := realGrammar(g, i)
		prs := []parlex.Parser{packrat.New(rg)}
		if !g.leftRecursive() {
			td, err := topdown.New(rg)
			if err == nil {
				prs = append(prs, td)
			}
		}
		for _, w := range ws {
			for _, p := range prs {
				c.Case(fmt.Sprintf("parents of %T %s", p, gw(g, w)), len(w) > 1, func() (string, string) {
					return "", linked(p.Parse(lexemes(w)))
				})
			}
		}
	})
}

func randStr(r *rand.Rand) string {
	al := []string{"a", "b", "\"", "\\", "\n", "\t", "\r", "{", "}", ":", " ", "é", "\xff", "\x00", "\x7f", "\u2028", "n", "0", "'", "x41", "\\n"}
	var sb strings.Builder
	for i := r.Intn(6); i > 0; i-- {
		sb.WriteString(al[r.Intn(len(al))])
	}
	return sb.String()
}

func treeText(c *Ctx) {
	kinds := []string{"E", "op", "(", "+", "A*", "->", "'", "\\", "é", "x_1", "//", "NIL", "a.b", ","}
	var rt func(d int) *T
	rt = func(d int) *T {
		t := &T{k: kinds[c.R.Intn(len(kinds))], v: randStr(c.R), l: c.R.Intn(5), c: c.R.Intn(5)}
		if d > 0 {
			for i := c.R.Intn(4); i > 0; i-- {
				t.ch = append(t.ch, rt(d-1))
			}
		}
		return t
	}
	for i := 0; i < c.N(20000, 400000) && !c.Done(); i++ {
		t := rt(3)
		c.Case("text, clone and size of "+t.dump(), len(t.ch) > 0, func() (string, string) {
			n := t.real(nil)
			before := pnDump(n)
			s := n.String()
			m, err := tree.New(s)
			if err != nil {
				return "no error for " + s, err.Error()
			}
			if e, g := dump(n), dump(m); e != g {
				return "New(String()): " + e, "New(String()): " + g
			}
			cl := tree.Clone(n)
			if e, g := before, pnDump(cl); e != g {
				return "Clone: " + e, "Clone: " + g
			}
			sz := 0
			var cnt func(t *T)
			cnt = func(t *T) {
				sz++
				for _, c := range t.ch {
					cnt(c)
				}
			}
			cnt(t)
			if n.Size() != sz {
				return fmt.Sprint("Size ", sz), fmt.Sprint("Size ", n.Size())
			}
			// a clone shares nothing
			var wreck func(n *tree.PN)
			wreck = func(n *tree.PN) {
				for _, c := range n.C {
					wreck(c)
				}
				n.Lexeme.(*lexeme.Lexeme).V = "wrecked"
				n.RemoveChild(0)
			}
			wreck(cl)
			return before, pnDump(n)
		})
	}
	bad := []string{"", "\n", "}", "A {", "A {\n B\n", "A\n}", "A {\n B\n}\n}", "this is not", "A {\n{", "A : x", "A: \"x", "A\nB", "A {\n}\nB\n"}
	for _, b := range bad {
		c.Case(fmt.Sprintf("tree.New(%q)", b), true, func() (string, string) {
			n, err := tree.New(b)
			return "<nil> " + tree.ErrBadTreeString.Error(), fmt.Sprintf("%s %v", pnDump(n), err)
		})
	}
}

// textual reducers mean the same as the program they spell out.
func textReducer(c *Ctx) {
	for i := 0; i < c.N(2500, 60000) && !c.Done(); i++ {
		t := randT(c.R, 3, 4)
		rules := randRed(c.R, 2)
		var sb strings.Builder
		for _, k := range treeKinds {
			if ops, ok := rules[k]; ok {
				sep := []string{" ", "\n  ", "\t"}[c.R.Intn(3)]
				if c.R.Intn(4) == 0 { // the last rule for a kind counts
					other := randRed(c.R, 2)
					for _, k2 := range treeKinds {
						if ops, ok := other[k2]; ok {
							fmt.Fprintf(&sb, "%s%s%s\n", k, sep, chainText(ops))
						}
					}
				}
				fmt.Fprintf(&sb, "%s%s%s\n", k, sep, spaced(c.R, chainText(ops)))
				if c.R.Intn(5) == 0 {
					sb.WriteString("// comment A RemoveChild(0)\n")
				}
			}
		}
		src := sb.String()
		c.Case(fmt.Sprintf("reducer text %q on %s", src, t.dump()), len(rules) > 0, func() (string, string) {
			rd, err := treered.Parse(src)
			if err != nil {
				return "no error", err.Error()
			}
			for _, k := range treeKinds {
				_, want := rules[k]
				if rd.Can((&T{k: k}).real(nil)) != want {
					return fmt.Sprintf("Can(%s)=%v", k, want), "not"
				}
			}
			return reduceT(t, rules).dump(), pnDump(rd.Reduce(t.real(nil)))
		})
	}
	bad := []string{"A", "A RemoveChild", "A RemoveChild()", "A RemoveChildren()", "A RemoveChild(1,2)", "A Foo(1)", "A If(1,Nil,Nil)", "A RemoveAll(x)",
		"A PromoteSingleChild(0)", "A RemoveChild(0).", "A RemoveChild(0)RemoveChild(0)", "A #"}
	for _, b := range bad {
		c.Case(fmt.Sprintf("reducer.Parse(%q)", b), true, func() (string, string) {
			_, err := treered.Parse(b)
			return "error true", fmt.Sprintf("error %v", err != nil)
		})
	}
	c.Case("reducer.Parse last rule for a kind and Nil", true, func() (string, string) {
		rd, err := treered.Parse("A Nil\nB Nil.RemoveChild(0).Nil\n")
		if err != nil {
			return "no error", err.Error()
		}
		t := &T{k: "B", ch: []*T{{k: "A", ch: []*T{{k: "x"}}}, {k: "A"}}}
		return t.with(t.ch[1:]).dump(), pnDump(rd.Reduce(t.real(nil)))
	})
}

// spaced inserts blanks between tokens
func spaced(r *rand.Rand, s string) string {
	var sb strings.Builder
	for _, x := range s {
		if strings.ContainsRune("(),.", x) && r.Intn(3) == 0 {
			sb.WriteString(" " + string(x) + " ")
		} else {
			sb.WriteRune(x)
		}
	}
	return sb.String()
}

var _ = stringsymbol.Symbol("")
