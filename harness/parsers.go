package main

import (
	"fmt"
	"math/rand"
	"strings"

	"github.com/adamcolton/parlex"
	"github.com/adamcolton/parlex/analyze"
	"github.com/adamcolton/parlex/grammar"
	"github.com/adamcolton/parlex/parser/packrat"
	"github.com/adamcolton/parlex/parser/topdown"
	"github.com/adamcolton/parlex/symbol/stringsymbol"
)

// fixed grammars that have mattered: left recursion direct, indirect, hidden
// behind vanishing symbols, ambiguity, cycles, empty productions.
var fixedG = func() []*G {
	defs := []string{
		"S->S a;S->a", "S->a S;S->", "S->A S b;S->c;A->", "S->A S;S->c;A->B;B->",
		"S->A a;S->A S;S->b;A->c;A->", "S->S S;S->a;S->", "S->S;S->a", "S->A;A->S;A->a",
		"E->E o E;E->( E );E->i", "E->T o E;E->T;T->( E );T->i", "S->A A;A->a;A->",
		"S->A B;A->N;B->N;N->a;N->", "S->a S b;S->", "S->a;S->a b;S->b", "S->A b;A->a;A->a b",
		"A->B p;A->p;B->A A;B->m", "S->G S G;S->i;G->s;G->", "A->B C;A->x;B->Y;B->;C->z;Y->A",
		"S->a A;A->b A;A->", "S->A A A;A->a;A->", "S->S A;S->A;A->a;A->b",
		"A->A x;A->y;B->A z", "S->A;S->B;A->a;B->a", "S->B a;S->a;B->S b;B->b",
		"E->E p E;E->E m E;E->i", "S->L R;L->a;L->a a;R->a;R->a a;R->",
		"S->A b;A->S a;A->", "S->( S );S->", "S->A B C;A->;B->;C->S x;C->c",
	}
	var out []*G
	for _, d := range defs {
		g := &G{}
		for _, l := range strings.Split(d, ";") {
			p := strings.SplitN(l, "->", 2)
			g.add(p[0], strings.Fields(p[1])...)
		}
		out = append(out, g)
	}
	return out
}()

func (g *G) terminals() []string {
	seen := map[string]bool{}
	var out []string
	for _, nt := range g.NTs {
		for _, p := range g.Prods[nt] {
			for _, s := range p {
				if !g.isNT(s) && !seen[s] {
					seen[s] = true
					out = append(out, s)
				}
			}
		}
	}
	return out
}

// forGrammars calls f on grammars and words.
func forGrammars(c *Ctx, n int, f func(g *G, ws [][]string)) {
	emit := func(g *G, r *rand.Rand) {
		ts := g.terminals()
		max := 4
		if len(ts) > 2 {
			max = 3
		}
		if len(ts) <= 1 {
			max = 6
		}
		ws := words(ts, max)
		for k := 0; k < 6; k++ {
			if w, ok := randSentence(r, g, 8); ok {
				ws = append(ws, w)
				// a near miss
				if len(w) > 0 {
					m := append([]string{}, w...)
					m[r.Intn(len(m))] = append(ts, "zz")[r.Intn(len(ts)+1)]
					ws = append(ws, m)
				}
			}
		}
		f(g, ws)
	}
	for _, g := range fixedG {
		if c.Done() {
			return
		}
		emit(g, c.R)
	}
	for i := 0; i < n && !c.Done(); i++ {
		emit(randG(c.R, 3, 3, 3, c.R.Intn(3) > 0), c.R)
	}
}

func gw(g *G, w []string) string {
	return fmt.Sprintf("grammar{%s} lexemes%v", g.oneLine(), w)
}

// realGrammars gives the three ways a grammar reaches a parser.
func realGrammar(g *G, k int) parlex.Grammar {
	switch k % 3 {
	case 0:
		return g.build()
	case 1:
		gr, err := grammar.New(g.String())
		if err != nil {
			panic(err)
		}
		return gr
	}
	return foreign{g}
}

func topdownSound(c *Ctx) {
	i := 0
	forGrammars(c, c.N(600, 20000), func(g *G, ws [][]string) {
		if g.leftRecursive() {
			return
		}
		i++
		var p *topdown.Topdown
		ok := c.Case(fmt.Sprintf("topdown.New grammar{%s}", g.oneLine()), false, func() (string, string) {
			var err error
			p, err = topdown.New(realGrammar(g, i))
			return "<nil>", fmt.Sprint(err)
		})
		if !ok {
			return
		}
		for _, w := range ws {
			lxs := lexemes(w)
			c.Case(gw(g, w), len(w) > 1, func() (string, string) {
				n := p.Parse(lxs)
				if isNil(n) {
					if n != nil {
						return "untyped nil", "typed nil ParseNode"
					}
					return "", ""
				}
				return "", checkTree(g, n, lxs)
			})
		}
	})
}

func topdownPeg(c *Ctx) {
	i := 0
	forGrammars(c, c.N(600, 20000), func(g *G, ws [][]string) {
		if g.leftRecursive() {
			return
		}
		i++
		var p *topdown.Topdown
		ok := c.Case(fmt.Sprintf("topdown.New grammar{%s}", g.oneLine()), false, func() (string, string) {
			var err error
			p, err = topdown.New(realGrammar(g, i))
			return "<nil>", fmt.Sprint(err)
		})
		if !ok {
			return
		}
		for _, w := range ws {
			lxs := lexemes(w)
			c.Case(gw(g, w), len(w) > 1, func() (string, string) {
				e := pegParse(g, lxs)
				if e == nil {
					return "<nil>", dump(p.Parse(lxs))
				}
				return dump(e), dump(p.Parse(lxs))
			})
		}
	})
}

func packratSound(c *Ctx) {
	i := 0
	forGrammars(c, c.N(600, 20000), func(g *G, ws [][]string) {
		i++
		p := packrat.New(realGrammar(g, i))
		for _, w := range ws {
			lxs := lexemes(w)
			c.Case(gw(g, w), len(w) > 1, func() (string, string) {
				n := p.Parse(lxs)
				if isNil(n) {
					if n != nil {
						return "untyped nil", "typed nil ParseNode"
					}
					return "", ""
				}
				return "", checkTree(g, n, lxs)
			})
		}
		// lexemes that reuse a nonterminal's name are just lexemes nothing
		// in the grammar can match
		for k := 0; k < 3 && len(ws) > 1; k++ {
			w := append([]string{}, ws[c.R.Intn(len(ws))]...)
			w = append(w, "")
			at := c.R.Intn(len(w))
			copy(w[at+1:], w[at:])
			w[at] = g.NTs[c.R.Intn(len(g.NTs))]
			lxs := lexemes(w)
			c.Case(gw(g, w), true, func() (string, string) {
				if n := p.Parse(lxs); n != nil {
					return "<nil>", dump(n)
				}
				return "", ""
			})
		}
	})
}

func packratComplete(c *Ctx) {
	i := 0
	forGrammars(c, c.N(600, 20000), func(g *G, ws [][]string) {
		i++
		p := packrat.New(realGrammar(g, i))
		for _, w := range ws {
			lxs := lexemes(w)
			c.Case(gw(g, w), len(w) > 1, func() (string, string) {
				return fmt.Sprint(newChart(g, w).accepts()), fmt.Sprint(p.Parse(lxs) != nil)
			})
		}
	})
}

// packratPrefer: at the root (and at every node) the earliest production able
// to derive the node's span is used; grammars with cyclic derivations are
// excluded.
func packratPrefer(c *Ctx) {
	i := 0
	forGrammars(c, c.N(800, 20000), func(g *G, ws [][]string) {
		if g.cyclic() {
			return
		}
		i++
		p := packrat.New(realGrammar(g, i))
		for _, w := range ws {
			lxs := lexemes(w)
			c.Case(gw(g, w), len(w) > 1, func() (string, string) {
				n := p.Parse(lxs)
				if isNil(n) {
					return "", ""
				}
				ch := newChart(g, w)
				return "", preferred(g, ch, n)
			})
		}
	})
}

func preferred(g *G, ch *chart, n parlex.ParseNode) string {
	var walk func(n parlex.ParseNode, i int) (int, string)
	walk = func(n parlex.ParseNode, i int) (int, string) {
		k := n.Kind().String()
		if !g.isNT(k) {
			return i + 1, ""
		}
		var kinds []string
		j := i
		for x := 0; x < n.Children(); x++ {
			kinds = append(kinds, n.Child(x).Kind().String())
			var e string
			j, e = walk(n.Child(x), j)
			if e != "" {
				return j, e
			}
		}
		best := ch.bestProd(k, i, j)
		if best < 0 || !eqs(g.Prods[k][best], kinds) {
			return j, fmt.Sprintf("node %s over %d..%d uses %v, but production %d %v derives it too", k, i, j, kinds, best, g.Prods[k][best])
		}
		return j, ""
	}
	_, e := walk(n, 0)
	return e
}

func leftRec(c *Ctx) {
	try := func(g *G, k int) {
		want := g.leftRecursive()
		c.Case(fmt.Sprintf("IsLeftRecursive grammar{%s}", g.oneLine()), len(g.NTs) > 1, func() (string, string) {
			rg := realGrammar(g, k)
			got := parlex.IsLeftRecursive(rg)
			_, err := topdown.New(rg)
			return fmt.Sprint(want, want), fmt.Sprint(got, err == topdown.ErrLeftRecursion)
		})
	}
	for i, g := range fixedG {
		try(g, i)
	}
	for i := 0; i < c.N(20000, 400000) && !c.Done(); i++ {
		try(randG(c.R, 4, 3, 3, c.R.Intn(4) > 0), i)
	}
}

func removeLR(c *Ctx) {
	try := func(g *G, k int) {
		if len(g.nullable()) > 0 || g.cyclic() {
			return // outside the transformation's domain
		}
		c.Case(fmt.Sprintf("RemoveLeftRecursion grammar{%s}", g.oneLine()), g.leftRecursive(), func() (string, string) {
			rg := realGrammar(g, k)
			out := grammar.RemoveLeftRecursion(rg)
			og := fromReal(out)
			if og.leftRecursive() {
				return "no left recursion", "left recursive: " + og.oneLine()
			}
			if len(og.NTs) == 0 || og.NTs[0] != g.NTs[0] {
				return "start " + g.NTs[0], og.oneLine()
			}
			for _, w := range words(g.terminals(), 4) {
				a, b := newChart(g, w).accepts(), newChart(og, w).accepts()
				if a != b {
					return fmt.Sprintf("%v in language: %v", w, a), fmt.Sprintf("%v after: %s", b, og.oneLine())
				}
			}
			return "", ""
		})
	}
	for i, g := range fixedG {
		try(g, i)
	}
	for i := 0; i < c.N(4000, 80000) && !c.Done(); i++ {
		try(randG(c.R, 3, 3, 3, false), i)
	}
}

func fromReal(r parlex.Grammar) *G {
	g := &G{Prods: map[string][][]string{}}
	for _, nt := range r.NonTerminals() {
		s := nt.String()
		if _, dup := g.Prods[s]; dup {
			g.NTs = append(g.NTs, s+"(duplicate)")
			continue
		}
		g.NTs = append(g.NTs, s)
		g.Prods[s] = [][]string{}
		ps := r.Productions(nt)
		if ps == nil {
			continue
		}
		for i := 0; i < ps.Productions(); i++ {
			p := ps.Production(i)
			strs := make([]string, p.Symbols())
			for j := range strs {
				strs[j] = p.Symbol(j).String()
			}
			g.Prods[s] = append(g.Prods[s], strs)
		}
	}
	return g
}

func analyzeFirst(c *Ctx) {
	try := func(g *G, k int) {
		c.Case(fmt.Sprintf("Analyze grammar{%s}", g.oneLine()), len(g.NTs) > 1, func() (string, string) {
			a := analyze.Analyze(realGrammar(g, k))
			f := g.firsts()
			ts := g.terminals()
			left := map[string]bool{} // reaches an empty production through leftmost children
			for ch := true; ch; {
				ch = false
				for _, nt := range g.NTs {
					for _, p := range g.Prods[nt] {
						if !left[nt] && (len(p) == 0 || left[p[0]]) {
							left[nt], ch = true, true
						}
					}
				}
			}
			var exp, got strings.Builder
			for _, nt := range g.NTs {
				s := stringsymbol.Symbol(nt)
				fmt.Fprintf(&exp, "%s:%v,%v,%v ", nt, true, true, left[nt])
				fmt.Fprintf(&got, "%s:%v,%v,%v ", nt, a.NonTerminal(s), a.Contains(s), a.HasNilInFirst(s))
				for _, t := range ts {
					fmt.Fprintf(&exp, "first(%s,%s)=%v ", nt, t, f[nt][t])
					fmt.Fprintf(&got, "first(%s,%s)=%v ", nt, t, a.HasFirst(s, stringsymbol.Symbol(t)))
				}
			}
			for _, t := range append(ts, "unknown") {
				s := stringsymbol.Symbol(t)
				fmt.Fprintf(&exp, "%s:%v,%v,%v ", t, false, t != "unknown", false)
				fmt.Fprintf(&got, "%s:%v,%v,%v ", t, a.NonTerminal(s), a.Contains(s), a.HasNilInFirst(s))
			}
			return exp.String(), got.String()
		})
	}
	for i, g := range fixedG {
		try(g, i)
	}
	for i := 0; i < c.N(15000, 300000) && !c.Done(); i++ {
		try(randG(c.R, 4, 3, 3, c.R.Intn(4) > 0), i)
	}
}

