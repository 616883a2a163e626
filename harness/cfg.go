package main

import (
	"fmt"
	"math/rand"
	"strings"

	"github.com/adamcolton/parlex"
	"github.com/adamcolton/parlex/grammar"
	"github.com/adamcolton/parlex/lexeme"
	"github.com/adamcolton/parlex/symbol/stringsymbol"
	"github.com/adamcolton/parlex/tree"
)

// G is the oracle's own view of a context free grammar.
type G struct {
	NTs   []string
	Prods map[string][][]string
}

func (g *G) add(nt string, syms ...string) {
	if g.Prods == nil {
		g.Prods = map[string][][]string{}
	}
	if _, ok := g.Prods[nt]; !ok {
		g.NTs = append(g.NTs, nt)
	}
	g.Prods[nt] = append(g.Prods[nt], syms)
}

func (g *G) isNT(s string) bool { _, ok := g.Prods[s]; return ok }

// String is the textual form accepted by grammar.New
func (g *G) String() string {
	var sb strings.Builder
	for _, nt := range g.NTs {
		for _, p := range g.Prods[nt] {
			fmt.Fprintf(&sb, "%s -> %s\n", nt, strings.Join(p, " "))
		}
	}
	return sb.String()
}

func (g *G) oneLine() string {
	return strings.ReplaceAll(strings.TrimSpace(g.String()), "\n", " ; ")
}

// build gives the grammar as the real grammar type.
func (g *G) build() *grammar.Grammar {
	r := grammar.Empty()
	for _, nt := range g.NTs {
		for _, p := range g.Prods[nt] {
			r.Add(stringsymbol.Symbol(nt), strProd(p))
		}
	}
	return r
}

func strProd(p []string) stringsymbol.Production {
	sp := make(stringsymbol.Production, len(p))
	for i, s := range p {
		sp[i] = stringsymbol.Symbol(s)
	}
	return sp
}

// foreign implements parlex.Grammar without the real grammar type.
type foreign struct{ g *G }

func (f foreign) Productions(s parlex.Symbol) parlex.Productions {
	ps, ok := f.g.Prods[s.String()]
	if !ok {
		return nil
	}
	out := make(stringsymbol.Productions, len(ps))
	for i, p := range ps {
		out[i] = strProd(p)
	}
	return out
}

func (f foreign) NonTerminals() []parlex.Symbol {
	out := make([]parlex.Symbol, len(f.g.NTs))
	for i, nt := range f.g.NTs {
		out[i] = stringsymbol.Symbol(nt)
	}
	return out
}

// randG makes a small random grammar. Every nonterminal used has productions.
func randG(r *rand.Rand, maxNT, maxProd, maxLen int, eps bool) *G {
	nts := []string{"S", "A", "B", "C", "D"}[:1+r.Intn(maxNT)]
	ts := []string{"a", "b", "c"}[:1+r.Intn(3)]
	g := &G{}
	for _, nt := range nts {
		n := 1 + r.Intn(maxProd)
		for i := 0; i < n; i++ {
			ln := r.Intn(maxLen + 1)
			if ln == 0 && !eps {
				ln = 1
			}
			p := make([]string, ln)
			for j := range p {
				if r.Intn(2) == 0 {
					p[j] = nts[r.Intn(len(nts))]
				} else {
					p[j] = ts[r.Intn(len(ts))]
				}
			}
			g.add(nt, p...)
		}
	}
	return g
}

// randSentence expands the grammar randomly, "" ok=false when too long.
func randSentence(r *rand.Rand, g *G, max int) ([]string, bool) {
	var out []string
	steps := 0
	var exp func(s string, d int) bool
	exp = func(s string, d int) bool {
		steps++
		if steps > 400 || d > 40 || len(out) > max {
			return false
		}
		ps, ok := g.Prods[s]
		if !ok {
			out = append(out, s)
			return len(out) <= max
		}
		p := ps[r.Intn(len(ps))]
		if d > 8 {
			// prefer short productions
			for k := 0; k < 3; k++ {
				q := ps[r.Intn(len(ps))]
				if len(q) < len(p) {
					p = q
				}
			}
		}
		for _, c := range p {
			if !exp(c, d+1) {
				return false
			}
		}
		return true
	}
	if !exp(g.NTs[0], 0) {
		return nil, false
	}
	return out, true
}

func lexemes(kinds []string) []parlex.Lexeme {
	out := make([]parlex.Lexeme, len(kinds))
	for i, k := range kinds {
		v := fmt.Sprintf("%s%d", k, i)
		switch len(kinds) % 3 {
		case 2: // equal values at different positions
			v = "v"
		case 1:
			v = []string{"v", "", v, "v"}[i%4]
		}
		out[i] = lexeme.String(k).Set(v).At(i/2, 1+i%2*(3+i))
	}
	return out
}

// chart is the least fixpoint of derivability over spans, independent of the
// parsers: D[sym][i][j] holds when sym derives lexemes i..j.
type chart struct {
	g *G
	w []string
	d map[string][][]bool
	// minProd[sym][i][j] is the lowest production index deriving the span
}

func (c *chart) has(s string, i, j int) bool {
	if !c.g.isNT(s) {
		return j == i+1 && i < len(c.w) && c.w[i] == s
	}
	return c.d[s][i][j]
}

// seq: does the symbol sequence derive i..j
func (c *chart) seq(p []string, i, j int) bool {
	n := len(c.w)
	cur := make([]bool, n+1)
	cur[i] = true
	for _, s := range p {
		next := make([]bool, n+1)
		for a := 0; a <= n; a++ {
			if cur[a] {
				for b := a; b <= n; b++ {
					if c.has(s, a, b) {
						next[b] = true
					}
				}
			}
		}
		cur = next
	}
	return cur[j]
}

func newChart(g *G, w []string) *chart {
	n := len(w)
	c := &chart{g: g, w: w, d: map[string][][]bool{}}
	for _, nt := range g.NTs {
		m := make([][]bool, n+1)
		for i := range m {
			m[i] = make([]bool, n+1)
		}
		c.d[nt] = m
	}
	for ch := true; ch; {
		ch = false
		for _, nt := range g.NTs {
			for i := 0; i <= n; i++ {
				for j := i; j <= n; j++ {
					if c.d[nt][i][j] {
						continue
					}
					for _, p := range g.Prods[nt] {
						if c.seq(p, i, j) {
							c.d[nt][i][j] = true
							ch = true
							break
						}
					}
				}
			}
		}
	}
	return c
}

func (c *chart) accepts() bool { return c.has(c.g.NTs[0], 0, len(c.w)) }

// bestProd is the lowest index of a production of nt that derives i..j.
func (c *chart) bestProd(nt string, i, j int) int {
	for k, p := range c.g.Prods[nt] {
		if c.seq(p, i, j) {
			return k
		}
	}
	return -1
}

// cyclic: is there a nonterminal deriving itself (X =>+ X)
func (g *G) cyclic() bool {
	null := g.nullable()
	edge := map[string]map[string]bool{}
	for _, nt := range g.NTs {
		edge[nt] = map[string]bool{}
		for _, p := range g.Prods[nt] {
			for k, s := range p {
				if !g.isNT(s) {
					continue
				}
				all := true
				for m, q := range p {
					if m != k && !null[q] {
						all = false
					}
				}
				if all {
					edge[nt][s] = true
				}
			}
		}
	}
	return hasCycle(g.NTs, edge)
}

func (g *G) nullable() map[string]bool {
	null := map[string]bool{}
	for ch := true; ch; {
		ch = false
		for _, nt := range g.NTs {
			if null[nt] {
				continue
			}
			for _, p := range g.Prods[nt] {
				ok := true
				for _, s := range p {
					ok = ok && null[s]
				}
				if ok {
					null[nt], ch = true, true
					break
				}
			}
		}
	}
	return null
}

func hasCycle(nts []string, edge map[string]map[string]bool) bool {
	reach := map[string]map[string]bool{}
	for _, a := range nts {
		reach[a] = map[string]bool{}
		for b := range edge[a] {
			reach[a][b] = true
		}
	}
	for _, k := range nts {
		for _, a := range nts {
			if reach[a][k] {
				for _, b := range nts {
					if reach[k][b] {
						reach[a][b] = true
					}
				}
			}
		}
	}
	for _, a := range nts {
		if reach[a][a] {
			return true
		}
	}
	return false
}

// leftRecursive is the definition: some nonterminal can begin a derivation of
// itself, looking through symbols that can vanish.
func (g *G) leftRecursive() bool {
	null := g.nullable()
	edge := map[string]map[string]bool{}
	for _, nt := range g.NTs {
		edge[nt] = map[string]bool{}
		for _, p := range g.Prods[nt] {
			for _, s := range p {
				if g.isNT(s) {
					edge[nt][s] = true
				}
				if !null[s] {
					break
				}
			}
		}
	}
	return hasCycle(g.NTs, edge)
}

// firsts is the textbook FIRST relation (terminals only).
func (g *G) firsts() map[string]map[string]bool {
	null := g.nullable()
	f := map[string]map[string]bool{}
	for _, nt := range g.NTs {
		f[nt] = map[string]bool{}
	}
	for ch := true; ch; {
		ch = false
		for _, nt := range g.NTs {
			for _, p := range g.Prods[nt] {
				for _, s := range p {
					if !g.isNT(s) {
						if !f[nt][s] {
							f[nt][s], ch = true, true
						}
						break
					}
					for t := range f[s] {
						if !f[nt][t] {
							f[nt][t], ch = true, true
						}
					}
					if !null[s] {
						break
					}
				}
			}
		}
	}
	return f
}

// checkTree verifies that node is a derivation tree of g for lxs; it returns
// "" or what is wrong.
func checkTree(g *G, node parlex.ParseNode, lxs []parlex.Lexeme) string {
	if node.Kind().String() != g.NTs[0] {
		return "root kind is " + node.Kind().String()
	}
	pos := 0
	var walk func(n parlex.ParseNode) string
	walk = func(n parlex.ParseNode) string {
		k := n.Kind().String()
		if !g.isNT(k) {
			if n.Children() != 0 {
				return "terminal " + k + " has children"
			}
			if pos >= len(lxs) {
				return "more leaves than lexemes"
			}
			lx := lxs[pos]
			if lx.Kind().String() != k {
				return fmt.Sprintf("leaf %d has kind %s, lexeme has %s", pos, k, lx.Kind().String())
			}
			if lx.Value() != n.Value() {
				return fmt.Sprintf("leaf %d has value %q, lexeme has %q", pos, n.Value(), lx.Value())
			}
			al, ac := lx.Pos()
			bl, bc := n.Pos()
			if al != bl || ac != bc {
				return fmt.Sprintf("leaf %d at (%d,%d), lexeme at (%d,%d)", pos, bl, bc, al, ac)
			}
			pos++
			return ""
		}
		var kinds []string
		for i := 0; i < n.Children(); i++ {
			kinds = append(kinds, n.Child(i).Kind().String())
		}
		ok := false
		for _, p := range g.Prods[k] {
			ok = ok || eqs(p, kinds)
		}
		if !ok {
			return fmt.Sprintf("children %v of %s are not a production", kinds, k)
		}
		if n.Value() != "" {
			return fmt.Sprintf("nonterminal %s carries value %q", k, n.Value())
		}
		for i := 0; i < n.Children(); i++ {
			if e := walk(n.Child(i)); e != "" {
				return e
			}
		}
		return ""
	}
	if e := walk(node); e != "" {
		return e
	}
	if pos != len(lxs) {
		return fmt.Sprintf("tree covers %d of %d lexemes", pos, len(lxs))
	}
	return ""
}

func eqs(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// peg is the ordered choice semantics of the top down parser.
type pegRes struct {
	ok  bool
	end int
	t   *tree.PN
}

func pegParse(g *G, lxs []parlex.Lexeme) *tree.PN {
	type key struct {
		s string
		p int
	}
	memo := map[key]pegRes{}
	var acc func(s string, p int, all bool) pegRes
	acc = func(s string, p int, all bool) pegRes {
		k := key{s, p}
		if !all {
			if r, ok := memo[k]; ok {
				return r
			}
		}
		var res pegRes
		if !g.isNT(s) {
			if p < len(lxs) && lxs[p].Kind().String() == s {
				l, c := lxs[p].Pos()
				res = pegRes{true, p + 1, &tree.PN{Lexeme: lexeme.String(s).Set(lxs[p].Value()).At(l, c)}}
			}
		} else {
		outer:
			for _, prod := range g.Prods[s] {
				pos := p
				n := &tree.PN{Lexeme: lexeme.String(s)}
				for _, c := range prod {
					r := acc(c, pos, false)
					if !r.ok {
						continue outer
					}
					n.C = append(n.C, r.t)
					pos = r.end
				}
				if all && pos != len(lxs) {
					continue
				}
				res = pegRes{true, pos, n}
				break
			}
		}
		if !all {
			memo[k] = res
		}
		return res
	}
	r := acc(g.NTs[0], 0, true)
	if !r.ok {
		return nil
	}
	return r.t
}

func dump(n parlex.ParseNode) string {
	if isNil(n) {
		return "<nil>"
	}
	var sb strings.Builder
	var w func(n parlex.ParseNode)
	w = func(n parlex.ParseNode) {
		sb.WriteString(n.Kind().String())
		if v := n.Value(); v != "" {
			fmt.Fprintf(&sb, ":%q", v)
		}
		if n.Children() > 0 {
			sb.WriteString("(")
			for i := 0; i < n.Children(); i++ {
				if i > 0 {
					sb.WriteString(" ")
				}
				w(n.Child(i))
			}
			sb.WriteString(")")
		}
	}
	w(n)
	return sb.String()
}

func isNil(n parlex.ParseNode) bool {
	if n == nil {
		return true
	}
	if pn, ok := n.(*tree.PN); ok {
		return pn == nil
	}
	return false
}

// words yields all words over ts up to length max.
func words(ts []string, max int) [][]string {
	out := [][]string{{}}
	level := [][]string{{}}
	for l := 0; l < max; l++ {
		var next [][]string
		for _, w := range level {
			for _, t := range ts {
				nw := append(append([]string{}, w...), t)
				next = append(next, nw)
			}
		}
		out = append(out, next...)
		level = next
	}
	return out
}
