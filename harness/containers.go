package main

import (
	"errors"
	"fmt"
	"math/rand"
	"strings"

	"github.com/adamcolton/parlex"
	"github.com/adamcolton/parlex/grammar"
	"github.com/adamcolton/parlex/grammar/regexgram"
	"github.com/adamcolton/parlex/lexeme"
	"github.com/adamcolton/parlex/lexer/simplelexer"
	"github.com/adamcolton/parlex/lexer/stacklexer"
	"github.com/adamcolton/parlex/parser/packrat"
	"github.com/adamcolton/parlex/parser/topdown"
	"github.com/adamcolton/parlex/symbol/setsymbol"
	"github.com/adamcolton/parlex/symbol/stringsymbol"
	"github.com/adamcolton/parlex/tree"
)

// ---- C01 the pipeline

type stubErr struct{ *lexeme.Lexeme }

func (s *stubErr) Error() string { return "stub " + s.V }

type stubs struct {
	log  []string
	lxs  []parlex.Lexeme
	node parlex.ParseNode
}

func (s *stubs) Lex(in string) []parlex.Lexeme { s.log = append(s.log, "lex "+in); return s.lxs }
func (s *stubs) Parse(l []parlex.Lexeme) parlex.ParseNode {
	same := len(l) == len(s.lxs)
	for i := range l {
		same = same && l[i] == s.lxs[i]
	}
	s.log = append(s.log, fmt.Sprintf("parse %v", same))
	return s.node
}

type stubRed struct {
	s    *stubs
	name string
	out  parlex.ParseNode
	want *parlex.ParseNode
}

func (r *stubRed) Reduce(n parlex.ParseNode) parlex.ParseNode {
	v := "nil"
	if n != nil {
		v = n.Value()
	}
	r.s.log = append(r.s.log, fmt.Sprintf("reduce %s %s", r.name, v))
	return r.out
}
func (r *stubRed) Can(parlex.ParseNode) bool { return true }

func pipeline(c *Ctx) {
	node := func(v string) parlex.ParseNode {
		return &tree.PN{Lexeme: lexeme.String("N").Set(v)}
	}
	for i := 0; i < c.N(20000, 300000) && !c.Done(); i++ {
		s := &stubs{}
		desc := ""
		nLex := c.R.Intn(5) - 1 // -1: nil
		var errs []parlex.Lexeme
		if nLex >= 0 {
			s.lxs = []parlex.Lexeme{}
			for k := 0; k < nLex; k++ {
				lx := lexeme.String("k").Set(fmt.Sprint(k))
				if c.R.Intn(4) == 0 {
					e := &stubErr{lx}
					s.lxs = append(s.lxs, e)
					errs = append(errs, e)
					desc += "!"
				} else {
					s.lxs = append(s.lxs, lx)
					desc += "."
				}
			}
		} else {
			desc = "nil"
		}
		if c.R.Intn(4) > 0 {
			s.node = node("p")
		}
		desc += fmt.Sprintf(" parse=%v reducers", s.node != nil)
		var reds []parlex.Reducer
		type rd struct {
			isNil, outNil bool
		}
		var rds []rd
		for k := c.R.Intn(4); k > 0; k-- {
			if c.R.Intn(4) == 0 {
				reds = append(reds, nil)
				rds = append(rds, rd{isNil: true})
				desc += " nil"
				continue
			}
			r := &stubRed{s: s, name: fmt.Sprint(len(reds))}
			x := rd{outNil: c.R.Intn(5) == 0}
			if !x.outNil {
				r.out = node("r" + r.name)
			}
			desc += fmt.Sprintf(" outnil=%v", x.outNil)
			reds = append(reds, r)
			rds = append(rds, x)
		}
		viaRunner := c.R.Intn(2) == 0
		c.Case(fmt.Sprintf("Run lexemes=%s runner=%v", desc, viaRunner), len(reds) > 0, func() (string, string) {
			var n parlex.ParseNode
			var err error
			s.log = nil
			if viaRunner {
				n, err = parlex.New(s, s, reds...).Run("in")
			} else {
				n, err = parlex.Run("in", s, s, reds...)
			}
			exp := []string{"lex in"}
			wantErr, wantN := error(nil), parlex.ParseNode(nil)
			switch {
			case s.lxs == nil:
				wantErr = parlex.ErrCouldNotLex
			case len(errs) > 0:
				wantErr = errs[0].(error)
			default:
				exp = append(exp, "parse true")
				if s.node == nil {
					wantErr = parlex.ErrCouldNotParse
					break
				}
				wantN = s.node
				for k, r := range rds {
					if r.isNil {
						continue
					}
					exp = append(exp, fmt.Sprintf("reduce %d %s", k, wantN.Value()))
					if r.outNil {
						wantErr, wantN = parlex.ErrCouldNotReduce, nil
						break
					}
					wantN = reds[k].(*stubRed).out
				}
			}
			le := parlex.LexErrors(s.lxs)
			if len(le) != len(errs) {
				return fmt.Sprint("LexErrors ", len(errs)), fmt.Sprint("LexErrors ", len(le))
			}
			for k := range le {
				if parlex.Lexeme(le[k]) != errs[k] {
					return "LexErrors in order", "another order"
				}
			}
			if n != wantN {
				return "the result of the last stage", "another node"
			}
			return fmt.Sprint(exp, wantErr), fmt.Sprint(s.log, err)
		})
	}
}

// ---- C02 symbol set

func symbolSet(c *Ctx) {
	names := []string{"", "a", "b", "A", "a b", "é", "'", "Error", "START", "x1", "x2", "x3", "x4", "x5"}
	for i := 0; i < c.N(4000, 80000) && !c.Done(); i++ {
		var script []string
		n := 1 + c.R.Intn(40)
		seed := c.R.Int63()
		c.Case(fmt.Sprintf("set operations seed=%d n=%d", seed, n), n > 5, func() (string, string) {
			r := rand.New(rand.NewSource(seed))
			s, other := setsymbol.New(), setsymbol.New()
			for k := 0; k < 3; k++ {
				other.Str(names[len(names)-1-k])
			}
			var want []string // index to string
			idx := map[string]int{}
			type held struct {
				s   *setsymbol.Symbol
				str string
			}
			var hold []held
			fail := func(e, g interface{}) (string, string) {
				return fmt.Sprintf("%v after %v", e, script), fmt.Sprint(g)
			}
			intern := func(str string) int {
				if j, ok := idx[str]; ok {
					return j
				}
				idx[str] = len(want)
				want = append(want, str)
				return len(want) - 1
			}
			script = nil
			for k := 0; k < n; k++ {
				str := names[r.Intn(len(names))]
				var got *setsymbol.Symbol
				op := r.Intn(7)
				script = append(script, fmt.Sprintf("%d(%q)", op, str))
				switch op {
				case 0:
					got = s.Str(str)
				case 1:
					got = s.Symbol(stringsymbol.Symbol(str))
				case 2:
					got = s.Symbol(other.Str(str))
				case 3:
					if len(hold) > 0 {
						h := hold[r.Intn(len(hold))]
						str = h.str
						got = s.Symbol(h.s)
					}
				case 4:
					_, has := idx[str]
					if s.Has(str) != has {
						return fail(has, s.Has(str))
					}
					var f parlex.Symbol = stringsymbol.Symbol(str)
					if r.Intn(2) == 0 {
						f = other.Str(str)
					}
					if h := s.HasSymbol(f); (h != nil) != has || (has && h.Idx() != idx[str]) {
						return fail("HasSymbol", h)
					}
					j := s.Idx(f)
					if (has && j != idx[str]) || (!has && j != -1) {
						return fail("Idx", j)
					}
				case 5:
					j := r.Intn(len(want)+4) - 2
					got := s.ByIdx(j)
					if j < 0 || j >= len(want) {
						if got != nil {
							return fail("nil ByIdx", j)
						}
					} else if got.String() != want[j] || got.Idx() != j {
						return fail(want[j], got.String())
					}
				case 6:
					p := s.Production(stringsymbol.Symbol(str), other.Str("b"))
					intern(str)
					intern("b")
					if p.String() != str+" b" {
						return fail(str+" b", p.String())
					}
				}
				if got != nil {
					j := intern(str)
					if got.Idx() != j || got.String() != str {
						return fail(fmt.Sprint(j, str), fmt.Sprint(got.Idx(), got.String()))
					}
					hold = append(hold, held{got, str})
				}
				if s.Size() != len(want) {
					return fail(len(want), s.Size())
				}
				for _, h := range hold {
					if h.s.String() != h.str || h.s.Idx() != idx[h.str] {
						return fail("stable "+h.str, h.s.String())
					}
				}
			}
			if s.Symbol(nil) != nil {
				return fail("nil", "Symbol(nil)")
			}
			return "", ""
		})
	}
}

// ---- C03 productions

func prodStr(p parlex.Production) string {
	var o []string
	for i := 0; i < p.Symbols(); i++ {
		o = append(o, p.Symbol(i).String())
	}
	return strings.Join(o, " ")
}

func iterStr(p parlex.Production) string {
	var o []string
	i := p.Iter()
	for i.Next() {
		if i.Idx != len(o) {
			o = append(o, fmt.Sprint("bad index ", i.Idx))
		}
		o = append(o, i.Symbol.String())
	}
	if i.Next() || i.Next() {
		o = append(o, "iterator restarted")
	}
	return strings.Join(o, " ")
}

func prodsStr(p parlex.Productions) string {
	var o []string
	for i := 0; i < p.Productions(); i++ {
		o = append(o, "["+prodStr(p.Production(i))+"]")
	}
	return strings.Join(o, "")
}

func prodsIter(p parlex.Productions) string {
	var o []string
	it := p.Iter()
	for it.Next() {
		if it.Idx != len(o) {
			o = append(o, fmt.Sprint("bad index ", it.Idx))
		}
		o = append(o, "["+iterStr(it.Production)+"]")
	}
	if it.Next() || it.Next() {
		o = append(o, "iterator restarted")
	}
	return strings.Join(o, "")
}

func productions(c *Ctx) {
	names := []string{"a", "b", "c", "D", "E"}
	for i := 0; i < c.N(5000, 100000) && !c.Done(); i++ {
		var all [][]string
		for k := c.R.Intn(5); k > 0; k-- {
			p := []string{}
			for j := c.R.Intn(6); j > 0; j-- {
				p = append(p, names[c.R.Intn(5)])
			}
			all = append(all, p)
		}
		seed := c.R.Int63()
		c.Case(fmt.Sprintf("productions %q seed=%d", all, seed), len(all) > 0, func() (string, string) {
			r := rand.New(rand.NewSource(seed))
			s, o := setsymbol.New(), setsymbol.New()
			o.Str("E")
			want := ""
			var sp stringsymbol.Productions
			sps := s.Productions()
			var early parlex.Productions = nil
			for k, p := range all {
				want += "[" + strings.Join(p, " ") + "]"
				sp = append(sp, strProd(p))
				var prod parlex.Production = strProd(p)
				switch r.Intn(4) {
				case 0:
					prod = s.CastProduction(prod)
				case 1:
					prod = o.CastProduction(prod)
				case 2:
					q := s.Production()
					for _, x := range p {
						q.AddSymbols(stringsymbol.Symbol(x))
					}
					prod = q
				}
				if e, g := strings.Join(p, " "), prodStr(prod); e != g {
					return e, g
				}
				if e, g := strings.Join(p, " "), iterStr(prod); e != g {
					return "iter " + e, g
				}
				sps.AddProductions(prod)
				if k == 0 {
					early = s.Productions(prod)
				}
			}
			if early != nil && len(all) > 0 {
				// copies handed out are independent of each other
				x, y := early.Production(0).(*setsymbol.Production), early.Production(0).(*setsymbol.Production)
				x.AddSymbols(stringsymbol.Symbol("X"))
				y.AddSymbols(stringsymbol.Symbol("Y"))
				b := strings.TrimSpace(strings.Join(all[0], " ") + " X")
				if prodStr(x) != b {
					return b, prodStr(x)
				}
			}
			cast := o.CastProductions(sps)
			for k, ps := range []parlex.Productions{sp, sps, cast, stringsymbol.CastProductions(sps), s.CastProductions(sp), s.CastProductions(sps), stringsymbol.CastProductions(cast)} {
				if g := prodsStr(ps); g != want {
					return fmt.Sprint(k, want), fmt.Sprint(k, g)
				}
				if g := prodsIter(ps); g != want {
					return fmt.Sprint("iter ", k, want), fmt.Sprint("iter ", k, g)
				}
				if ps.Production(ps.Productions()) != nil {
					return "nil past the end", "not nil"
				}
				for j := 0; j < ps.Productions(); j++ {
					p := ps.Production(j)
					if p.Symbol(p.Symbols()) != nil {
						return "nil past the end", "not nil"
					}
				}
			}
			// casting one set's symbols to another keeps the strings
			for _, p := range all {
				a := s.CastProduction(o.CastProduction(strProd(p)))
				if e, g := strings.Join(p, " "), a.String(); e != g {
					return e, g
				}
			}
			return "", ""
		})
	}
}

// ---- C04 grammar container

func grammars(c *Ctx) {
	for i := 0; i < c.N(6000, 100000) && !c.Done(); i++ {
		g := &G{}
		type line struct {
			nt string
			p  []string
		}
		var ls []line
		names := []string{"S", "A", "B", "a", "b", "c"}
		for k := c.R.Intn(9); k > 0; k-- {
			nt := names[c.R.Intn(3)]
			p := []string{}
			for j := c.R.Intn(4); j > 0; j-- {
				p = append(p, names[c.R.Intn(6)])
			}
			g.add(nt, p...)
			ls = append(ls, line{nt, p})
		}
		if g.Prods == nil {
			g.Prods = map[string][][]string{}
		}
		seed := c.R.Int63()
		c.Case(fmt.Sprintf("grammar lines %v seed=%d", ls, seed), len(ls) > 1, func() (string, string) {
			r := rand.New(rand.NewSource(seed))
			view := func(x parlex.Grammar) string {
				return fromReal(x).oneLine()
			}
			// Add, with reads in between that must not matter
			a := grammar.Empty()
			os := setsymbol.New()
			for _, l := range ls {
				var from parlex.Symbol = stringsymbol.Symbol(l.nt)
				if r.Intn(2) == 0 {
					from = os.Str(l.nt)
				}
				var to parlex.Production = strProd(l.p)
				switch r.Intn(3) {
				case 0:
					to = os.CastProduction(to)
				case 1:
					if len(l.p) == 0 {
						to = nil
					}
				}
				if r.Intn(3) == 0 {
					a.Productions(stringsymbol.Symbol(fmt.Sprint("probe", r.Intn(3))))
					view(a)
					_ = a.String()
				}
				a.Add(from, to)
			}
			if e, g := g.oneLine(), view(a); e != g {
				return "Add: " + e, "Add: " + g
			}
			// text, with the nonterminal omitted when it repeats
			var sb strings.Builder
			last := ""
			for _, l := range ls {
				nt := l.nt
				if nt == last && r.Intn(2) == 0 {
					nt = ""
				}
				last = l.nt
				fmt.Fprintf(&sb, "%s%s%s->%s%s\n", []string{"", "  ", "\t"}[r.Intn(3)], nt, []string{" ", "   "}[r.Intn(2)],
					[]string{" ", "  "}[r.Intn(2)], strings.Join(l.p, []string{" ", "  "}[r.Intn(2)]))
				if r.Intn(4) == 0 {
					sb.WriteString("\n  \n")
				}
			}
			b, err := grammar.New(sb.String())
			if err != nil {
				return "no error", err.Error()
			}
			if e, g := g.oneLine(), view(b); e != g {
				return "New: " + e, "New: " + g + " from " + sb.String()
			}
			for _, x := range []*grammar.Grammar{a, b} {
				for _, n := range append(names, "unknown") {
					if p := x.Productions(stringsymbol.Symbol(n)); (p != nil) != g.isNT(n) {
						return fmt.Sprintf("productions of %s: %v", n, g.isNT(n)), fmt.Sprint(p)
					}
				}
				// the slice of nonterminals is a copy
				nts := x.NonTerminals()
				for k := range nts {
					nts[k] = nil
				}
				if e, g := g.oneLine(), view(x); e != g {
					return "reads: " + e, "reads: " + g
				}
			}
			return "", ""
		})
	}
}

// ---- text round trips of grammars and lexers

func grammarText(c *Ctx) {
	syms := []string{"S", "A'", "(", ")", "+", "é", "x_1", "->x"[2:], "//", "A*", "ααα", "\"", "|"}
	for i := 0; i < c.N(6000, 100000) && !c.Done(); i++ {
		g := &G{Prods: map[string][][]string{}}
		for k := c.R.Intn(8); k > 0; k-- {
			p := []string{}
			for j := c.R.Intn(4); j > 0; j-- {
				p = append(p, syms[c.R.Intn(len(syms))])
			}
			g.add(syms[c.R.Intn(5)], p...)
		}
		c.Case("grammar text of "+g.oneLine(), len(g.NTs) > 1, func() (string, string) {
			a := g.build()
			s := a.String()
			b, err := grammar.New(s)
			if err != nil {
				return "no error for " + s, err.Error()
			}
			if e, x := g.oneLine(), fromReal(b).oneLine(); e != x {
				return e, x + " from " + s
			}
			return s, b.String()
		})
	}
}

func lexerText(c *Ctx) {
	for i := 0; i < c.N(3000, 60000) && !c.Done(); i++ {
		rs := randRules(c.R, c.R.Intn(6))
		for _, r := range rs {
			if c.R.Intn(3) == 0 {
				r.kind = []string{"a+", "b", "ab", "xé"}[c.R.Intn(4)]
				if c.R.Intn(2) == 0 {
					r.re = r.kind
				}
			}
		}
		seen := map[string]bool{}
		dup := false
		for _, r := range rs {
			dup = dup || seen[r.kind]
			seen[r.kind] = true
		}
		ins := []string{randInput(c.R, 10), randInput(c.R, 10)}
		c.Case(fmt.Sprintf("lexer text of {%s} inputs %q", ruleText(rs), ins), len(rs) > 1, func() (string, string) {
			a, err := simplelexer.New(ruleText(rs))
			if dup {
				return "true", fmt.Sprint(err != nil)
			}
			if err != nil {
				return "no error", err.Error()
			}
			b, err := simplelexer.New(a.String())
			if err != nil {
				return "no error for " + a.String(), err.Error()
			}
			for _, in := range ins {
				if e, g := showToks(toks(a.Lex(in)), true), showToks(toks(b.Lex(in)), true); e != g {
					return e, g
				}
				a.ByPriority()
				b.ByPriority()
			}
			return a.String(), b.String()
		})
	}
}

// ---- C05 regular expression grammars

type rx struct {
	op string // sym opt rep or grp
	s  string
	ch []*rx
}

func (x *rx) text(r *rand.Rand) string {
	switch x.op {
	case "sym":
		return x.s
	case "opt":
		return x.ch[0].text(r) + "?"
	case "rep":
		return x.ch[0].text(r) + "*"
	case "or":
		var o []string
		for _, c := range x.ch {
			o = append(o, c.text(r))
		}
		return strings.Join(o, []string{"|", " | "}[r.Intn(2)])
	}
	var o []string
	for _, c := range x.ch {
		o = append(o, c.text(r))
	}
	return "(" + strings.Join(o, " ") + ")"
}

func randRx(r *rand.Rand, d int, syms []string) *rx {
	if d == 0 || r.Intn(3) == 0 {
		return &rx{op: "sym", s: syms[r.Intn(len(syms))]}
	}
	atom := func() *rx {
		if r.Intn(2) == 0 {
			return &rx{op: "sym", s: syms[r.Intn(len(syms))]}
		}
		g := &rx{op: "grp"}
		for i := r.Intn(3); i >= 0; i-- {
			if r.Intn(8) > 0 {
				g.ch = append(g.ch, randRx(r, d-1, syms))
			}
		}
		return g
	}
	mod := func() *rx {
		switch r.Intn(3) {
		case 0:
			return &rx{op: "opt", ch: []*rx{atom()}}
		case 1:
			return &rx{op: "rep", ch: []*rx{atom()}}
		}
		return atom()
	}
	if r.Intn(3) == 0 {
		o := &rx{op: "or"}
		for i := 2 + r.Intn(2); i > 0; i-- {
			o.ch = append(o.ch, mod())
		}
		return o
	}
	return mod()
}

// rxGrammar is an independent translation: every operator becomes its own
// fresh nonterminal.
func rxGrammar(prods [][2]interface{}) *G {
	g := &G{}
	n := 0
	var conv func(x *rx) string
	type pend struct {
		nt string
		p  []string
	}
	var extra []pend
	fresh := func() string { n++; return fmt.Sprintf("#%d", n) }
	conv = func(x *rx) string {
		if x.op == "sym" {
			return x.s
		}
		nt := fresh()
		var ch []string
		for _, c := range x.ch {
			ch = append(ch, conv(c))
		}
		switch x.op {
		case "opt":
			extra = append(extra, pend{nt, ch}, pend{nt, nil})
		case "rep":
			extra = append(extra, pend{nt, append(ch, nt)}, pend{nt, nil})
		case "or":
			for _, c := range ch {
				extra = append(extra, pend{nt, []string{c}})
			}
		case "grp":
			extra = append(extra, pend{nt, ch})
		}
		return nt
	}
	for _, p := range prods {
		var seq []string
		for _, x := range p[1].([]*rx) {
			seq = append(seq, conv(x))
		}
		g.add(p[0].(string), seq...)
	}
	for _, e := range extra {
		g.add(e.nt, e.p...)
	}
	return g
}

func regexGram(c *Ctx) {
	for i := 0; i < c.N(500, 12000) && !c.Done(); i++ {
		nts := []string{"S", "A"}[:1+c.R.Intn(2)]
		syms := append([]string{"a", "b", "a_b"}, nts...)
		if c.R.Intn(2) == 0 {
			syms = []string{"a", "b", "a", "a_b"}
		}
		var prods [][2]interface{}
		var sb strings.Builder
		for _, nt := range nts {
			for k := c.R.Intn(2); k >= 0; k-- {
				var seq []*rx
				for j := c.R.Intn(3); j > 0; j-- {
					seq = append(seq, randRx(c.R, 2, syms))
				}
				prods = append(prods, [2]interface{}{nt, seq})
				var o []string
				for _, x := range seq {
					o = append(o, x.text(c.R))
				}
				head := nt
				if k == 0 && len(prods) > 1 && prods[len(prods)-2][0] == nt && c.R.Intn(2) == 0 {
					head = "  "
				}
				fmt.Fprintf(&sb, "%s -> %s\n", head, strings.Join(o, " "))
				if c.R.Intn(5) == 0 {
					sb.WriteString("  // remark -> x\n")
				}
			}
		}
		text := sb.String()
		want := rxGrammar(prods)
		c.Case(fmt.Sprintf("regexgram %q", text), strings.ContainsAny(text, "?*|"), func() (string, string) {
			rg, rd, err := regexgram.New(text)
			if err != nil {
				return "no error", err.Error()
			}
			got := fromReal(rg)
			if len(got.NTs) == 0 || got.NTs[0] != "S" {
				return "start S", got.oneLine()
			}
			for _, w := range words([]string{"a", "b", "a_b"}, 3) {
				e, g := newChart(want, w).accepts(), newChart(got, w).accepts()
				if e != g {
					return fmt.Sprintf("%v in language: %v", w, e), fmt.Sprintf("%v, grammar %s", g, got.oneLine())
				}
			}
			// the reducer removes exactly the generated symbols
			if got.cyclic() {
				return "", ""
			}
			p := packrat.New(rg)
			for _, w := range words([]string{"a", "b", "a_b"}, 2) {
				n := p.Parse(lexemes(w))
				if n == nil {
					continue
				}
				e, g := flat(n), pnDump(rd.Reduce(n))
				if e != g {
					return "reduced " + e, g
				}
			}
			return "", ""
		})
	}
	bad := []string{"", "S", "-> a\n", "S -> a -> b\n", "S -> (a\n", "S -> a)\n", "S -> a**\n", "S -> |a\n", "S -> *\n", "S -> a #\n"}
	for _, b := range bad {
		c.Case(fmt.Sprintf("regexgram.New(%q)", b), true, func() (string, string) {
			_, _, err := regexgram.New(b)
			return "error true", fmt.Sprintf("error %v", err != nil)
		})
	}
}

// flat is the tree with every generated node replaced by its children.
func flat(n parlex.ParseNode) string {
	var conv func(n parlex.ParseNode) []*T
	conv = func(n parlex.ParseNode) []*T {
		var ch []*T
		for i := 0; i < n.Children(); i++ {
			ch = append(ch, conv(n.Child(i))...)
		}
		if strings.HasSuffix(n.Kind().String(), "*") {
			return ch
		}
		l, c := n.Pos()
		return []*T{{n.Kind().String(), n.Value(), l, c, ch}}
	}
	ts := conv(n)
	if len(ts) != 1 {
		return "root was generated"
	}
	return ts[0].dump()
}

// ---- C22 independence of history

func history(c *Ctx) {
	for i := 0; i < c.N(800, 20000) && !c.Done(); i++ {
		rs := randRules(c.R, 1+c.R.Intn(5))
		subs := randSubs(c.R)
		text := stackText(subs)
		o := randOpts(c.R, 0)
		var ins []string
		for k := 0; k < 5; k++ {
			ins = append(ins, randInput(c.R, 10))
		}
		c.Case(fmt.Sprintf("lexers reused {%s} {%s} %v inputs %q", ruleText(rs), text, o, ins), true, func() (string, string) {
			a, err := buildSimple(rs, o, 0)
			if err != nil {
				return "no error", err.Error()
			}
			b, err := buildStack(text, o)
			if err != nil {
				return "no error", err.Error()
			}
			def := a.String()
			type kept struct {
				lxs  []parlex.Lexeme
				show string
			}
			var keep []kept
			for _, in := range ins {
				fa, _ := buildSimple(rs, o, 0)
				fb, _ := buildStack(text, o)
				for _, pr := range [][2]parlex.Lexer{{a, fa}, {b, fb}} {
					x := pr[0].Lex(in)
					e, g := showToks(toks(pr[1].Lex(in)), true), showToks(toks(x), true)
					if e != g {
						return fmt.Sprintf("fresh %T on %q: %s", pr[0], in, e), "reused: " + g
					}
					keep = append(keep, kept{x, g})
				}
			}
			for _, k := range keep {
				if g := showToks(toks(k.lxs), true); g != k.show {
					return "earlier result " + k.show, "changed to " + g
				}
			}
			return def, a.String()
		})
	}
	n := 0
	forGrammars(c, c.N(150, 4000), func(g *G, ws [][]string) {
		n++
		rg := realGrammar(g, n)
		prs := map[string][2]func() parlex.Parser{}
		pr := packrat.New(rg)
		prs["packrat"] = [2]func() parlex.Parser{func() parlex.Parser { return pr }, func() parlex.Parser { return packrat.New(realGrammar(g, n)) }}
		if td, err := topdown.New(rg); err == nil {
			prs["topdown"] = [2]func() parlex.Parser{func() parlex.Parser { return td }, func() parlex.Parser { t, _ := topdown.New(realGrammar(g, n)); return t }}
		}
		c.R.Shuffle(len(ws), func(i, j int) { ws[i], ws[j] = ws[j], ws[i] })
		if len(ws) > 25 {
			ws = ws[:25]
		}
		for name, p := range prs {
			c.Case(fmt.Sprintf("%s reused grammar{%s} for %v", name, g.oneLine(), ws), true, func() (string, string) {
				before := g.oneLine()
				var keep []parlex.ParseNode
				var show []string
				for _, w := range ws {
					w2 := append([]string{}, w...)
					if c.R.Intn(4) == 0 {
						w2 = append(w2, "unheard")
					}
					lxs := lexemes(w2)
					in := showToks(toks(lxs), true)
					x := p[0]().Parse(lxs)
					if a := showToks(toks(lxs), true); a != in {
						return "lexemes " + in, a
					}
					e, got := pnDump(p[1]().Parse(lexemes(w2))), pnDump(x)
					if e != got {
						return fmt.Sprintf("fresh on %v: %s", w2, e), got
					}
					keep = append(keep, x)
					show = append(show, got)
				}
				for i := range keep {
					if g := pnDump(keep[i]); g != show[i] {
						return "earlier tree " + show[i], g
					}
				}
				return before, fromReal(rg).oneLine()
			})
		}
	})
}

// ---- C15 positions survive the whole pipeline

func positions(c *Ctx) {
	simpleCheck(true)(c)
	stackCheck(true)(c)
	for i := 0; i < c.N(1500, 30000) && !c.Done(); i++ {
		in := randInput(c.R, 20)
		c.Case(fmt.Sprintf("positions through parse and reduce of %q", in), len(in) > 2, func() (string, string) {
			sl, _ := simplelexer.New("w /[^\\s]+/\nsp /\\s+/ -")
			st, err := stacklexer.New("== M ==\n w /[^\\s]+/\n sp /\\s+/ -\n")
			if err != nil {
				return "no error", err.Error()
			}
			g, _ := grammar.New("L -> w L\n ->")
			for _, lx := range []parlex.Lexer{sl, st} {
				td, err := topdown.New(g)
				if err != nil {
					return "no error", err.Error()
				}
				for _, p := range []parlex.Parser{packrat.New(g), td} {
					lxs := lx.Lex(in)
					n, err := parlex.Run(in, lx, p, tree.Reducer{"L": tree.PromoteChildrenOf(-1)})
					if err != nil {
						if errors.Is(err, parlex.ErrCouldNotParse) {
							return "parsed", err.Error()
						}
						return "", ""
					}
					var e, got []string
					for _, l := range lxs {
						e = append(e, showToks(toks([]parlex.Lexeme{l}), true))
					}
					for k := 0; k < n.Children(); k++ {
						got = append(got, showToks(toks([]parlex.Lexeme{n.Child(k)}), true))
					}
					if a, b := strings.Join(e, " "), strings.Join(got, " "); a != b {
						return a, b
					}
				}
			}
			return "", ""
		})
	}
}

func init() {
	small := "random and fixed cases, seeded; "
	register("C01", small+"pipelines of at most 4 lexemes and 3 reducers", pipeline)
	register("C02", small+"histories of at most 40 operations on 14 names", symbolSet)
	register("C03", small+"at most 4 productions of at most 5 symbols", productions)
	register("C04", small+"at most 8 productions over 6 symbols; text of at most 7 productions over 13 symbols", func(c *Ctx) { grammars(c); grammarText(c) })
	register("C05", small+"at most 2 nonterminals, expressions of depth 2, language compared on all words up to length 3", regexGram)
	gb := small + "grammars of at most 3 nonterminals x 3 productions x 3 symbols, all words up to length 3-6 plus random sentences up to 8"
	register("C06", small+"grammars of at most 4 nonterminals x 3 productions x 3 symbols", leftRec)
	register("C07", small+"grammars of at most 3x3x3 without empty or cyclic derivations, language compared on all words up to length 4", removeLR)
	register("C08", gb, topdownSound)
	register("C09", gb, topdownPeg)
	register("C10", gb, packratSound)
	register("C11", gb, packratComplete)
	register("C12", gb, packratPrefer)
	register("C13", small+"at most 5 rules, inputs up to 12 characters", func(c *Ctx) { simpleCheck(false)(c); lexerText(c) })
	register("C14", small+"at most 4 sub-lexers x 3 rules, inputs up to 14 characters", func(c *Ctx) { stackCheck(false)(c); stackDefs(c) })
	register("C15", small+"as C13 and C14, with positions, and through parse and reduce", positions)
	register("C16", small+"trees of depth 3 and width 4, up to 5 operations in a row", treeOps)
	register("C17", small+"trees of depth 3 and width 4, reducers over 5 kinds", reducers)
	register("C18", small+"trees of depth 3 and width 4; parse trees as C08 and C10", parents)
	register("C19", small+"trees of depth 3 and width 3, hostile values", treeText)
	register("C20", small+"grammars of at most 4 nonterminals x 3 productions x 3 symbols", analyzeFirst)
	register("C21", small+"trees of depth 3 and width 4, reducer texts over 5 kinds", textReducer)
	register("C22", small+"5 inputs per lexer, 25 words per parser", history)
}
