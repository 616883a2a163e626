package main

import (
	"fmt"
	"math/rand"
	"regexp"
	"sort"
	"strings"

	"github.com/adamcolton/parlex"
	"github.com/adamcolton/parlex/lexer/simplelexer"
	"github.com/adamcolton/parlex/lexer/stacklexer"
)

// LR is a lexer rule as the oracle sees it.
type LR struct {
	kind, re string
	discard  bool
	groups   string // stacklexer only, raw text between the parentheses
	push     string
	pop      int
	anch     *regexp.Regexp
}

func (r *LR) match(b []byte) []int {
	if r.anch == nil {
		r.anch = regexp.MustCompile(`\A(?:` + r.re + `)`)
	}
	return r.anch.FindSubmatchIndex(b)
}

// tok is an expected or observed lexeme.
type tok struct {
	kind, val string
	l, c      int
	err       bool
}

func toks(lxs []parlex.Lexeme) []tok {
	out := make([]tok, len(lxs))
	for i, lx := range lxs {
		l, c := lx.Pos()
		_, e := lx.(parlex.LexError)
		out[i] = tok{lx.Kind().String(), lx.Value(), l, c, e}
	}
	return out
}

func showToks(ts []tok, pos bool) string {
	var sb strings.Builder
	for _, t := range ts {
		e := ""
		if t.err {
			e = "!"
		}
		if pos {
			fmt.Fprintf(&sb, "%s%s:%q@%d,%d ", e, t.kind, t.val, t.l, t.c)
		} else {
			fmt.Fprintf(&sb, "%s%s:%q ", e, t.kind, t.val)
		}
	}
	return sb.String()
}

// position is computed by walking the input from its start.
func position(b []byte, at, base int) (int, int) {
	l, c := base, 1
	for i := 0; i < at; i++ {
		if b[i] == '\n' {
			l++
			c = 1
		} else {
			c++
		}
	}
	return l, c
}

// choose picks the rule at cur: the end of its match, and -1 for no rule.
func choose(rules []*LR, b []byte, cur int, byPriority bool) (int, []int) {
	best, bestEnd := -1, 0
	var bestLoc []int
	for i, r := range rules {
		loc := r.match(b[cur:])
		if loc == nil || loc[1] == 0 {
			continue
		}
		if best == -1 || (!byPriority && loc[1] > bestEnd) {
			best, bestEnd, bestLoc = i, loc[1], loc
		}
	}
	return best, bestLoc
}

type lexOpts struct {
	byPriority      bool
	startK, startV  string
	endK, endV      string
	errKind         string
	base            int
	ignoreInsertPos bool
}

func simpleOracle(rules []*LR, in string, o lexOpts) []tok {
	b := []byte(in)
	var out []tok
	if o.startK != "" {
		out = append(out, tok{o.startK, o.startV, -1, 0, false})
	}
	errAt := -1
	flush := func(end int) {
		if errAt >= 0 {
			l, c := position(b, errAt, o.base)
			out = append(out, tok{o.errKind, string(b[errAt:end]), l, c, true})
			errAt = -1
		}
	}
	cur := 0
	for cur < len(b) {
		i, loc := choose(rules, b, cur, o.byPriority)
		if i < 0 {
			if errAt < 0 {
				errAt = cur
			}
			cur++
			continue
		}
		flush(cur)
		if !rules[i].discard {
			l, c := position(b, cur, o.base)
			out = append(out, tok{rules[i].kind, string(b[cur : cur+loc[1]]), l, c, false})
		}
		cur += loc[1]
	}
	flush(cur)
	if o.endK != "" {
		out = append(out, tok{o.endK, o.endV, -1, 0, false})
	}
	return out
}

var rePool = []string{
	`a`, `b`, `ab`, `aab`, `a+`, `a*`, `b*`, `(ab)+`, `[ab]+`, `\d+`, `\w+`, `\s+`, `[ \t]+`, `\n`, `\n+`, `.`, `a|ab`, `ab|a`,
	`a?b`, `x[^x]*x`, `\"[^\"]*\"`, `é+`, `(a|b)c`, `c(a)?(b)?`, `(a)(b)?c*`, `ba*`, `a\nb`, `[^a]`, `()`, `b?`, `aa|a`, `a+b|a`,
}

var kindPool = []string{"k1", "k2", "k3", "k4", "k5", "Error", "Oops"}

func randInput(r *rand.Rand, n int) string {
	al := []string{"a", "a", "a", "b", "b", "c", " ", "\n", "1", "x", "é", "\xff", "\"", "\t"}
	var sb strings.Builder
	for i := r.Intn(n + 1); i > 0; i-- {
		sb.WriteString(al[r.Intn(len(al))])
	}
	return sb.String()
}

func randRules(r *rand.Rand, n int) []*LR {
	var out []*LR
	perm := r.Perm(len(kindPool))
	for i := 0; i < n; i++ {
		out = append(out, &LR{kind: kindPool[perm[i]], re: rePool[r.Intn(len(rePool))], discard: r.Intn(4) == 0})
	}
	return out
}

func ruleText(rs []*LR) string {
	var sb strings.Builder
	for _, r := range rs {
		fmt.Fprintf(&sb, "  %s /%s/", r.kind, r.re)
		if r.groups != "" {
			fmt.Fprintf(&sb, " (%s)", r.groups)
		}
		if r.pop > 0 {
			sb.WriteString(" " + strings.Repeat("^", r.pop))
		} else if r.push != "" {
			sb.WriteString(" " + r.push)
		}
		if r.discard {
			sb.WriteString(" -")
		}
		sb.WriteString("\n")
	}
	return sb.String()
}

func randOpts(r *rand.Rand, base int) lexOpts {
	o := lexOpts{byPriority: r.Intn(3) == 0, errKind: "Error", base: base}
	if r.Intn(6) == 0 {
		o.startK, o.startV = "start", "^"
	}
	if r.Intn(6) == 0 {
		o.endK, o.endV = "end", ""
	}
	if r.Intn(6) == 0 {
		o.errKind = "Oops"
	}
	return o
}

func (o lexOpts) String() string {
	return fmt.Sprintf("byPriority=%v start=%s end=%s err=%s", o.byPriority, o.startK, o.endK, o.errKind)
}

func buildSimple(rs []*LR, o lexOpts, how int) (*simplelexer.Lexer, error) {
	var l *simplelexer.Lexer
	var err error
	switch how % 4 {
	case 3: // rules added while the lexer is in use
		l, err = simplelexer.New()
		l.Error = o.errKind
		for _, r := range rs {
			l.Lex("?a b\n?")
			if err == nil {
				err = l.Add(sym(r.kind), regexp.MustCompile(r.re), r.discard)
			}
		}
	case 0:
		l, err = simplelexer.New(ruleText(rs))
	case 1: // several definitions
		var defs []string
		for _, r := range rs {
			defs = append(defs, ruleText([]*LR{r}))
		}
		l, err = simplelexer.New(defs...)
	default: // programmatic
		l, err = simplelexer.New()
		for _, r := range rs {
			if err == nil {
				err = l.Add(sym(r.kind), regexp.MustCompile(r.re), r.discard)
			}
		}
	}
	if err != nil {
		return nil, err
	}
	if o.byPriority {
		l.ByPriority()
	}
	if o.startK != "" {
		l.InsertStart(o.startK, o.startV)
	}
	if o.endK != "" {
		l.InsertEnd(o.endK, o.endV)
	}
	l.Error = o.errKind
	return l, nil
}

type sym string

func (s sym) String() string { return string(s) }

// trimAt drops positions of inserted lexemes, which are not in the input.
func trimAt(ts []tok, o lexOpts) []tok {
	out := append([]tok{}, ts...)
	if o.startK != "" && len(out) > 0 {
		out[0].l, out[0].c = -1, 0
	}
	if o.endK != "" && len(out) > 0 {
		out[len(out)-1].l, out[len(out)-1].c = -1, 0
	}
	return out
}

func simpleCheck(pos bool) func(*Ctx) {
	return func(c *Ctx) {
		for i := 0; i < c.N(6000, 200000) && !c.Done(); i++ {
			rs := randRules(c.R, 1+c.R.Intn(5))
			o := randOpts(c.R, 0)
			for k := 0; k < 4; k++ {
				in := randInput(c.R, 12)
				how := c.R.Intn(4)
				c.Case(fmt.Sprintf("simplelexer built=%d {%s} %v input %q", how, ruleText(rs), o, in), len(in) > 1, func() (string, string) {
					l, err := buildSimple(rs, o, how)
					if err != nil {
						return "no error", err.Error()
					}
					got := l.Lex(in)
					if got == nil {
						return "non-nil", "nil"
					}
					return showToks(trimAt(simpleOracle(rs, in, o), o), pos), showToks(trimAt(toks(got), o), pos)
				})
			}
		}
	}
}

// ---- stack lexer

type sub struct {
	name    string
	items   []interface{} // *LR or string (inherited sub-lexer)
	flatten []*LR
}

func flattenSub(subs map[string]*sub, s *sub) []*LR {
	if s.flatten != nil {
		return s.flatten
	}
	var out []*LR
	seen := map[string]bool{}
	for _, it := range s.items {
		switch x := it.(type) {
		case *LR:
			if !seen[x.kind] {
				seen[x.kind] = true
				out = append(out, x)
			}
		case string:
			for _, r := range flattenSub(subs, subs[x]) {
				if !seen[r.kind] {
					seen[r.kind] = true
					out = append(out, r)
				}
			}
		}
	}
	if out == nil {
		out = []*LR{}
	}
	s.flatten = out
	return out
}

func stackText(subs []*sub) string {
	var sb strings.Builder
	for i, s := range subs {
		if i%2 == 0 {
			fmt.Fprintf(&sb, "== %s ==\n", s.name)
		} else {
			fmt.Fprintf(&sb, "  ==%s\n", s.name)
		}
		for _, it := range s.items {
			switch x := it.(type) {
			case *LR:
				sb.WriteString(ruleText([]*LR{x}))
			case string:
				sb.WriteString("   " + x + "\n")
			}
		}
	}
	return sb.String()
}

func stackOracle(subs []*sub, in string, o lexOpts) []tok {
	m := map[string]*sub{}
	for _, s := range subs {
		m[s.name] = s
	}
	b := []byte(in)
	var out []tok
	if o.startK != "" {
		out = append(out, tok{o.startK, o.startV, -1, 0, false})
	}
	errAt := -1
	flush := func(end int) {
		if errAt >= 0 {
			l, c := position(b, errAt, o.base)
			out = append(out, tok{o.errKind, string(b[errAt:end]), l, c, true})
			errAt = -1
		}
	}
	stack := []string{subs[0].name}
	cur := 0
	for cur < len(b) {
		rules := flattenSub(m, m[stack[len(stack)-1]])
		i, loc := choose(rules, b, cur, o.byPriority)
		if i < 0 {
			if len(stack) > 1 {
				stack = stack[:len(stack)-1]
				continue
			}
			if errAt < 0 {
				errAt = cur
			}
			cur++
			continue
		}
		flush(cur)
		r := rules[i]
		if !r.discard {
			l, c := position(b, cur, o.base)
			v := string(b[cur : cur+loc[1]])
			if r.groups != "" {
				v = ""
				for _, g := range strings.Split(r.groups, "|") {
					if len(g) == 1 && g[0] >= '0' && g[0] <= '9' {
						n := int(g[0] - '0')
						if loc[2*n] >= 0 {
							v += string(b[cur+loc[2*n] : cur+loc[2*n+1]])
						}
					} else {
						v += strings.Trim(g, `"`)
					}
				}
			}
			out = append(out, tok{r.kind, v, l, c, false})
		}
		cur += loc[1]
		if r.pop > 0 {
			n := len(stack) - r.pop
			if n < 1 {
				n = 1
			}
			stack = stack[:n]
		} else if r.push != "" {
			stack = append(stack, r.push)
		}
	}
	flush(cur)
	if o.endK != "" {
		out = append(out, tok{o.endK, o.endV, -1, 0, false})
	}
	return out
}

func randSubs(r *rand.Rand) []*sub {
	n := 1 + r.Intn(4)
	names := []string{"Main", "In", "Deep", "Shared"}[:n]
	var subs []*sub
	for i, name := range names {
		s := &sub{name: name}
		for _, x := range randRules(r, 1+r.Intn(3)) {
			switch r.Intn(4) {
			case 0:
				x.push = names[r.Intn(n)]
			case 1:
				x.pop = 1 + r.Intn(3)
			}
			if g := regexp.MustCompile(x.re).NumSubexp(); g > 0 && r.Intn(2) == 0 {
				x.groups = []string{"1", `0|"<x1>"`, `":"|1`, fmt.Sprintf(`%d|"-"|1`, g)}[r.Intn(4)]
			}
			s.items = append(s.items, x)
			if r.Intn(4) == 0 && i+1 < n {
				s.items = append(s.items, names[i+1+r.Intn(n-i-1)])
			}
		}
		subs = append(subs, s)
	}
	// definition order of all but the first is arbitrary
	rest := subs[1:]
	r.Shuffle(len(rest), func(i, j int) { rest[i], rest[j] = rest[j], rest[i] })
	return subs
}

func buildStack(text string, o lexOpts) (*stacklexer.StackLexer, error) {
	l, err := stacklexer.New(text)
	if err != nil {
		return nil, err
	}
	if o.byPriority {
		l.ByPriority()
	}
	if o.startK != "" {
		l.InsertStart(o.startK, o.startV)
	}
	if o.endK != "" {
		l.InsertEnd(o.endK, o.endV)
	}
	l.Error = o.errKind
	return l, nil
}

func stackCheck(pos bool) func(*Ctx) {
	return func(c *Ctx) {
		for i := 0; i < c.N(5000, 150000) && !c.Done(); i++ {
			subs := randSubs(c.R)
			text := stackText(subs)
			o := randOpts(c.R, 1)
			for k := 0; k < 5; k++ {
				in := randInput(c.R, 14)
				c.Case(fmt.Sprintf("stacklexer {%s} %v input %q", text, o, in), len(in) > 1, func() (string, string) {
					l, err := buildStack(text, o)
					if err != nil {
						return "no error", err.Error()
					}
					got := l.Lex(in)
					if got == nil {
						return "non-nil", "nil"
					}
					return showToks(trimAt(stackOracle(subs, in, o), o), pos), showToks(trimAt(toks(got), o), pos)
				})
			}
		}
	}
}

// stackDefs: definitions that cannot be used are refused.
func stackDefs(c *Ctx) {
	bad := []string{
		"", "foo /bar/\n", "== A ==\n x /(/\n", "== A ==\n x Nowhere\n", "== A ==\n x /a/ B\n== C ==\n y\n",
		"== A ==\n A\n", "== A ==\n B\n== B ==\n A\n", "== A ==\n B\n== B ==\n C\n== C ==\n B\n", "== A ==\n x /a(b)/ (2)\n",
		"== A ==\n x\n B\n== B ==\n y /[/\n",
	}
	for _, b := range bad {
		for k := 0; k < 6; k++ {
			c.Case(fmt.Sprintf("stacklexer.New(%q) try %d", b, k), true, func() (string, string) {
				l, err := stacklexer.New(b)
				return "<nil> true", fmt.Sprint(l, err != nil)
			})
		}
	}
	for i := 0; i < c.N(200, 4000) && !c.Done(); i++ {
		subs := randSubs(c.R)
		// a random inheritance graph; cyclic ones must be refused
		edges := map[string]map[string]bool{}
		var names []string
		for _, s := range subs {
			names = append(names, s.name)
			edges[s.name] = map[string]bool{}
		}
		for _, s := range subs {
			for _, it := range s.items {
				if x, ok := it.(string); ok {
					edges[s.name][x] = true
				}
			}
			if c.R.Intn(4) == 0 {
				to := names[c.R.Intn(len(names))]
				s.items = append(s.items, to)
				edges[s.name][to] = true
			}
		}
		sort.Strings(names)
		cyc := hasCycle(names, edges)
		text := stackText(subs)
		c.Case(fmt.Sprintf("stacklexer.New(%q)", text), cyc, func() (string, string) {
			_, err := stacklexer.New(text)
			want := "<nil>"
			if cyc {
				want = stacklexer.ErrCyclic.Error()
			}
			return want, fmt.Sprint(err)
		})
	}
}

// posThrough: positions survive parsing and reducing; tested in trees.go
