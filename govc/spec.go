package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// Clause is one labelled specification expression.
type Clause struct {
	label string
	src   string
	e     ast.Expr
}

// Contract of a function, interface method, function type or external.
type Contract struct {
	name      string
	kind      string // func, iface, functype, extern
	params    []string
	results   []string
	free      []string
	requires  []Clause
	ensures   []Clause
	gsets     []gset
	recs      []recDef
	likes     []likeRef
	makes     []string        // struct types a trusted function may allocate
	allocs    map[string]bool // ghosts that may hold for new objects
	stamps    []Clause        // assumed at return where the label holds: first definition of a rigid function
	born      []Clause        // assumed of obj when an object of the label's type is allocated
	ghostdefs []Clause        // assumed at return; label names the fresh reference
	mods      []Clause
	invs      []Clause
	locals    map[string]string
	props     []string
	decreases []Clause
	hints     []Clause // proved after every call, then used
	encap     []Clause // invariants of unexported state: body only
	hides     []Clause // unexported state it may change: body only
	variants  []Clause
	events    []Clause
	view      string    // callees with a contract NAME@view are seen by it
	group     string    // of mutually recursive functions
	apply     *Contract // what applying the function value returned does
	applyRes  string
	uses      []string
	inline    map[string]bool
	modAll    bool
	reason    string // for trusted contracts
	file      string
}

func (c *Contract) trusted() bool { return c.kind != "func" }

// Specs are all contracts and definitions.
type Specs struct {
	contracts map[string]*Contract
	order     []string
	macros    map[string]*macro
	funs      map[string]*specFun
	smt       []smtDecl
	ghosts    map[string]*ghostDecl
	axioms    []namedExpr
	lemmas    []namedExpr
	byName    map[string]*namedExpr
	track     []string // struct types whose objects are told apart by type
}

// ghostDecl is a ghost field of the objects of one pointer type.
type ghostDecl struct {
	name string
	key  string
	val  string
}

// likeRef takes over the clauses of another contract.
type likeRef struct {
	name string
	sub  map[string]ast.Expr
}

// subst replaces identifiers.
func subst(e ast.Expr, m map[string]ast.Expr) ast.Expr {
	switch x := e.(type) {
	case *ast.Ident:
		if r, ok := m[x.Name]; ok {
			return &ast.ParenExpr{X: r}
		}
		return x
	case *ast.ParenExpr:
		return &ast.ParenExpr{X: subst(x.X, m)}
	case *ast.UnaryExpr:
		return &ast.UnaryExpr{Op: x.Op, X: subst(x.X, m)}
	case *ast.StarExpr:
		return &ast.StarExpr{X: subst(x.X, m)}
	case *ast.BinaryExpr:
		return &ast.BinaryExpr{X: subst(x.X, m), Op: x.Op, Y: subst(x.Y, m)}
	case *ast.SelectorExpr:
		return &ast.SelectorExpr{X: subst(x.X, m), Sel: x.Sel}
	case *ast.IndexExpr:
		return &ast.IndexExpr{X: subst(x.X, m), Index: subst(x.Index, m)}
	case *ast.SliceExpr:
		r := &ast.SliceExpr{X: subst(x.X, m)}
		if x.Low != nil {
			r.Low = subst(x.Low, m)
		}
		if x.High != nil {
			r.High = subst(x.High, m)
		}
		return r
	case *ast.CallExpr:
		r := &ast.CallExpr{Fun: x.Fun}
		m2 := m
		if id, ok := x.Fun.(*ast.Ident); ok && (id.Name == "each" || id.Name == "some") {
			m2 = map[string]ast.Expr{}
			for k, v := range m {
				if k != x.Args[1].(*ast.Ident).Name {
					m2[k] = v
				}
			}
		}
		for i, a := range x.Args {
			if i == 0 {
				r.Args = append(r.Args, subst(a, m))
			} else {
				r.Args = append(r.Args, subst(a, m2))
			}
		}
		return r
	}
	return e
}

// resolveLikes copies the clauses of the contracts named by like.
func (S *Specs) resolveLikes() {
	one := func(c *Contract) {
		for _, l := range c.likes {
			o := S.contracts[l.name]
			if o == nil {
				panic("like: no contract " + l.name)
			}
			cp := func(cs []Clause) []Clause {
				var r []Clause
				for _, cl := range cs {
					r = append(r, Clause{cl.label, cl.src, subst(cl.e, l.sub)})
				}
				return r
			}
			c.requires = append(c.requires, cp(o.requires)...)
			c.ensures = append(c.ensures, cp(o.ensures)...)
			c.mods = append(c.mods, cp(o.mods)...)
			for _, r := range o.recs {
				c.recs = append(c.recs, recDef{r.name, r.i, r.prev, subst(r.over, l.sub), subst(r.base, l.sub), subst(r.step, l.sub)})
			}
		}
		c.likes = nil
	}
	for _, c := range S.contracts {
		one(c)
		if c.apply != nil {
			one(c.apply)
		}
	}
}

// recDef is a function of one integer defined by recursion when the function
// is entered: name[0] = base, name[i+1] = step for every index i of over.
type recDef struct {
	name, i, prev    string
	over, base, step ast.Expr
}

// gset is a ghost assignment made when the function returns.
type gset struct {
	name string
	ref  Clause
	val  Clause
	cond *Clause // gset live(r, cond): for every r with cond
	all  bool
}

type macro struct {
	name   string
	params []string
	body   ast.Expr
}
type specFun struct {
	name string
	args []string
	res  string
}
type smtDecl struct{ sym, text string }
type namedExpr struct {
	name   string
	src    string
	e      ast.Expr
	hyps   []string
	lemma  bool
	named  bool // an axiom only for those that name it
	props  []string
	raw    string
	induct string
	at     ast.Expr // the lemma is used for this value of the induction variable only
}

func parseE(src, where string) ast.Expr {
	e, err := parser.ParseExpr(src)
	if err != nil {
		panic(fmt.Sprintf("%s: %v in %q", where, err, src))
	}
	return e
}

func splitTop(s string, sep byte) []string {
	var r []string
	d, last := 0, 0
	inq := false
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '"':
			inq = !inq
		case '(', '[', '{':
			if !inq {
				d++
			}
		case ')', ']', '}':
			if !inq {
				d--
			}
		case sep:
			if d == 0 && !inq {
				r = append(r, strings.TrimSpace(s[last:i]))
				last = i + 1
			}
		}
	}
	if t := strings.TrimSpace(s[last:]); t != "" {
		r = append(r, t)
	}
	return r
}

func readSpecs(dir string) *Specs {
	S := &Specs{contracts: map[string]*Contract{}, macros: map[string]*macro{}, funs: map[string]*specFun{}, byName: map[string]*namedExpr{}, ghosts: map[string]*ghostDecl{}}
	files, _ := filepath.Glob(filepath.Join(dir, "*.spec"))
	sort.Strings(files)
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		S.read(filepath.Base(f), string(b))
	}
	return S
}

// read parses one file: a statement is a line plus the more-indented or
// "\"-free continuation lines that follow until brackets balance.
func (S *Specs) read(file, text string) {
	lines := strings.Split(text, "\n")
	var cur *Contract
	var sub *Contract
	for i := 0; i < len(lines); i++ {
		ln := lines[i]
		if k := strings.Index(ln, "//"); k >= 0 && !strings.Contains(ln[:k], "\"") {
			ln = ln[:k]
		}
		st := strings.TrimSpace(ln)
		if st == "" {
			continue
		}
		where := fmt.Sprintf("%s:%d", file, i+1)
		for i+1 < len(lines) && (depth(st) > 0 || strings.HasPrefix(strings.TrimSpace(lines[i+1]), "&&") || strings.HasPrefix(strings.TrimSpace(lines[i+1]), "||")) {
			i++
			l2 := lines[i]
			if k := strings.Index(l2, "//"); k >= 0 && !strings.Contains(l2[:k], "\"") {
				l2 = l2[:k]
			}
			st += " " + strings.TrimSpace(l2)
		}
		word, rest := st, ""
		if k := strings.IndexAny(st, " \t"); k >= 0 {
			word, rest = st[:k], strings.TrimSpace(st[k:])
		}
		clause := func() Clause {
			label := ""
			r := rest
			if strings.HasPrefix(r, "[") {
				k := strings.Index(r, "]")
				if strings.HasPrefix(r, "[[]") {
					k = 3 + strings.Index(r[3:], "]")
				}
				label, r = r[1:k], strings.TrimSpace(r[k+1:])
			}
			if label == "" {
				label = where
			}
			return Clause{label, r, parseE(r, where)}
		}
		tgt := cur
		if sub != nil {
			tgt = sub
		}
		switch word {
		case "func", "iface", "functype", "extern":
			cur = parseHeader(word, rest, where)
			cur.file = file
			sub = nil
			if S.contracts[cur.name] != nil {
				panic(where + ": duplicate contract " + cur.name)
			}
			S.contracts[cur.name] = cur
			S.order = append(S.order, cur.name)
		case "apply": // apply r(node)
			h := parseHeader("apply", rest, where)
			h.name = cur.name + "/apply"
			cur.apply = h
			cur.applyRes = strings.TrimSpace(rest[:strings.Index(rest, "(")])
			sub = h
		case "requires":
			tgt.requires = append(tgt.requires, clause())
		case "ensures":
			tgt.ensures = append(tgt.ensures, clause())
		case "stamp":
			tgt.stamps = append(tgt.stamps, clause())
		case "born":
			tgt.born = append(tgt.born, clause())
		case "ghostdef":
			tgt.ghostdefs = append(tgt.ghostdefs, clause())
		case "ghost": // ghost live *tree.PN bool
			f := strings.Fields(rest)
			S.ghosts[f[0]] = &ghostDecl{f[0], f[1], strings.Join(f[2:], " ")}
			cur, sub = nil, nil
		case "track":
			S.track = append(S.track, strings.Fields(rest)...)
			cur, sub = nil, nil
		case "makes":
			tgt.makes = append(tgt.makes, strings.Fields(rest)...)
		case "allocs":
			for _, n := range strings.Fields(rest) {
				tgt.allocs[n] = true
			}
		case "gset": // gset live(x) = expr
			k := strings.Index(rest, "=")
			for k >= 0 && k+1 < len(rest) && rest[k+1] == '=' {
				k2 := strings.Index(rest[k+2:], "=")
				k = k + 2 + k2
			}
			l := strings.TrimSpace(rest[:k])
			p := strings.Index(l, "(")
			mk := func(s string) Clause { return Clause{s, s, parseE(s, where)} }
			gs := gset{name: l[:p], val: mk(strings.TrimSpace(rest[k+1:]))}
			parts := splitTop(l[p+1:len(l)-1], ',')
			gs.ref = mk(parts[0])
			if len(parts) == 2 {
				c := mk(parts[1])
				gs.cond = &c
			}
			tgt.gsets = append(tgt.gsets, gs)
		case "like": // like NAME : param=expr, ..., result=expr
			k := strings.Index(rest, " : ")
			l := likeRef{name: strings.TrimSpace(rest[:k]), sub: map[string]ast.Expr{}}
			for _, a := range splitTop(rest[k+3:], ',') {
				q := strings.Index(a, "=")
				l.sub[strings.TrimSpace(a[:q])] = parseE(strings.TrimSpace(a[q+1:]), where)
			}
			tgt.likes = append(tgt.likes, l)
		case "rec": // rec name(i, prev) over slice = base ; step
			ov, eq := strings.Index(rest, " over "), strings.Index(rest, " = ")
			h := parseHeader("rec", rest[:ov], where)
			bs := strings.SplitN(rest[eq+3:], ";", 2)
			tgt.recs = append(tgt.recs, recDef{h.name, h.params[0], h.params[1], parseE(strings.TrimSpace(rest[ov+6:eq]), where), parseE(strings.TrimSpace(bs[0]), where), parseE(strings.TrimSpace(bs[1]), where)})
		case "mod":
			if rest == "everything" {
				tgt.modAll = true
				break
			}
			for _, p := range splitTop(rest, ',') {
				tgt.mods = append(tgt.mods, Clause{p, p, parseE(p, where)})
			}
		case "inv":
			cur.invs = append(cur.invs, clause())
		case "view":
			cur.view = strings.TrimSpace(rest)
		case "group":
			cur.group = strings.TrimSpace(rest)
		case "variant":
			cur.variants = append(cur.variants, clause())
		case "encap":
			cur.encap = append(cur.encap, clause())
		case "hide":
			for _, p := range splitTop(rest, ',') {
				cur.hides = append(cur.hides, Clause{p, p, parseE(p, where)})
			}
		case "hint":
			cur.hints = append(cur.hints, clause())
		case "decreases":
			cur.decreases = append(cur.decreases, clause())
		case "event":
			tgt.events = append(tgt.events, clause())
		case "local":
			f := strings.SplitN(rest, " ", 2)
			cur.locals[f[0]] = strings.TrimSpace(f[1])
		case "prop":
			cur.props = append(cur.props, strings.Fields(rest)...)
		case "use":
			cur.uses = append(cur.uses, strings.Fields(rest)...)
		case "inline":
			for _, n := range strings.Fields(rest) {
				cur.inline[n] = true
			}
		case "because":
			cur.reason = rest
		case "def":
			k := strings.Index(rest, "=")
			for strings.HasPrefix(rest[k:], "==") {
				panic(where + ": bad def")
			}
			head := strings.TrimSpace(rest[:k])
			h := parseHeader("def", head, where)
			S.macros[h.name] = &macro{h.name, h.params, parseE(strings.TrimSpace(rest[k+1:]), where)}
			cur, sub = nil, nil
		case "fun": // fun name(t, t) t
			k := strings.Index(rest, "(")
			e := k
			for d := 0; e < len(rest); e++ {
				if rest[e] == '(' {
					d++
				} else if rest[e] == ')' {
					if d--; d == 0 {
						break
					}
				}
			}
			S.funs[strings.TrimSpace(rest[:k])] = &specFun{strings.TrimSpace(rest[:k]), splitTop(rest[k+1:e], ','), strings.TrimSpace(rest[e+1:])}
			cur, sub = nil, nil
		case "smt":
			f := strings.SplitN(rest, " ", 2)
			S.smt = append(S.smt, smtDecl{f[0], strings.TrimSpace(f[1])})
			cur, sub = nil, nil
		case "axiom", "lemma":
			// axiom NAME [hyps a b] : expr
			k := strings.Index(rest, ":")
			h := strings.Fields(rest[:k])
			src := strings.TrimSpace(rest[k+1:])
			ne := namedExpr{name: h[0], src: src, lemma: word == "lemma"}
			if strings.HasPrefix(src, "(") && strings.HasPrefix(src, "(forall ") {
				ne.raw = src
			} else {
				ne.e = parseE(src, where)
			}
			for i := 1; i < len(h); i++ {
				switch {
				case strings.HasPrefix(h[i], "induct="):
					ne.induct = h[i][7:]
				case strings.HasPrefix(h[i], "at="):
					ne.at = parseE(h[i][3:], where)
				case h[i] == "hyps" || h[i] == "prop":
				case h[i] == "named" && word == "axiom":
					ne.named = true
				case len(h[i]) == 3 && h[i][0] == 'C':
					ne.props = append(ne.props, h[i])
				default:
					if S.byName[h[i]] == nil {
						panic(fmt.Sprintf("%s: %s is not known yet", where, h[i]))
					}
					ne.hyps = append(ne.hyps, h[i])
				}
			}
			if word == "axiom" {
				S.axioms = append(S.axioms, ne)
			} else {
				S.lemmas = append(S.lemmas, ne)
			}
			cp := ne
			S.byName[ne.name] = &cp
			cur, sub = nil, nil
		default:
			panic(fmt.Sprintf("%s: unknown statement %q", where, word))
		}
	}
}

func depth(s string) int {
	d := 0
	inq := false
	for _, c := range s {
		switch c {
		case '"':
			inq = !inq
		case '(', '[', '{':
			if !inq {
				d++
			}
		case ')', ']', '}':
			if !inq {
				d--
			}
		}
	}
	return d
}

// parseHeader reads "pkg.(*T).M(a, b) r1, r2".
func parseHeader(kind, s, where string) *Contract {
	c := &Contract{kind: kind, allocs: map[string]bool{}, locals: map[string]string{}, inline: map[string]bool{}}
	e := strings.LastIndex(s, ")")
	if e < 0 {
		if kind == "def" {
			c.name = s
			return c
		}
		panic(where + ": bad header " + s)
	}
	b := strings.LastIndex(s[:e], "(")
	c.name = strings.TrimSpace(s[:b])
	c.params = splitTop(s[b+1:e], ',')
	rest := strings.TrimSpace(s[e+1:])
	if k := strings.Index(rest, "free "); k >= 0 {
		c.free = splitTop(rest[k+5:], ',')
		rest = rest[:k]
	}
	c.results = splitTop(rest, ',')
	return c
}

// dropUnusable forgets the contracts of unexported functions that the tree no
// longer has in this form; their callers are then verified against the code.
func (S *Specs) dropUnusable(P *Program) {
	for n, c := range S.contracts {
		if c.kind != "func" {
			continue
		}
		base := n[strings.LastIndex(n, ".")+1:]
		if base != "" && base[0] >= 'A' && base[0] <= 'Z' && !strings.Contains(base, "$") {
			continue
		}
		f := P.funcs[bareName(n)]
		if f == nil || len(f.Params) != len(c.params) || f.Signature.Results().Len() != len(c.results) || len(f.FreeVars) != len(c.free) {
			delete(S.contracts, n)
		}
	}
}

// split makes the conjuncts of clauses separate obligations.
func (S *Specs) split(cls []Clause) []Clause {
	var r []Clause
	var walk func(label string, e ast.Expr, top bool)
	walk = func(label string, e ast.Expr, top bool) {
		switch ex := e.(type) {
		case *ast.ParenExpr:
			walk(label, ex.X, top)
			return
		case *ast.BinaryExpr:
			if ex.Op == token.LAND {
				walk(label, ex.X, false)
				walk(label, ex.Y, false)
				return
			}
		case *ast.Ident:
			if m := S.macros[ex.Name]; m != nil && len(m.params) == 0 {
				walk(label+"."+ex.Name, m.body, top)
				return
			}
		case *ast.CallExpr:
			if id, ok := ex.Fun.(*ast.Ident); ok {
				if m := S.macros[id.Name]; m != nil && len(m.params) == len(ex.Args) {
					if be, ok := m.body.(*ast.BinaryExpr); ok && be.Op == token.LAND {
						sm := map[string]ast.Expr{}
						plain := true // others could mean something else inside old
						for i, p := range m.params {
							sm[p] = ex.Args[i]
							if _, ok := ex.Args[i].(*ast.Ident); !ok {
								plain = false
							}
						}
						if plain {
							walk(label+"."+id.Name, subst(m.body, sm), top)
							return
						}
					}
				}
			}
		}
		r = append(r, Clause{label, label, e})
	}
	for _, c := range cls {
		walk(c.label, c.e, true)
	}
	return r
}

// bareName is the name of the function a contract is for.
func bareName(n string) string {
	if k := strings.LastIndex(n, "@"); k >= 0 {
		return n[:k]
	}
	return n
}

// body is the contract as the function's own body has to meet it: the
// invariants of unexported state hold before and after, and that state may
// change. Callers, which cannot see it, use the contract without.
func (c *Contract) body() *Contract {
	if len(c.encap) == 0 && len(c.hides) == 0 {
		return c
	}
	b := *c
	b.requires = append(append([]Clause{}, c.encap...), c.requires...)
	b.ensures = append(append([]Clause{}, c.ensures...), c.encap...)
	b.mods = append(append([]Clause{}, c.mods...), c.hides...)
	return &b
}
