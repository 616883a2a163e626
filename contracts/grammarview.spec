// ---- grammars and productions as their readers see them (view g) ---------
// While a grammar is read nobody changes it or its productions: rigid
// functions name its contents. That the package's own implementations hold
// what they were given, whatever is read, is proved in productions.spec and
// grammar.spec. The tables of symbol sets, which asking for a symbol may
// extend, are unexported fields of another package: readers cannot see them,
// and symbols.spec proves that every method of that package keeps SINV and
// that no symbol changes its string, so this view leaves them out.
// vsym(s): a symbol of a set that SINV talks about, or of another kind
def vsym(s) = imp(is(s, "*setsymbol.Symbol"), as(s, "*setsymbol.Symbol") != nil && as(s, "*setsymbol.Symbol").set != nil)
iface parlex.Symbol.String@g(s) r
  because proved for setsymbol and stringsymbol (symbols.spec): a symbol always returns the same string
  requires s != nil && vsym(s)
  ensures r == symstr(s)
fun rpl(parlex.Production) int
fun rps(parlex.Production, int) string
fun rpsl(parlex.Productions) int
fun rpspl(parlex.Productions, int) int
fun rpss(parlex.Productions, int, int) string
// gnp: the number of productions of a symbol, negative where it has none;
// gpl, gps: their lengths and symbols; gnt, gnts: the non-terminals
fun gnp(parlex.Grammar, string) int
fun gpl(parlex.Grammar, string, int) int
fun gps(parlex.Grammar, string, int, int) string
fun gnt(parlex.Grammar) int
fun gnts(parlex.Grammar, int) string

iface parlex.Production.Symbols@g(p) n
  because productions do not change while they are read
  requires p != nil
  ensures n == rpl(p) && n >= 0
iface parlex.Production.Symbol@g(p, i) s
  because productions do not change while they are read
  makes setsymbol.Symbol
  requires p != nil && 0 <= i
  ensures (s == nil) == (i >= rpl(p))
  ensures imp(s != nil, vsym(s) && wt(s) && symstr(s) == rps(p, i))
iface parlex.Production.Iter@g(p) it
  because proved for setsymbol and stringsymbol
  makes parlex.ProductionIterator
  requires p != nil
  ensures fresh(it) && it.Production == p && it.ln == 0 && it.Idx == 0
iface parlex.Productions.Productions@g(p) n
  because productions do not change while they are read
  requires p != nil
  ensures n == rpsl(p) && n >= 0
iface parlex.Productions.Production@g(p, i) r
  because productions do not change while they are read
  makes setsymbol.Production
  requires p != nil && 0 <= i
  ensures (r == nil) == (i >= rpsl(p))
  ensures imp(r != nil, wt(r) && rpl(r) == rpspl(p, i) && rpl(r) >= 0 && forall("j", rps(r, j) == rpss(p, i, j), rps(r, j)))
iface parlex.Productions.Iter@g(p) it
  because proved for setsymbol and stringsymbol
  makes parlex.ProductionsIterator
  requires p != nil
  ensures fresh(it) && it.Productions == p && it.ln == 0 && it.Idx == 0

def vitok(it) = it != nil && it.Production != nil && ite(it.ln == 0, it.Idx == 0, it.Idx >= 0 && it.ln == rpl(it.Production))
def vipos(it) = ite(it.ln == 0, 0, it.Idx + 1)
func parlex.(*ProductionIterator).Next@g(it) ok
  prop C06 C08 C09 C20
  view g
  requires vitok(it)
  mod it.Symbol, it.ln, it.Idx
  ensures [more] ok == old(vipos(it) < rpl(it.Production))
  ensures [element] imp(ok, it.Idx == old(vipos(it)) && it.Symbol != nil && vsym(it.Symbol) && wt(it.Symbol) && symstr(it.Symbol) == rps(it.Production, it.Idx))
  ensures [position] imp(ok, vipos(it) == old(vipos(it)) + 1)
  ensures [exhausted] imp(!ok, vipos(it) >= rpl(it.Production))
  ensures [state] vitok(it)
def vitsok(it) = it != nil && it.Productions != nil && ite(it.ln == 0, it.Idx == 0, it.Idx >= 0 && it.ln == rpsl(it.Productions))
def vitspos(it) = ite(it.ln == 0, 0, it.Idx + 1)
func parlex.(*ProductionsIterator).Next@g(it) ok
  prop C06 C08 C09 C20
  view g
  requires vitsok(it)
  mod it.Production, it.ln, it.Idx
  ensures [more] ok == old(vitspos(it) < rpsl(it.Productions))
  ensures [element] imp(ok, it.Idx == old(vitspos(it)) && it.Production != nil && wt(it.Production) && rpl(it.Production) == rpspl(it.Productions, it.Idx) && rpl(it.Production) >= 0 && forall("j", rps(it.Production, j) == rpss(it.Productions, it.Idx, j), rps(it.Production, j)))
  ensures [position] imp(ok, vitspos(it) == old(vitspos(it)) + 1)
  ensures [exhausted] imp(!ok, vitspos(it) >= rpsl(it.Productions))
  ensures [state] vitsok(it)

iface parlex.Grammar.Productions@g(g, s) r
  because proved for *grammar.Grammar; other implementations only read, or put the symbol asked for into a set of their own
  makes setsymbol.Symbol
  requires g != nil && s != nil && vsym(s)
  ensures (r == nil) == (gnp(g, symstr(s)) < 0)
  ensures imp(r != nil, wt(r) && rpsl(r) == gnp(g, symstr(s)) && forall("i", rpspl(r, i) == gpl(g, symstr(s), i), rpspl(r, i)) && forall("i, j", rpss(r, i, j) == gps(g, symstr(s), i, j), rpss(r, i, j)))
iface parlex.Grammar.NonTerminals@g(g) r
  because proved for *grammar.Grammar
  makes setsymbol.Symbol
  requires g != nil
  ensures fresh(r) && len(r) == gnt(g) && each(r, i, r[i] != nil && vsym(r[i]) && wt(r[i]) && symstr(r[i]) == gnts(g, i))
// GWF(g): every symbol with productions is a non-terminal, and the other way
// round; free(g, d): how many non-terminals of such a grammar are not in d
fun GWF(parlex.Grammar) bool
fun gntw(parlex.Grammar, string) int
axiom gwf1: forall("g:parlex.Grammar, s:string", imp(GWF(g) && gnp(g, s) >= 0, 0 <= gntw(g, s) && gntw(g, s) < gnt(g) && gnts(g, gntw(g, s)) == s), pats(GWF(g), gnp(g, s)))
axiom gwf2: forall("g:parlex.Grammar, i", imp(GWF(g) && 0 <= i && i < gnt(g), gnp(g, gnts(g, i)) >= 0), pats(GWF(g), gnts(g, i)))
fun free(parlex.Grammar, #(Array Str Bool)) int
axiom freepos: forall("g:parlex.Grammar, d:#(Array Str Bool)", free(g, d) >= 0, free(g, d))
axiom freeless: forall("g:parlex.Grammar, d:#(Array Str Bool), e:#(Array Str Bool), t:string", imp(GWF(g) && gnp(g, t) >= 0 && !d[t] && e[t] && forall("u:string", imp(d[u], e[u]), d[u], e[u]), free(g, e) < free(g, d)), pats(free(g, d), free(g, e), gnp(g, t)))
// the keys of a map that map to true
fun trues(#(Array Str Bool), #(Array Str Bool)) #(Array Str Bool)
axiom truesdef: forall("d:#(Array Str Bool), v:#(Array Str Bool), t:string", trues(d, v)[t] == (d[t] && v[t]), trues(d, v)[t])

// ---- what can derive nothing, and what can stand first -------------------
// nul(g, s): s derives nothing; nulp(g, s, i, n): so do the first n symbols of
// production i of s; lft(g, a, b): b stands in a production of a after
// symbols that derive nothing; lftp: one or more such steps. The axioms say
// that these are the least such relations.
fun nul(parlex.Grammar, string) bool
fun nulp(parlex.Grammar, string, int, int) bool
fun nulw(parlex.Grammar, string) int
fun lft(parlex.Grammar, string, string) bool
fun lfti(parlex.Grammar, string, string) int
fun lftj(parlex.Grammar, string, string) int
fun lftp(parlex.Grammar, string, string) bool
fun lftn(parlex.Grammar, string, string) int
fun lftw(parlex.Grammar, string, string) string
axiom gplpos: forall("g:parlex.Grammar, s:string, i", gpl(g, s, i) >= 0, gpl(g, s, i))
axiom nulp0: forall("g:parlex.Grammar, s:string, i", nulp(g, s, i, 0), nulp(g, s, i, 0))
axiom nulpS: forall("g:parlex.Grammar, s:string, i, n", imp(0 <= n && n < gpl(g, s, i) && nulp(g, s, i, n) && nul(g, gps(g, s, i, n)), nulp(g, s, i, n+1)), pats(nulp(g, s, i, n), gps(g, s, i, n)))
axiom nulpE: forall("g:parlex.Grammar, s:string, i, n, j", imp(nulp(g, s, i, n) && 0 <= j && j < n, nul(g, gps(g, s, i, j))), pats(nulp(g, s, i, n), gps(g, s, i, j)))
axiom nulpD: forall("g:parlex.Grammar, s:string, i, n, m", imp(nulp(g, s, i, n) && 0 <= m && m <= n, nulp(g, s, i, m)), pats(nulp(g, s, i, n), nulp(g, s, i, m)))
axiom nulI: forall("g:parlex.Grammar, s:string, i", imp(0 <= i && i < gnp(g, s) && nulp(g, s, i, gpl(g, s, i)), nul(g, s)), nulp(g, s, i, gpl(g, s, i)))
axiom nulE: forall("g:parlex.Grammar, s:string", imp(nul(g, s), 0 <= nulw(g, s) && nulw(g, s) < gnp(g, s) && nulp(g, s, nulw(g, s), gpl(g, s, nulw(g, s)))), nul(g, s))
axiom lftI: forall("g:parlex.Grammar, s:string, i, j", imp(0 <= i && i < gnp(g, s) && 0 <= j && j < gpl(g, s, i) && nulp(g, s, i, j), lft(g, s, gps(g, s, i, j))), pats(nulp(g, s, i, j), gps(g, s, i, j)))
axiom lftE: forall("g:parlex.Grammar, a:string, b:string", imp(lft(g, a, b), 0 <= lfti(g, a, b) && lfti(g, a, b) < gnp(g, a) && 0 <= lftj(g, a, b) && lftj(g, a, b) < gpl(g, a, lfti(g, a, b)) && nulp(g, a, lfti(g, a, b), lftj(g, a, b)) && b == gps(g, a, lfti(g, a, b), lftj(g, a, b))), lft(g, a, b))
axiom lftp1: forall("g:parlex.Grammar, a:string, b:string", imp(lft(g, a, b), lftp(g, a, b)), lft(g, a, b))
axiom lftpR: forall("g:parlex.Grammar, a:string, b:string, c:string", imp(lftp(g, a, b) && lft(g, b, c), lftp(g, a, c)), pats(lftp(g, a, b), lft(g, b, c)))
axiom lftpE named: forall("g:parlex.Grammar, a:string, b:string", imp(lftp(g, a, b), lft(g, a, b) || (lft(g, a, lftw(g, a, b)) && lftp(g, lftw(g, a, b), b) && 0 <= lftn(g, lftw(g, a, b), b) && lftn(g, lftw(g, a, b), b) < lftn(g, a, b))), lftp(g, a, b))
// leftrec(g): some non-terminal can stand first in what it derives
fun leftrec(parlex.Grammar) bool
fun lrwit(parlex.Grammar) string
axiom leftrecI: forall("g:parlex.Grammar, a:string", imp(lftp(g, a, a), leftrec(g)), lftp(g, a, a))
axiom leftrecE: forall("g:parlex.Grammar", imp(leftrec(g), lftp(g, lrwit(g), lrwit(g))), leftrec(g))
// a set that holds all left neighbours of its members holds all that can stand first
fun closedL(parlex.Grammar, #(Array Str Bool)) bool
axiom closedLdef: forall("g:parlex.Grammar, d:#(Array Str Bool)", iff(closedL(g, d), forall("a:string, b:string", imp(d[a] && lft(g, a, b), d[b]), lft(g, a, b))), closedL(g, d))
axiom lftnpos: forall("g:parlex.Grammar, a:string, b:string", lftn(g, a, b) >= 0, lftn(g, a, b))
lemma reachN lftpE induct=n at=lftn(g,a,b)+1: forall("g:parlex.Grammar, d:#(Array Str Bool), a:string, b:string, n", imp(closedL(g, d) && d[a] && lftp(g, a, b) && lftn(g, a, b) < n, d[b]), pats(closedL(g, d), lftp(g, a, b)))
lemma reach reachN: forall("g:parlex.Grammar, d:#(Array Str Bool), a:string, b:string", imp(closedL(g, d) && d[a] && lftp(g, a, b), d[b]), pats(closedL(g, d), lftp(g, a, b)))
// one step of lftpE, where stepL asks for it
fun stepL(parlex.Grammar, string, string) bool
axiom stepLall: forall("g:parlex.Grammar, a:string, b:string", stepL(g, a, b), stepL(g, a, b))
lemma lftpS lftpE: forall("g:parlex.Grammar, a:string, b:string", imp(stepL(g, a, b) && lftp(g, a, b), lft(g, a, b) || (lft(g, a, lftw(g, a, b)) && lftp(g, lftw(g, a, b), b))), stepL(g, a, b))
lemma noself lftpS reach: forall("g:parlex.Grammar, d:#(Array Str Bool), s:string", imp(stepL(g, s, s) && closedL(g, d) && !d[s] && forall("i, j", imp(0 <= i && i < gnp(g, s) && 0 <= j && j < gpl(g, s, i) && nulp(g, s, i, j), d[gps(g, s, i, j)]), gps(g, s, i, j)), !lftp(g, s, s)), pats(closedL(g, d), lftp(g, s, s)))
lemma lftpN lftpE: forall("g:parlex.Grammar, a:string, b:string", imp(lftp(g, a, b), gnp(g, a) > 0), lftp(g, a, b))
