// ---- C03: productions ----------------------------------------------------
// Productions are what their fields say; implementations outside this
// repository are taken to be immutable.
fun oplen(parlex.Production) int
fun opstr(parlex.Production, int) string
fun opslen(parlex.Productions) int
fun opsplen(parlex.Productions, int) int
fun opsstr(parlex.Productions, int, int) string
axiom oplen0: forall("p:parlex.Production", oplen(p) >= 0, oplen(p))
axiom opslen0: forall("p:parlex.Productions", opslen(p) >= 0, opslen(p))
axiom opsplen0: forall("p:parlex.Productions, i", opsplen(p, i) >= 0, opsplen(p, i))
def isSP(p) = is(p, "*setsymbol.Production")
def asSP(p) = as(p, "*setsymbol.Production")
def isTP(p) = is(p, "stringsymbol.Production")
def asTP(p) = as(p, "stringsymbol.Production")
def isSPs(p) = is(p, "*setsymbol.Productions")
def asSPs(p) = as(p, "*setsymbol.Productions")
def isTPs(p) = is(p, "stringsymbol.Productions")
def asTPs(p) = as(p, "stringsymbol.Productions")
// the length and the strings of a production
def splen(p) = ite(p == nil, 0, len(p.symbs))
def spstr(p, i) = setstr(p.set, p.symbs[i])
def plen(p) = ite(p == nil, 0, ite(isSP(p), splen(asSP(p)), ite(isTP(p), len(asTP(p)), oplen(p))))
def pstr(p, i) = ite(isSP(p), spstr(asSP(p), i), ite(isTP(p), cast(asTP(p)[i], "string"), opstr(p, i)))
def spok(p) = wt(p.set) && wt(p.symbs) && !ord(arr(p.symbs)) && imp(p.set == nil, len(p.symbs) == 0) && imp(p.set != nil, okset(p.set) && each(p.symbs, i, 0 <= p.symbs[i] && p.symbs[i] < len(p.set.symb2str)))
def prodok(p) = p != nil && imp(isSP(p) && asSP(p) != nil, spok(asSP(p)))
// the number of productions, their lengths and strings
def pslen(p) = ite(p == nil, 0, ite(isSPs(p), ite(asSPs(p) == nil, 0, len(asSPs(p).prods)), ite(isTPs(p), len(asTPs(p)), opslen(p))))
def psplen(p, i) = ite(isSPs(p), len(asSPs(p).prods[i]), ite(isTPs(p), len(asTPs(p)[i]), opsplen(p, i)))
def psstr(p, i, j) = ite(isSPs(p), setstr(asSPs(p).set, asSPs(p).prods[i][j]), ite(isTPs(p), cast(asTPs(p)[i][j], "string"), opsstr(p, i, j)))
def spsok(p) = wt(p.set) && wt(p.prods) && imp(p.set == nil, len(p.prods) == 0) && imp(p.set != nil, okset(p.set) && each(p.prods, i, wt(p.prods[i]) && !ord(arr(p.prods[i])) && each(p.prods[i], j, 0 <= p.prods[i][j] && p.prods[i][j] < len(p.set.symb2str))))
def prodsok(p) = p != nil && imp(isSPs(p) && asSPs(p) != nil, spsok(asSPs(p)))

// ord(a): array a was made to list the non-terminals of a grammar; no other
// list of indexes uses it
fun ord(int) bool
axiom ord0: !ord(0)
// every production and list of productions of a set is within it
def PROK = forall("p:*setsymbol.Production", spok(p), pats(p.symbs), pats(p.set))
def PROKX(x) = forall("p:*setsymbol.Production", imp(p != x, spok(p)), pats(p.symbs), pats(p.set))
def PSOK = forall("p:*setsymbol.Productions", spsok(p), pats(p.prods), pats(p.set))
// only a production whose symbols end last in their array has room to grow
def pend(p) = off(p.symbs) + len(p.symbs)
def full(p) = cap(p.symbs) == len(p.symbs)
def ROOM = forall("p:*setsymbol.Production, q:*setsymbol.Production", imp(p != q && arr(p.symbs) == arr(q.symbs) && arr(p.symbs) != 0, full(p) || (full(q) && pend(q) <= pend(p))), pats(p.symbs, q.symbs))
def ROOMS = forall("p:*setsymbol.Production, q:*setsymbol.Productions", each(q.prods, i, imp(arr(p.symbs) == arr(q.prods[i]) && arr(p.symbs) != 0, full(p) || off(q.prods[i]) + len(q.prods[i]) <= pend(p))), pats(p.symbs, q.prods))
// lists of productions do not share the array that lists them
def LSEP = forall("p:*setsymbol.Productions, q:*setsymbol.Productions", imp(p != q, arr(p.prods) == 0 || arr(p.prods) != arr(q.prods)), pats(p.prods, q.prods))
def PINV = SINV && PROK && PSOK && ROOM && ROOMS && LSEP
// other productions and lists keep their symbols
def KEEP(x) = forall("q:*setsymbol.Production", imp(!fresh(q) && q != x, q.set == old(q.set) && q.symbs == old(q.symbs) && each(old(q.symbs), i, q.symbs[i] == old(q.symbs[i]))), q.symbs)
def KEEPS(x) = forall("q:*setsymbol.Productions", imp(!fresh(q) && q != x, q.set == old(q.set) && q.prods == old(q.prods) && each(old(q.prods), i, q.prods[i] == old(q.prods[i]) && each(old(q.prods[i]), j, q.prods[i][j] == old(q.prods[i][j])))), q.prods)

// production r reads as the i-th production of p
def samestrs(r, p, i) = imp(isSP(r), each(asSP(r).symbs, j, spstr(asSP(r), j) == psstr(p, i, j))) && imp(isTP(r), each(asTP(r), j, cast(asTP(r)[j], "string") == psstr(p, i, j))) && imp(!isSP(r) && !isTP(r), forall("j", imp(0 <= j && j < oplen(r), opstr(r, j) == psstr(p, i, j)), opstr(r, j)))

iface parlex.Production.Symbols(p) n
  because proved for setsymbol and stringsymbol; other implementations are immutable
  requires prodok(p)
  ensures n == plen(p) && n >= 0
iface parlex.Production.Symbol(p, i) s
  because proved for setsymbol and stringsymbol; other implementations are immutable
  makes setsymbol.Symbol
  requires prodok(p) && SINV && 0 <= i && imp(isSP(p), asSP(p) != nil)
  ensures [pastend] (s == nil) == (i >= plen(p))
  ensures [string] imp(s != nil, symarg(s) && symstr(s) == pstr(p, i))
  ensures [inv] SINV
iface parlex.Production.Iter(p) it
  because proved for setsymbol and stringsymbol; other implementations are immutable
  makes parlex.ProductionIterator
  requires p != nil
  ensures fresh(it) && it.Production == p && it.ln == 0 && it.Idx == 0
iface parlex.Productions.Productions(p) n
  because proved for setsymbol and stringsymbol; other implementations are immutable
  requires prodsok(p)
  ensures n == pslen(p) && n >= 0
iface parlex.Productions.Production(p, i) r
  because proved for setsymbol and stringsymbol; other implementations are immutable
  makes setsymbol.Production
  requires prodsok(p) && PINV && 0 <= i && imp(isSPs(p), asSPs(p) != nil)
  ensures [pastend] (r == nil) == (i >= pslen(p))
  ensures [length] imp(r != nil, prodok(r) && imp(isSP(r), asSP(r) != nil) && plen(r) == psplen(p, i))
  ensures [strings] imp(r != nil, samestrs(r, p, i))
  ensures [inv] PINV
iface parlex.Productions.Iter(p) it
  because proved for setsymbol and stringsymbol; other implementations are immutable
  makes parlex.ProductionsIterator
  requires p != nil
  ensures fresh(it) && it.Productions == p && it.ln == 0 && it.Idx == 0

// ---- stringsymbol
func stringsymbol.Production.Symbols(p) n
  prop C03
  like parlex.Production.Symbols : p=mk(p), n=n
func stringsymbol.Production.Symbol(p, i) s
  prop C03
  like parlex.Production.Symbol : p=mk(p), i=i, s=s
func stringsymbol.Production.Iter(p) it
  prop C03
  like parlex.Production.Iter : p=mk(p), it=it
func stringsymbol.CastProduction(production) r
  prop C03
  requires PINV && imp(production != nil, prodok(production) && imp(isSP(production), asSP(production) != nil))
  ensures [nil] imp(production == nil, r == nil)
  ensures [same] imp(isTP(production), r == asTP(production))
  ensures [new] imp(!isTP(production), r == nil || fresh(r))
  ensures [length] len(r) == plen(production)
  ensures [strings] each(r, i, cast(r[i], "string") == pstr(production, i))
  ensures [inv] PINV
  local p stringsymbol.Production
  inv PINV
  inv each(p, i, imp(i < iter, cast(p[i], "string") == pstr(production, i)))
func stringsymbol.Productions.Productions(p) n
  prop C03
  like parlex.Productions.Productions : p=mk(p), n=n
func stringsymbol.Productions.Production(p, i) r
  prop C03
  like parlex.Productions.Production : p=mk(p), i=i, r=r
func stringsymbol.Productions.Iter(p) it
  prop C03
  like parlex.Productions.Iter : p=mk(p), it=it
func stringsymbol.CastProductions(productions) r
  prop C03
  requires PINV && imp(productions != nil, prodsok(productions) && imp(isSPs(productions), asSPs(productions) != nil))
  ensures [nil] imp(productions == nil, r == nil)
  ensures [same] imp(isTPs(productions), r == asTPs(productions))
  ensures [length] len(r) == pslen(productions)
  ensures [lengths] each(r, i, len(r[i]) == psplen(productions, i))
  ensures [strings] each(r, i, each(r[i], j, cast(r[i][j], "string") == psstr(productions, i, j)))
  ensures [inv] PINV
  local p stringsymbol.Productions
  inv PINV
  inv each(p, i, imp(i < iter, len(p[i]) == psplen(productions, i)))
  inv each(p, i, imp(i < iter, each(p[i], j, cast(p[i][j], "string") == psstr(productions, i, j))))
  inv each(p, i, imp(i < iter, arr(p[i]) <= allocated))

// ---- iterators
def itok(it) = it != nil && imp(it.Production != nil, prodok(it.Production) && imp(isSP(it.Production), asSP(it.Production) != nil)) && ite(it.ln == 0, it.Idx == 0, it.Idx >= 0 && it.Production != nil && it.ln == plen(it.Production))
def itpos(it) = ite(it.ln == 0, 0, it.Idx + 1)
func parlex.(*ProductionIterator).Next(it) ok
  prop C03
  requires itok(it) && PINV
  mod it.Symbol, it.ln, it.Idx
  ensures [more] ok == old(itpos(it) < plen(it.Production))
  ensures [element] imp(ok, it.Idx == old(itpos(it)) && symarg(it.Symbol) && symstr(it.Symbol) == old(pstr(it.Production, itpos(it))))
  ensures [position] imp(ok, itpos(it) == old(itpos(it)) + 1)
  ensures [exhausted] imp(!ok, itpos(it) >= plen(it.Production))
  ensures [state] itok(it)
  ensures [inv] PINV
def itsok(it) = it != nil && imp(it.Productions != nil, prodsok(it.Productions) && imp(isSPs(it.Productions), asSPs(it.Productions) != nil)) && ite(it.ln == 0, it.Idx == 0, it.Idx >= 0 && it.Productions != nil && it.ln == pslen(it.Productions))
def itspos(it) = ite(it.ln == 0, 0, it.Idx + 1)
func parlex.(*ProductionsIterator).Next(it) ok
  prop C03
  requires itsok(it) && PINV
  mod it.Production, it.ln, it.Idx
  ensures [more] ok == old(itspos(it) < pslen(it.Productions))
  ensures [index] imp(ok, it.Idx == old(itspos(it)))
  ensures [element] imp(ok, prodok(it.Production) && imp(isSP(it.Production), asSP(it.Production) != nil) && plen(it.Production) == old(psplen(it.Productions, itspos(it))))
  ensures [strings] imp(ok, samestrs(it.Production, it.Productions, old(itspos(it))))
  ensures [position] imp(ok, itspos(it) == old(itspos(it)) + 1)
  ensures [exhausted] imp(!ok, itspos(it) >= pslen(it.Productions))
  ensures [state] itsok(it)
  ensures [inv] PINV

// ---- setsymbol
func setsymbol.(*Production).Symbols(p) n
  prop C03
  ensures n == splen(p)
func setsymbol.(*Production).Symbol(p, i) s
  prop C03
  ghostdef [ite(s == nil, nil, as(s, "*setsymbol.Symbol"))] symstr(s) == spstr(p, i)
  like parlex.Production.Symbol : p=mk(p), i=i, s=s
func setsymbol.(*Production).Iter(p) it
  prop C03
  like parlex.Production.Iter : p=mk(p), it=it
func setsymbol.(*Productions).Productions(p) n
  prop C03
  ensures n == ite(p == nil, 0, len(p.prods))
func setsymbol.(*Productions).Production(p, i) r
  prop C03
  like parlex.Productions.Production : p=mk(p), i=i, r=r
func setsymbol.(*Productions).Iter(p) it
  prop C03
  like parlex.Productions.Iter : p=mk(p), it=it

def symsarg(l) = each(l, i, symarg(l[i]))
func setsymbol.(*Set).Production(s, symbols) p
  prop C03
  born [[]int] !ord(obj)
  requires s != nil && okset(s) && PINV && symsarg(symbols)
  mod s.symb2str, elems(s.symb2str), entries(s.str2sym)
  ensures [new] fresh(p) && p.set == s && len(p.symbs) == len(symbols)
  ensures [strings] each(p.symbs, i, spstr(p, i) == symstr(symbols[i]))
  ensures [inv] PINV
  ensures [stable] GROW && okset(s)
  ensures [place] PLACE(s)
  local p *setsymbol.Production
  inv SINV && PROKX(p) && PSOK && ROOM && ROOMS && LSEP && GROW
  inv okset(s)
  inv PLACE(s)
  inv each(p.symbs, i, imp(i < iter, 0 <= p.symbs[i] && p.symbs[i] < len(s.symb2str) && setstr(s, p.symbs[i]) == symstr(symbols[i])))

func setsymbol.(*Production).AddSymbols(p, symbols)
  hint LISTT
  inv LISTT
  prop C03
  born [[]int] !ord(obj)
  requires p != nil && p.set != nil && PINV && symsarg(symbols)
  mod p.symbs, elems(p.symbs), p.set.symb2str, elems(p.set.symb2str), entries(p.set.str2sym)
  ensures [length] len(p.symbs) == old(len(p.symbs)) + len(symbols)
  ensures [before] each(old(p.symbs), i, p.symbs[i] == old(p.symbs[i]))
  ensures [added] each(symbols, i, spstr(p, old(len(p.symbs)) + i) == symstr(symbols[i]))
  ensures [others] KEEP(p) && KEEPS(nil)
  ensures [inv] PINV
  ensures [stable] GROW && okset(p.set)
  inv PINV && GROW
  inv KEEP(p) && KEEPS(nil)
  inv PLACE(p.set)
  inv arr(p.symbs) == old(arr(p.symbs)) || fresh(p.symbs)
  inv len(p.symbs) == old(len(p.symbs)) + iter
  inv each(old(p.symbs), i, p.symbs[i] == old(p.symbs[i]))
  inv each(symbols, i, imp(i < iter, spstr(p, old(len(p.symbs)) + i) == symstr(symbols[i])))

func setsymbol.(*Set).CastProduction(s, production) p
  prop C03
  born [[]int] !ord(obj)
  requires s != nil && okset(s) && PINV && imp(production != nil, prodok(production) && imp(isSP(production), asSP(production) != nil))
  mod s.symb2str, elems(s.symb2str), entries(s.str2sym)
  ensures [nil] (p == nil) == (production == nil)
  ensures [same] imp(isSP(production) && asSP(production).set == s, p == asSP(production))
  ensures [new] imp(production != nil, p.set == s && imp(!(isSP(production) && old(asSP(production).set) == s), fresh(p)))
  ensures [length] imp(production != nil, len(p.symbs) == old(plen(production)))
  ensures [strings] imp(production != nil, each(p.symbs, i, spstr(p, i) == old(pstr(production, i))))
  ensures [inv] PINV
  ensures [stable] GROW && okset(s)
  ensures [place] PLACE(s)
  local p *setsymbol.Production
  inv SINV && PROKX(p) && PSOK && ROOM && ROOMS && LSEP && GROW
  inv okset(s)
  inv PLACE(s)
  inv each(p.symbs, i, imp(i < iter, 0 <= p.symbs[i] && p.symbs[i] < len(s.symb2str) && setstr(s, p.symbs[i]) == old(pstr(production, i))))

def prodarg(p) = wt(p) && prodok(p) && imp(isSP(p), asSP(p) != nil)
// row r of a list over set s holds the strings of production q in the old state
def row(s, r, q) = len(r) == old(plen(q)) && each(r, j, setstr(s, r[j]) == old(pstr(q, j)))
func setsymbol.(*Set).Productions(s, productions) p
  prop C03
  born [[]int] !ord(obj)
  requires s != nil && okset(s) && PINV && each(productions, i, prodarg(productions[i]))
  mod s.symb2str, elems(s.symb2str), entries(s.str2sym)
  ensures [new] fresh(p) && p.set == s && len(p.prods) == len(productions)
  ensures [rows] each(p.prods, i, row(s, p.prods[i], productions[i]))
  ensures [inv] PINV
  ensures [stable] GROW && okset(s)
  ensures [place] PLACE(s)
  local p *setsymbol.Productions
  inv PINV && GROW && okset(s) && PLACE(s)
  inv each(productions, i, prodarg(productions[i]))
  inv each(p.prods, i, imp(i < iter, len(p.prods[i]) == old(plen(productions[i]))))
  inv each(p.prods, i, imp(i < iter, each(p.prods[i], j, setstr(s, p.prods[i][j]) == old(pstr(productions[i], j)))))

func setsymbol.(*Set).CastProductions(s, productions) p
  prop C03
  born [[]int] !ord(obj)
  requires s != nil && okset(s) && PINV && imp(productions != nil, prodsok(productions) && imp(isSPs(productions), asSPs(productions) != nil))
  mod s.symb2str, elems(s.symb2str), entries(s.str2sym)
  ensures [nil] (p == nil) == (productions == nil)
  ensures [same] imp(isSPs(productions) && asSPs(productions).set == s, p == asSPs(productions))
  ensures [new] imp(productions != nil, p.set == s && imp(!(isSPs(productions) && old(asSPs(productions).set) == s), fresh(p)))
  ensures [length] imp(productions != nil, len(p.prods) == old(pslen(productions)))
  ensures [lengths] imp(productions != nil, each(p.prods, i, len(p.prods[i]) == old(psplen(productions, i))))
  ensures [strings] imp(productions != nil, each(p.prods, i, each(p.prods[i], j, setstr(s, p.prods[i][j]) == old(psstr(productions, i, j)))))
  ensures [inv] PINV
  ensures [stable] GROW && okset(s)
  ensures [place] PLACE(s)
  local p *setsymbol.Productions
  inv PINV && GROW && okset(s) && PLACE(s)
  inv each(p.prods, i, imp(i < iter, len(p.prods[i]) == old(psplen(productions, i))))
  inv each(p.prods, i, imp(i < iter, each(p.prods[i], j, setstr(s, p.prods[i][j]) == old(psstr(productions, i, j)))))

func setsymbol.(*Productions).AddProductions(p, productions)
  hint LISTT
  inv LISTT
  prop C03
  born [[]int] !ord(obj)
  requires p != nil && p.set != nil && PINV && each(productions, i, prodarg(productions[i]))
  mod p.prods, elems(p.prods), p.set.symb2str, elems(p.set.symb2str), entries(p.set.str2sym)
  ensures [length] len(p.prods) == old(len(p.prods)) + len(productions)
  ensures [before] each(old(p.prods), i, p.prods[i] == old(p.prods[i]))
  ensures [added] each(productions, i, row(p.set, p.prods[old(len(p.prods)) + i], productions[i]))
  ensures [place] PLACE(p.set) && p.set == old(p.set) && (arr(p.prods) == old(arr(p.prods)) || fresh(p.prods))
  ensures [others] KEEP(nil) && KEEPS(p)
  ensures [inv] PINV
  ensures [stable] GROW && okset(p.set)
  inv PINV && GROW && PLACE(p.set)
  inv KEEP(nil) && KEEPS(p)
  inv each(productions, i, prodarg(productions[i]))
  inv arr(p.prods) == old(arr(p.prods)) || fresh(p.prods)
  inv len(p.prods) == old(len(p.prods)) + iter
  inv each(old(p.prods), i, p.prods[i] == old(p.prods[i]))
  inv each(productions, i, imp(i < iter, len(p.prods[old(len(p.prods)) + i]) == old(plen(productions[i]))))
  inv each(productions, i, imp(i < iter, each(p.prods[old(len(p.prods)) + i], j, setstr(p.set, p.prods[old(len(p.prods)) + i][j]) == old(pstr(productions[i], j)))))
