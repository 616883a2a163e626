// ---- C20: the first sets ---------------------------------------------------
// nilf(g, s): an empty production can be reached from s through leftmost
// children only (least such relation, nilfw: the production, nilfn: how many
// steps); nuln: a rank for the least relation nul
fun nilf(parlex.Grammar, string) bool
fun nilfw(parlex.Grammar, string) int
fun nilfn(parlex.Grammar, string) int
fun nuln(parlex.Grammar, string) int
axiom nilf0 named: forall("g:parlex.Grammar, s:string, i", imp(0 <= i && i < gnp(g, s) && gpl(g, s, i) == 0, nilf(g, s)), gpl(g, s, i))
axiom nilfS: forall("g:parlex.Grammar, s:string, i", imp(0 <= i && i < gnp(g, s) && gpl(g, s, i) > 0 && nilf(g, gps(g, s, i, 0)), nilf(g, s)), nilf(g, gps(g, s, i, 0)))
axiom nilfE named: forall("g:parlex.Grammar, s:string", imp(nilf(g, s), 0 <= nilfw(g, s) && nilfw(g, s) < gnp(g, s) && imp(gpl(g, s, nilfw(g, s)) > 0, nilf(g, gps(g, s, nilfw(g, s), 0)) && 0 <= nilfn(g, gps(g, s, nilfw(g, s), 0)) && nilfn(g, gps(g, s, nilfw(g, s), 0)) < nilfn(g, s))), nilf(g, s))
axiom nilfpos: forall("g:parlex.Grammar, s:string", nilfn(g, s) >= 0, nilfn(g, s))
axiom nulnpos: forall("g:parlex.Grammar, s:string", nuln(g, s) >= 0, nuln(g, s))
axiom nulnless named: forall("g:parlex.Grammar, s:string, j", imp(nul(g, s) && 0 <= j && j < gpl(g, s, nulw(g, s)), nuln(g, gps(g, s, nulw(g, s), j)) < nuln(g, s)), pats(nul(g, s), gps(g, s, nulw(g, s), j)))
// npre(S, N, g, s, i, n): the indexes in set S of the first n symbols of
// production i of s are in N
fun npre(*setsymbol.Set, #(Array Int Bool), parlex.Grammar, string, int, int) bool
axiom npre0: forall("S:#Int, N:#(Array Int Bool), g:parlex.Grammar, s:string, i", npre(S, N, g, s, i, 0), npre(S, N, g, s, i, 0))
axiom npreS: forall("S:#Int, N:#(Array Int Bool), g:parlex.Grammar, s:string, i, n", imp(0 <= n && npre(S, N, g, s, i, n) && N[sidx(S, gps(g, s, i, n))], npre(S, N, g, s, i, n+1)), pats(npre(S, N, g, s, i, n), gps(g, s, i, n)))
axiom npreE: forall("S:#Int, N:#(Array Int Bool), g:parlex.Grammar, s:string, i, n, j", imp(npre(S, N, g, s, i, n) && 0 <= j && j < n, N[sidx(S, gps(g, s, i, j))]), pats(npre(S, N, g, s, i, n), gps(g, s, i, j)))
axiom npreD: forall("S:#Int, N:#(Array Int Bool), g:parlex.Grammar, s:string, i, n, m", imp(npre(S, N, g, s, i, n) && 0 <= m && m <= n, npre(S, N, g, s, i, m)), pats(npre(S, N, g, s, i, n), npre(S, N, g, s, i, m)))
// closed sets: nothing more to learn about what derives nothing (N), about
// what stands first (F), about empty productions reached (E)
fun closedN(*setsymbol.Set, #(Array Int Bool), parlex.Grammar) bool
axiom closedNdef: forall("S:#Int, N:#(Array Int Bool), g:parlex.Grammar", iff(closedN(S, N, g), forall("s:string, i", imp(0 <= i && i < gnp(g, s) && npre(S, N, g, s, i, gpl(g, s, i)), N[sidx(S, s)]), gpl(g, s, i))), closedN(S, N, g))
fun closedF(*setsymbol.Set, #(Array Int Bool), #(Array Int (Array Int Bool)), parlex.Grammar, int) bool
axiom closedFT: forall("S:#Int, N:#(Array Int Bool), F:#(Array Int (Array Int Bool)), g:parlex.Grammar, m, s:string, i, j", imp(closedF(S, N, F, g, m), imp(0 <= i && i < gnp(g, s) && 0 <= j && j < gpl(g, s, i) && npre(S, N, g, s, i, j) && gnp(g, gps(g, s, i, j)) < 0, F[sidx(S, s)][sidx(S, gps(g, s, i, j))])), pats(closedF(S, N, F, g, m), npre(S, N, g, s, i, j), gps(g, s, i, j)))
axiom closedFN: forall("S:#Int, N:#(Array Int Bool), F:#(Array Int (Array Int Bool)), g:parlex.Grammar, m, s:string, i, j, f", imp(closedF(S, N, F, g, m), imp(0 <= i && i < gnp(g, s) && 0 <= j && j < gpl(g, s, i) && npre(S, N, g, s, i, j) && 0 <= f && f < m && F[sidx(S, gps(g, s, i, j))][f], F[sidx(S, s)][f])), pats(closedF(S, N, F, g, m), npre(S, N, g, s, i, j), F[sidx(S, gps(g, s, i, j))][f]))
axiom closedFI named: forall("S:#Int, N:#(Array Int Bool), F:#(Array Int (Array Int Bool)), g:parlex.Grammar, m", imp(forall("s:string, i, j", imp(0 <= i && i < gnp(g, s) && 0 <= j && j < gpl(g, s, i) && npre(S, N, g, s, i, j) && gnp(g, gps(g, s, i, j)) < 0, F[sidx(S, s)][sidx(S, gps(g, s, i, j))]), gps(g, s, i, j)) && forall("s:string, i, j, f", imp(0 <= i && i < gnp(g, s) && 0 <= j && j < gpl(g, s, i) && npre(S, N, g, s, i, j) && 0 <= f && f < m && F[sidx(S, gps(g, s, i, j))][f], F[sidx(S, s)][f]), F[sidx(S, gps(g, s, i, j))][f]), closedF(S, N, F, g, m)), closedF(S, N, F, g, m))
fun closedE(*setsymbol.Set, #(Array Int Bool), parlex.Grammar) bool
axiom closedEdef: forall("S:#Int, E:#(Array Int Bool), g:parlex.Grammar", iff(closedE(S, E, g), forall("s:string, i", imp(0 <= i && i < gnp(g, s) && imp(gpl(g, s, i) > 0, E[sidx(S, gps(g, s, i, 0))]), E[sidx(S, s)]), gpl(g, s, i))), closedE(S, E, g))
lemma npreAll induct=n: forall("S:#Int, N:#(Array Int Bool), g:parlex.Grammar, s:string, i, n", imp(0 <= n && forall("j", imp(0 <= j && j < n, N[sidx(S, gps(g, s, i, j))]), gps(g, s, i, j)), npre(S, N, g, s, i, n)), npre(S, N, g, s, i, n))
lemma nulCN nulnless npreAll induct=n at=nuln(g,s)+1: forall("S:#Int, N:#(Array Int Bool), g:parlex.Grammar, s:string, n", imp(closedN(S, N, g) && nul(g, s) && nuln(g, s) < n, N[sidx(S, s)]), pats(closedN(S, N, g), nul(g, s)))
lemma nulC nulCN: forall("S:#Int, N:#(Array Int Bool), g:parlex.Grammar, s:string", imp(closedN(S, N, g) && nul(g, s), N[sidx(S, s)]), pats(closedN(S, N, g), nul(g, s)))
lemma nulpC npreAll nulC: forall("S:#Int, N:#(Array Int Bool), g:parlex.Grammar, s:string, i, n", imp(closedN(S, N, g) && nulp(g, s, i, n) && 0 <= n, npre(S, N, g, s, i, n)), pats(closedN(S, N, g), nulp(g, s, i, n)))
lemma firstN lftpE nulpC induct=n at=lftn(g,a,b)+1: forall("S:#Int, N:#(Array Int Bool), F:#(Array Int (Array Int Bool)), g:parlex.Grammar, m, a:string, b:string, n", imp(closedN(S, N, g) && closedF(S, N, F, g, m) && lftp(g, a, b) && gnp(g, b) < 0 && 0 <= sidx(S, b) && sidx(S, b) < m && lftn(g, a, b) < n, F[sidx(S, a)][sidx(S, b)]), pats(closedF(S, N, F, g, m), lftp(g, a, b)))
lemma firstC firstN: forall("S:#Int, N:#(Array Int Bool), F:#(Array Int (Array Int Bool)), g:parlex.Grammar, m, a:string, b:string", imp(closedN(S, N, g) && closedF(S, N, F, g, m) && lftp(g, a, b) && gnp(g, b) < 0 && 0 <= sidx(S, b) && sidx(S, b) < m, F[sidx(S, a)][sidx(S, b)]), pats(closedF(S, N, F, g, m), lftp(g, a, b)))
lemma nilN nilfE induct=n at=nilfn(g,s)+1: forall("S:#Int, E:#(Array Int Bool), g:parlex.Grammar, s:string, n", imp(closedE(S, E, g) && nilf(g, s) && nilfn(g, s) < n, E[sidx(S, s)]), pats(closedE(S, E, g), nilf(g, s)))
lemma nilC nilN: forall("S:#Int, E:#(Array Int Bool), g:parlex.Grammar, s:string", imp(closedE(S, E, g) && nilf(g, s), E[sidx(S, s)]), pats(closedE(S, E, g), nilf(g, s)))
lemma lftpTN lftpE induct=n at=lftn(g,b,c)+1: forall("g:parlex.Grammar, a:string, b:string, c:string, n", imp(lftp(g, a, b) && lftp(g, b, c) && lftn(g, b, c) < n, lftp(g, a, c)), pats(lftp(g, a, b), lftp(g, b, c)))
lemma lftpL lftpTN: forall("g:parlex.Grammar, a:string, b:string, c:string", imp(lft(g, a, b) && lftp(g, b, c), lftp(g, a, c)), pats(lft(g, a, b), lftp(g, b, c)))

// ---- what an analysis holds ------------------------------------------------
// FR(a)[s][f]: f is recorded in the firsts of s; FW: where in its list
ghost FR *analyze.Analytics #(Array Int (Array Int Bool))
ghost FW *analyze.Analytics #(Array Int (Array Int Int))
def AN(a) = len(a.set.symb2str)
def in(a, i) = 0 <= i && i < len(a.set.symb2str)
def ss(a, i) = setstr(a.set, i)
def AI0(a) = a != nil && a.Grammar != nil && GWF(a.Grammar) && a.set != nil && okset(a.set) && INJ(a.set) && ALLSYM(a.Grammar, a.set)
def AL1(a, s) = len(s) == AN(a) && off(s) == 0
def ALEN(a) = AL1(a, a.first2nonterms) && AL1(a, a.nonterm2firsts) && AL1(a, a.nilInFirst) && AL1(a, a.nullable) && AL1(a, a.nonterms) && AL1(a, a.Terminals)
def ASEP(a) = arr(a.nilInFirst) != arr(a.nullable) && arr(a.nilInFirst) != arr(a.nonterms) && arr(a.nilInFirst) != arr(a.Terminals) && arr(a.nullable) != arr(a.nonterms) && arr(a.nullable) != arr(a.Terminals) && arr(a.nonterms) != arr(a.Terminals)
def ANT(a) = forall("i", imp(in(a, i), contents(a.nonterms)[i] == (gnp(a.Grammar, ss(a, i)) >= 0)), contents(a.nonterms)[i])
def ATM(a) = forall("i", imp(in(a, i), contents(a.Terminals)[i] == (gnp(a.Grammar, ss(a, i)) < 0)), contents(a.Terminals)[i])
def f2(a, f) = contents(a.first2nonterms)[f]
def n2(a, s) = contents(a.nonterm2firsts)[s]
def ABS1(a) = forall("f", imp(in(a, f), wt(f2(a, f)) && imp(arr(f2(a, f)) != 0, len(f2(a, f)) == AN(a) && off(f2(a, f)) == 0 && arr(f2(a, f)) != arr(a.nilInFirst) && arr(f2(a, f)) != arr(a.nullable) && arr(f2(a, f)) != arr(a.nonterms) && arr(f2(a, f)) != arr(a.Terminals))), arr(f2(a, f)))
def ABS2(a) = forall("f, h", imp(in(a, f) && in(a, h) && f != h && arr(f2(a, f)) != 0, arr(f2(a, f)) != arr(f2(a, h))), pats(arr(f2(a, f)), arr(f2(a, h))))
def AIS1(a) = forall("s", imp(in(a, s), wt(n2(a, s)) && off(n2(a, s)) == 0 && imp(arr(n2(a, s)) == 0, len(n2(a, s)) == 0)), arr(n2(a, s)))
def AIS2(a) = forall("s, t", imp(in(a, s) && in(a, t) && s != t && arr(n2(a, s)) != 0, arr(n2(a, s)) != arr(n2(a, t))), pats(arr(n2(a, s)), arr(n2(a, t))))
def AFR(a) = forall("s, f", imp(in(a, s) && in(a, f), FR(a)[s][f] == (arr(f2(a, f)) != 0 && contents(f2(a, f))[s])), FR(a)[s][f], pats(contents(f2(a, f))[s], a.set))
def ALS(a) = forall("s, k", imp(in(a, s) && 0 <= k && k < len(n2(a, s)), in(a, contents(n2(a, s))[k]) && FR(a)[s][contents(n2(a, s))[k]]), contents(n2(a, s))[k])
def AFW(a) = forall("s, f", imp(in(a, s) && in(a, f) && FR(a)[s][f], 0 <= FW(a)[s][f] && FW(a)[s][f] < len(n2(a, s)) && contents(n2(a, s))[FW(a)[s][f]] == f), FR(a)[s][f])
def ASND(a) = forall("s, f", imp(in(a, s) && in(a, f) && FR(a)[s][f], gnp(a.Grammar, ss(a, f)) < 0 && lftp(a.Grammar, ss(a, s), ss(a, f))), FR(a)[s][f])
def ANU(a) = forall("i", imp(in(a, i) && contents(a.nullable)[i], nul(a.Grammar, ss(a, i))), contents(a.nullable)[i])
def ANL(a) = forall("i", imp(in(a, i) && contents(a.nilInFirst)[i], nilf(a.Grammar, ss(a, i))), contents(a.nilInFirst)[i])
def AHEAP(a) = AI0(a) && ALEN(a) && ASEP(a) && ANT(a) && ATM(a) && ABS1(a) && ABS2(a) && AIS1(a) && AIS2(a)
def AREL(a) = AFR(a) && ALS(a) && AFW(a) && ASND(a)
def AINV(a) = AHEAP(a) && AREL(a) && ANU(a) && ANL(a)
// nothing was changed
def UNCH(a) = hp("[]bool") == old(hp("[]bool")) && hp("[][]bool") == old(hp("[][]bool")) && hp("[][]int") == old(hp("[][]int")) && hp("[]int") == old(hp("[]int")) && FR(a) == old(FR(a)) && FW(a) == old(FW(a))

func analyze.(*Analytics).addFirst(a, symbol, first) r
  prop C20
  view g
  requires AHEAP(a) && AREL(a) && in(a, symbol) && in(a, first) && gnp(a.Grammar, ss(a, first)) < 0 && lftp(a.Grammar, ss(a, symbol), ss(a, first))
  mod elems(a.first2nonterms), elems(a.nonterm2firsts), elems(a.first2nonterms[first]), elems(a.nonterm2firsts[symbol]), FR(a), FW(a)
  gset FR(a) = ite(r, upd(FR(a), symbol, upd(FR(a)[symbol], first, true)), FR(a))
  gset FW(a) = ite(r, upd(FW(a), symbol, upd(FW(a)[symbol], first, old(len(a.nonterm2firsts[symbol])))), FW(a))
  ensures [same] imp(!r, UNCH(a))
  ensures [recorded] FR(a)[symbol][first]
  ensures [heap] AHEAP(a)
  ensures [relation] AFR(a)
  ensures [lists] ALS(a)
  ensures [places] AFW(a)
  ensures [sound] ASND(a)
  ensures [grow] forall("s, f", imp(old(FR(a)[s][f]), FR(a)[s][f]), FR(a)[s][f])
  ensures [cell] forall("k", imp(k != old(len(n2(a, symbol))), hp("[]int")[old(arr(n2(a, symbol)))][k] == old(hp("[]int")[arr(n2(a, symbol))][k])), hp("[]int")[old(arr(n2(a, symbol)))][k])
  ensures [moved] fresh(n2(a, symbol)) || (arr(n2(a, symbol)) == old(arr(n2(a, symbol))) && off(n2(a, symbol)) == old(off(n2(a, symbol))) && len(n2(a, symbol)) >= old(len(n2(a, symbol))))

// what one look at the symbol t (index x) learns nothing from: production i,
// position j
def NUc(a) = contents(a.nullable)
def NIc(a) = contents(a.nilInFirst)
def CT(a, t, i, j) = imp(gnp(a.Grammar, gps(a.Grammar, t, i, j)) < 0, FR(a)[sidx(a.set, t)][sidx(a.set, gps(a.Grammar, t, i, j))])
def CF(a, t, i, j, f) = imp(0 <= f && f < AN(a) && FR(a)[sidx(a.set, gps(a.Grammar, t, i, j))][f], FR(a)[sidx(a.set, t)][f])
def npr(a, t, i, j) = npre(a.set, NUc(a), a.Grammar, t, i, j)
def CTs(a, t, n) = forall("i, j", imp(0 <= i && i < n && 0 <= j && j < gpl(a.Grammar, t, i) && npr(a, t, i, j), CT(a, t, i, j)), gps(a.Grammar, t, i, j))
def CFs(a, t, n) = forall("i, j, f", imp(0 <= i && i < n && 0 <= j && j < gpl(a.Grammar, t, i) && npr(a, t, i, j), CF(a, t, i, j, f)), FR(a)[sidx(a.set, gps(a.Grammar, t, i, j))][f])
def CNs(a, t, n) = forall("i", imp(0 <= i && i < n && npr(a, t, i, gpl(a.Grammar, t, i)), NUc(a)[sidx(a.set, t)]), gpl(a.Grammar, t, i))
def CEs(a, t, n) = forall("i", imp(0 <= i && i < n && imp(gpl(a.Grammar, t, i) > 0, NIc(a)[sidx(a.set, gps(a.Grammar, t, i, 0))]), NIc(a)[sidx(a.set, t)]), gpl(a.Grammar, t, i))
def CUR(a, s, it, jt) = sidx(a.set, gps(a.Grammar, ss(a, s.val), it.Idx, jt.Idx))
func analyze.(*Analytics).firsts(a, s) r
  use nilf0 lftpL
  prop C20
  view g
  requires AINV(a) && s != nil && s.set == a.set && in(a, s.val) && symstr(mk(s)) == ss(a, s.val) && gnp(a.Grammar, ss(a, s.val)) >= 0
  mod a.set.symb2str, elems(a.first2nonterms), elems(a.nonterm2firsts), elemsof("bool", x, x != arr(a.nonterms) && x != arr(a.Terminals)), elemsof("int", x, true), FR(a), FW(a)
  ensures [same] imp(!r, UNCH(a))
  ensures [size] AN(a) == old(AN(a))
  ensures [heap] AHEAP(a)
  ensures [relation] AREL(a)
  ensures [nullable] ANU(a)
  ensures [nil] ANL(a)
  ensures [terminals] imp(!r, CTs(a, ss(a, s.val), gnp(a.Grammar, ss(a, s.val))))
  ensures [inherited] imp(!r, CFs(a, ss(a, s.val), gnp(a.Grammar, ss(a, s.val))))
  ensures [nullables] imp(!r, CNs(a, ss(a, s.val), gnp(a.Grammar, ss(a, s.val))))
  ensures [empties] imp(!r, CEs(a, ss(a, s.val), gnp(a.Grammar, ss(a, s.val))))
  local it *parlex.ProductionsIterator
  local jt *parlex.ProductionIterator
  local prods parlex.Productions
  local changed bool phi
  local nullable bool phi
  local nilInFirst bool phi
  local fs []int
  variant [d1] rpsl(it.Productions) - vitspos(it)
  variant [d2] rpl(jt.Production) - vipos(jt)
  inv AN(a) == old(AN(a))
  inv AHEAP(a)
  inv AREL(a)
  inv ANU(a)
  inv ANL(a)
  inv fresh(it)
  inv fresh(jt)
  inv vitsok(it) && vitspos(it) <= gnp(a.Grammar, ss(a, s.val)) && it.Productions == prods
  inv vitok(jt) && jt.Production == it.Production && vipos(jt) <= rpl(jt.Production)
  inv [d2] vitspos(it) > 0
  inv [d3] vitspos(it) > 0
  inv imp(!changed, UNCH(a))
  inv [d1] imp(!changed, CTs(a, ss(a, s.val), vitspos(it)))
  inv [d1] imp(!changed, CFs(a, ss(a, s.val), vitspos(it)))
  inv [d1] imp(!changed, CNs(a, ss(a, s.val), vitspos(it)))
  inv [d1] imp(!changed, CEs(a, ss(a, s.val), vitspos(it)))
  inv imp(!changed, CTs(a, ss(a, s.val), it.Idx))
  inv imp(!changed, CFs(a, ss(a, s.val), it.Idx))
  inv imp(!changed, CNs(a, ss(a, s.val), it.Idx))
  inv imp(!changed, CEs(a, ss(a, s.val), it.Idx))
  inv [d2] imp(!changed, forall("j", imp(0 <= j && j < vipos(jt), CT(a, ss(a, s.val), it.Idx, j)), gps(a.Grammar, ss(a, s.val), it.Idx, j)))
  inv [d2] imp(!changed, forall("j, f", imp(0 <= j && j < vipos(jt), CF(a, ss(a, s.val), it.Idx, j, f)), FR(a)[sidx(a.set, gps(a.Grammar, ss(a, s.val), it.Idx, j))][f]))
  inv [d3] imp(!changed, CT(a, ss(a, s.val), it.Idx, jt.Idx))
  inv [d3] imp(!changed, forall("j", imp(0 <= j && j < jt.Idx, CT(a, ss(a, s.val), it.Idx, j)), gps(a.Grammar, ss(a, s.val), it.Idx, j)))
  inv [d3] imp(!changed, forall("j, f", imp(0 <= j && j < jt.Idx, CF(a, ss(a, s.val), it.Idx, j, f)), FR(a)[sidx(a.set, gps(a.Grammar, ss(a, s.val), it.Idx, j))][f]))
  inv [d2] iff(nullable, npr(a, ss(a, s.val), it.Idx, vipos(jt)))
  inv [d3] npr(a, ss(a, s.val), it.Idx, jt.Idx) && vipos(jt) > 0
  inv [d2] imp(nullable, nulp(a.Grammar, ss(a, s.val), it.Idx, vipos(jt)))
  inv [d3] nulp(a.Grammar, ss(a, s.val), it.Idx, jt.Idx)
  inv [d2] imp(vipos(jt) == 0, nilInFirst == (gpl(a.Grammar, ss(a, s.val), it.Idx) == 0))
  inv [d2] imp(vipos(jt) > 0, nilInFirst == NIc(a)[sidx(a.set, gps(a.Grammar, ss(a, s.val), it.Idx, 0))])
  inv [d2] imp(vipos(jt) == 0, nullable)
  inv [d3] in(a, CUR(a, s, it, jt))
  inv [d3] forall("k", imp(0 <= k && k < len(fs), in(a, contents(fs)[k]) && FR(a)[CUR(a, s, it, jt)][contents(fs)[k]]), contents(fs)[k])
  inv [d2] NIc(a) == lold(NIc(a)) && NUc(a) == lold(NUc(a))
  inv [d3] NIc(a) == lold(NIc(a)) && NUc(a) == lold(NUc(a))
  inv [d3] off(fs) == 0 && imp(len(fs) > 0 && arr(fs) == arr(n2(a, s.val)), len(fs) <= len(n2(a, s.val)))
  inv [d3] imp(!changed, arr(fs) == arr(n2(a, CUR(a, s, it, jt))) && off(fs) == off(n2(a, CUR(a, s, it, jt))) && len(fs) == len(n2(a, CUR(a, s, it, jt))))
  inv [d3] imp(!changed, forall("k", imp(0 <= k && k < iter, FR(a)[s.val][contents(fs)[k]]), contents(fs)[k]))

// ---- the analysis is exact -------------------------------------------------
def EXR(a) = forall("s, f", imp(in(a, s) && in(a, f), FR(a)[s][f] == (gnp(a.Grammar, ss(a, f)) < 0 && lftp(a.Grammar, ss(a, s), ss(a, f)))), FR(a)[s][f])
def EXN(a) = forall("i", imp(in(a, i), contents(a.nilInFirst)[i] == nilf(a.Grammar, ss(a, i))), contents(a.nilInFirst)[i])
def AX(a) = AI0(a) && ALEN(a) && ANT(a) && ABS1(a) && AFR(a) && ONLYSYM(a.Grammar, a.set, 0) && EXR(a) && EXN(a)
def GK(a, k) = gnts(a.Grammar, k)
def CTK(a, n) = forall("k, i, j", imp(0 <= k && k < n && 0 <= i && i < gnp(a.Grammar, GK(a, k)) && 0 <= j && j < gpl(a.Grammar, GK(a, k), i) && npr(a, GK(a, k), i, j), CT(a, GK(a, k), i, j)), gps(a.Grammar, GK(a, k), i, j))
def CFK(a, n) = forall("k, i, j, f", imp(0 <= k && k < n && 0 <= i && i < gnp(a.Grammar, GK(a, k)) && 0 <= j && j < gpl(a.Grammar, GK(a, k), i) && npr(a, GK(a, k), i, j), CF(a, GK(a, k), i, j, f)), FR(a)[sidx(a.set, gps(a.Grammar, GK(a, k), i, j))][f])
def CNK(a, n) = forall("k, i", imp(0 <= k && k < n && 0 <= i && i < gnp(a.Grammar, GK(a, k)) && npr(a, GK(a, k), i, gpl(a.Grammar, GK(a, k), i)), NUc(a)[sidx(a.set, GK(a, k))]), gpl(a.Grammar, GK(a, k), i))
def CEK(a, n) = forall("k, i", imp(0 <= k && k < n && 0 <= i && i < gnp(a.Grammar, GK(a, k)) && imp(gpl(a.Grammar, GK(a, k), i) > 0, NIc(a)[sidx(a.set, gps(a.Grammar, GK(a, k), i, 0))]), NIc(a)[sidx(a.set, GK(a, k))]), gpl(a.Grammar, GK(a, k), i))
func analyze.Analyze(grammar) r
  prop C20
  view g
  use closedFI firstC nilC
  requires grammar != nil && wt(grammar) && imp(is(grammar, "*analyze.Analytics"), as(grammar, "*analyze.Analytics") != nil && AX(as(grammar, "*analyze.Analytics"))) && imp(!is(grammar, "*analyze.Analytics"), GWF(grammar))
  born [analyze.Analytics] forall("s, f", !FR(obj)[s][f], FR(obj)[s][f])
  mod elemsof("bool", x, true), elemsof("int", x, true)
  ensures [same] imp(is(grammar, "*analyze.Analytics"), r == as(grammar, "*analyze.Analytics"))
  ensures [new] imp(!is(grammar, "*analyze.Analytics"), fresh(r) && r.Grammar == grammar)
  ensures [set] AI0(r) && ALEN(r) && ANT(r) && ABS1(r) && AFR(r) && ONLYSYM(r.Grammar, r.set, 0)
  ensures [firsts] EXR(r)
  ensures [empty] EXN(r)
  local a *analyze.Analytics
  local nts []parlex.Symbol
  local changed bool phi
  inv fresh(a) && a.Grammar == grammar && fresh(a.set)
  inv AI0(a) && ALEN(a) && ASEP(a) && ABS1(a) && ABS2(a) && AIS1(a) && AIS2(a)
  inv AREL(a)
  inv ANU(a)
  inv ANL(a)
  inv [ANT] ANT(a)
  inv ATM(a)
  inv ONLYSYM(a.Grammar, a.set, 0)
  inv fresh(a.nonterms) && fresh(a.Terminals) && fresh(a.nullable) && fresh(a.nilInFirst) && fresh(a.first2nonterms) && fresh(a.nonterm2firsts)
  inv fresh(nts) && len(nts) == gnt(grammar) && each(nts, i, nts[i] != nil && vsym(nts[i]) && wt(nts[i]) && symstr(nts[i]) == gnts(grammar, i))
  inv [d1] forall("k", imp(0 <= k && k < iter, contents(a.nonterms)[sidx(a.set, gnts(grammar, k))]), gnts(grammar, k))
  inv [d1] forall("i", imp(in(a, i) && contents(a.nonterms)[i], gnp(grammar, ss(a, i)) >= 0), contents(a.nonterms)[i])
  inv [d1] forall("i", imp(in(a, i) && i < iter, contents(a.Terminals)[i] == !contents(a.nonterms)[i]), contents(a.Terminals)[i])
  inv [d2] imp(!changed, CTK(a, iter))
  inv [d2] imp(!changed, CFK(a, iter))
  inv [d2] imp(!changed, CNK(a, iter))
  inv [d2] imp(!changed, CEK(a, iter))
  inv [d1] imp(!changed, closedN(a.set, NUc(a), a.Grammar))
  inv [d1] imp(!changed, closedE(a.set, NIc(a), a.Grammar))
  inv [d1] imp(!changed, closedF(a.set, NUc(a), FR(a), a.Grammar, AN(a)))

func analyze.(*Analytics).Contains(a, symbol) r
  prop C20
  view g
  requires a != nil && AX(a) && symbol != nil && vsym(symbol)
  ensures [symbol] r == gsym(a.Grammar, symstr(symbol))
func analyze.(*Analytics).NonTerminal(a, symbol) r
  prop C20
  view g
  requires a != nil && AX(a) && symbol != nil && vsym(symbol)
  ensures [nonterminal] r == (gnp(a.Grammar, symstr(symbol)) >= 0)
func analyze.(*Analytics).HasFirst(a, symbol, first) r
  prop C20
  view g
  requires a != nil && AX(a) && symbol != nil && vsym(symbol) && first != nil && vsym(first)
  ensures [first] r == (gsym(a.Grammar, symstr(symbol)) && gsym(a.Grammar, symstr(first)) && (symstr(symbol) == symstr(first) || (gnp(a.Grammar, symstr(first)) < 0 && lftp(a.Grammar, symstr(symbol), symstr(first)))))
func analyze.(*Analytics).HasNilInFirst(a, symbol) r
  prop C20
  view g
  use nilfE
  requires a != nil && AX(a) && symbol != nil && vsym(symbol)
  ensures [nil] r == nilf(a.Grammar, symstr(symbol))
