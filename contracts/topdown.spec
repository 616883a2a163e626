// ---- symbol sets as their users see them (view g) ------------------------
// The tables are hidden; how many strings a set has is not. sidx(s, t): the
// first index of set s whose string is t, if there is one; HASS: the set has it
def INJ(s) = forall("i, j", imp(0 <= i && i < len(s.symb2str) && 0 <= j && j < len(s.symb2str) && setstr(s, i) == setstr(s, j), i == j), pats(setstr(s, i), setstr(s, j)))
fun sidx(*setsymbol.Set, string) int
axiom sidxdef: forall("s:#Int, i", imp(0 <= i, 0 <= sidx(s, setstr(s, i)) && sidx(s, setstr(s, i)) <= i && setstr(s, sidx(s, setstr(s, i))) == setstr(s, i)), setstr(s, i))
def HASS(s, t) = 0 <= sidx(s, t) && sidx(s, t) < len(s.symb2str) && setstr(s, sidx(s, t)) == t
// gsym(g, t): t is a symbol of the grammar g
fun gsym(parlex.Grammar, string) bool
fun gsw(parlex.Grammar, string) string
fun gsi(parlex.Grammar, string) int
fun gsj(parlex.Grammar, string) int
axiom gsymN: forall("g:parlex.Grammar, t:string", imp(gnp(g, t) >= 0, gsym(g, t)), gsym(g, t))
axiom gsymP: forall("g:parlex.Grammar, s:string, i, j", imp(0 <= i && i < gnp(g, s) && 0 <= j && j < gpl(g, s, i), gsym(g, gps(g, s, i, j))), gps(g, s, i, j))
axiom gsymE: forall("g:parlex.Grammar, t:string", imp(gsym(g, t), gnp(g, t) >= 0 || (gnp(g, gsw(g, t)) >= 0 && 0 <= gsi(g, t) && gsi(g, t) < gnp(g, gsw(g, t)) && 0 <= gsj(g, t) && gsj(g, t) < gpl(g, gsw(g, t), gsi(g, t)) && gps(g, gsw(g, t), gsi(g, t), gsj(g, t)) == t)), gsym(g, t))
def ALLSYM(g, s) = forall("t:string", imp(gsym(g, t), HASS(s, t)), gsym(g, t))
def ONLYSYM(g, s, n) = forall("i", imp(n <= i && i < len(s.symb2str), gsym(g, setstr(s, i))), setstr(s, i))

func setsymbol.New@g() s
  prop C08 C09
  encap SINV
  ensures [empty] fresh(s) && okset(s) && len(s.symb2str) == 0
func setsymbol.(*Set).Size@g(s) n
  prop C10 C11 C20
  requires s != nil
  ensures n == len(s.symb2str)
func setsymbol.(*Set).ByIdx@g(s, idx) r
  prop C08 C09
  encap SINV
  requires s != nil && okset(s) && 0 <= idx && idx < len(s.symb2str)
  ghostdef [r] symstr(mk(r)) == s.symb2str[idx]
  ensures [symbol] fresh(r) && r.set == s && r.val == idx && symstr(mk(r)) == setstr(s, idx)
func setsymbol.(*Set).Symbol@g(s, symbol) r
  prop C08 C09
  encap SINV
  hide elems(s.symb2str), entries(s.str2sym)
  requires s != nil && okset(s) && symbol != nil && vsym(symbol)
  mod s.symb2str
  ensures [symbol] r != nil && r.set == s && 0 <= r.val && r.val < len(s.symb2str) && symstr(mk(r)) == symstr(symbol) && setstr(s, r.val) == symstr(symbol)
  ensures [index] r.val == sidx(s, symstr(symbol))
  ensures [grow] len(s.symb2str) >= old(len(s.symb2str))
  ensures [known] imp(old(HASS(s, symstr(symbol))), len(s.symb2str) == old(len(s.symb2str)))
  ensures [new] forall("i", imp(old(len(s.symb2str)) <= i && i < len(s.symb2str), setstr(s, i) == symstr(symbol)), setstr(s, i))
  ensures [oneone] INJ(s)
func setsymbol.(*Set).HasSymbol@g(s, symbol) r
  prop C20
  encap SINV
  requires s != nil && okset(s) && symbol != nil && vsym(symbol)
  ghostdef [ite(is(symbol, "*setsymbol.Symbol") && as(symbol, "*setsymbol.Symbol") == r, nil, r)] symstr(mk(r)) == symstr(symbol)
  ensures [absent] (r == nil) == !HASS(s, symstr(symbol))
  ensures [symbol] imp(r != nil, r.set == s && r.val == sidx(s, symstr(symbol)))
func setsymbol.(*Set).LoadGrammar@g(s, grammar)
  prop C08 C09
  view g
  requires s != nil && okset(s) && INJ(s) && grammar != nil && GWF(grammar)
  mod s.symb2str
  ensures [set] INJ(s) && len(s.symb2str) >= old(len(s.symb2str))
  ensures [all] ALLSYM(grammar, s)
  ensures [only] ONLYSYM(grammar, s, old(len(s.symb2str)))
  local it *parlex.ProductionsIterator
  local jt *parlex.ProductionIterator
  local nts []parlex.Symbol
  local cur int
  local prods parlex.Productions
  variant rpsl(it.Productions) - vitspos(it)
  variant rpl(jt.Production) - vipos(jt)
  inv INJ(s) && len(s.symb2str) >= old(len(s.symb2str))
  inv ONLYSYM(grammar, s, old(len(s.symb2str)))
  inv HASS(s, gnts(grammar, cur))
  inv forall("k", imp(0 <= k && k < cur, HASS(s, gnts(grammar, k))), gnts(grammar, k))
  inv forall("k, a, j", imp(0 <= k && k < cur && 0 <= a && a < gnp(grammar, gnts(grammar, k)) && 0 <= j && j < gpl(grammar, gnts(grammar, k), a), HASS(s, gps(grammar, gnts(grammar, k), a, j))), gps(grammar, gnts(grammar, k), a, j))
  inv it.Productions == prods
  inv forall("a, j", imp(0 <= a && a < vitspos(it) && 0 <= j && j < rpspl(prods, a), HASS(s, rpss(prods, a, j))), rpss(prods, a, j))
  inv jt.Production == it.Production && vitspos(it) > 0
  inv forall("a, j", imp(0 <= a && a < it.Idx && 0 <= j && j < rpspl(prods, a), HASS(s, rpss(prods, a, j))), rpss(prods, a, j))
  inv forall("j", imp(0 <= j && j < vipos(jt), HASS(s, rps(jt.Production, j))), rps(jt.Production, j))
  inv fresh(nts) && len(nts) == gnt(grammar) && each(nts, i, nts[i] != nil && vsym(nts[i]) && wt(nts[i]) && symstr(nts[i]) == gnts(grammar, i))
  inv fresh(it)
  inv fresh(jt)
  inv vitsok(it) && vitspos(it) <= rpsl(it.Productions)
  inv vitok(jt) && vipos(jt) <= rpl(jt.Production)

// ---- C08, C09: the top down parser -----------------------------------------
// the input: kinds, values and positions of the lexemes; nin(0): how many
fun inp(int) string
fun inval(int) string
fun inl(int) int
fun inc(int) int
fun nin(int) int
def lexin(l, p) = lxok(l) && lkind(l) != nil && vsym(lkind(l)) && symstr(lkind(l)) == inp(p) && lval(l) == inval(p) && lline(l) == inl(p) && lcol(l) == inc(p)
def LEXIN(ls) = len(ls) == nin(0) && each(ls, i, lexin(ls[i], i))
def lexof(q, s, p) = q != nil && is(q.K, "*setsymbol.Symbol") && as(q.K, "*setsymbol.Symbol") != nil && as(q.K, "*setsymbol.Symbol").set == s && 0 <= as(q.K, "*setsymbol.Symbol").val && as(q.K, "*setsymbol.Symbol").val < len(s.symb2str) && setstr(s, as(q.K, "*setsymbol.Symbol").val) == inp(p) && symstr(q.K) == inp(p) && q.V == inval(p) && q.L == inl(p) && q.C == inc(p)
func setsymbol.(*Set).LoadLexemes@g(s, lexemes) out
  prop C08 C09
  view g
  requires s != nil && okset(s) && INJ(s) && LEXIN(lexemes)
  mod s.symb2str
  ensures [set] INJ(s) && len(s.symb2str) >= old(len(s.symb2str))
  ensures [new] fresh(out) && len(out) == len(lexemes)
  ensures [lexemes] each(out, p, fresh(out[p]) && lexof(out[p], s, p))
  local out []*lexeme.Lexeme
  inv INJ(s) && len(s.symb2str) >= old(len(s.symb2str))
  inv LEXIN(lexemes)
  inv each(out, p, imp(p < iter, fresh(out[p]) && lexof(out[p], s, p)))

// Ordered choice. acc(g, s, p, q): symbol s matches from p and ends at q;
// fl(g, s, p): it does not match; pacc(g, s, i, n, p, q): the first n symbols
// of production i of s match one after the other from p, ending at q;
// pfl(g, s, i, p): production i does not match; pfls(g, s, n, p): nor do the
// first n. tops(g, s, n): the first n productions of s do not match from 0, or
// end before the end of the input.
fun acc(parlex.Grammar, string, int, int) bool
fun fl(parlex.Grammar, string, int) bool
fun pacc(parlex.Grammar, string, int, int, int, int) bool
fun pfl(parlex.Grammar, string, int, int) bool
fun pfls(parlex.Grammar, string, int, int) bool
fun tops(parlex.Grammar, string, int) bool
axiom accT: forall("g:parlex.Grammar, s:string, p", imp(gnp(g, s) < 0 && 0 <= p && p < nin(0) && inp(p) == s, acc(g, s, p, p+1)), pats(gnp(g, s), inp(p)))
axiom flT: forall("g:parlex.Grammar, s:string, p", imp(gnp(g, s) < 0 && !(0 <= p && p < nin(0) && inp(p) == s), fl(g, s, p)), fl(g, s, p))
axiom pacc0: forall("g:parlex.Grammar, s:string, i, p", pacc(g, s, i, 0, p, p), pacc(g, s, i, 0, p, p))
axiom paccS: forall("g:parlex.Grammar, s:string, i, n, p, q, r", imp(0 <= i && i < gnp(g, s) && 0 <= n && n < gpl(g, s, i) && pacc(g, s, i, n, p, q) && acc(g, gps(g, s, i, n), q, r), pacc(g, s, i, n+1, p, r)), pats(pacc(g, s, i, n, p, q), acc(g, gps(g, s, i, n), q, r)))
axiom pflI: forall("g:parlex.Grammar, s:string, i, n, p, q", imp(0 <= i && i < gnp(g, s) && 0 <= n && n < gpl(g, s, i) && pacc(g, s, i, n, p, q) && fl(g, gps(g, s, i, n), q), pfl(g, s, i, p)), pats(pacc(g, s, i, n, p, q), fl(g, gps(g, s, i, n), q)))
axiom pfls0: forall("g:parlex.Grammar, s:string, p", pfls(g, s, 0, p), pfls(g, s, 0, p))
axiom pflsS: forall("g:parlex.Grammar, s:string, n, p", imp(pfls(g, s, n, p) && 0 <= n && n < gnp(g, s) && pfl(g, s, n, p), pfls(g, s, n+1, p)), pats(pfls(g, s, n, p), pfl(g, s, n, p)))
axiom accN: forall("g:parlex.Grammar, s:string, i, p, q", imp(0 <= i && i < gnp(g, s) && pfls(g, s, i, p) && pacc(g, s, i, gpl(g, s, i), p, q), acc(g, s, p, q)), pats(pfls(g, s, i, p), pacc(g, s, i, gpl(g, s, i), p, q)))
axiom flN: forall("g:parlex.Grammar, s:string, n, p", imp(gnp(g, s) >= 0 && n >= gnp(g, s) && pfls(g, s, n, p), fl(g, s, p)), pfls(g, s, n, p))
axiom tops0: forall("g:parlex.Grammar, s:string", tops(g, s, 0), tops(g, s, 0))
axiom topsF: forall("g:parlex.Grammar, s:string, n", imp(tops(g, s, n) && 0 <= n && n < gnp(g, s) && pfl(g, s, n, 0), tops(g, s, n+1)), pats(tops(g, s, n), pfl(g, s, n, 0)))
axiom topsE: forall("g:parlex.Grammar, s:string, n, q", imp(tops(g, s, n) && 0 <= n && n < gnp(g, s) && pacc(g, s, n, gpl(g, s, n), 0, q) && q != nin(0), tops(g, s, n+1)), pats(tops(g, s, n), pacc(g, s, n, gpl(g, s, n), 0, q)))
// topfl(g, s): no production of s matches the whole input
fun topfl(parlex.Grammar, string) bool
axiom topflI: forall("g:parlex.Grammar, s:string, n", imp(gnp(g, s) >= 0 && n >= gnp(g, s) && tops(g, s, n), topfl(g, s)), tops(g, s, n))
// pm(d, g, s, i): the production d has the symbols of production i of s
fun pm(parlex.Production, parlex.Grammar, string, int) bool
axiom pmI: forall("d:parlex.Production, g:parlex.Grammar, s:string, i", imp(0 <= i && i < gnp(g, s) && rpl(d) == gpl(g, s, i) && forall("j", rps(d, j) == gps(g, s, i, j), rps(d, j)), pm(d, g, s, i)), pm(d, g, s, i))
axiom pmE: forall("d:parlex.Production, g:parlex.Grammar, s:string, i", imp(pm(d, g, s, i), 0 <= i && i < gnp(g, s) && rpl(d) == gpl(g, s, i)), pm(d, g, s, i))
axiom pmS: forall("d:parlex.Production, g:parlex.Grammar, s:string, i, j", imp(pm(d, g, s, i), rps(d, j) == gps(g, s, i, j)), pats(pm(d, g, s, i), rps(d, j)), pats(pm(d, g, s, i), gps(g, s, i, j)))
// isprod(d, g, s): some production of s has the symbols of d
fun isprod(parlex.Production, parlex.Grammar, string) bool
axiom isprodI: forall("d:parlex.Production, g:parlex.Grammar, s:string, i", imp(pm(d, g, s, i), isprod(d, g, s)), pm(d, g, s, i))
// a grammar without left recursion, with finitely many symbols, has a rank
// that falls from a non-terminal to what can stand first in it
fun lrank(parlex.Grammar, string) int
axiom lrankpos: forall("g:parlex.Grammar, s:string", lrank(g, s) >= 0, lrank(g, s))
axiom lrankless: forall("g:parlex.Grammar, a:string, b:string", imp(GWF(g) && !leftrec(g) && lft(g, a, b), lrank(g, b) < lrank(g, a)), lft(g, a, b))

// The nodes the parser makes (mnode), named when they are made: symbol, from
// and to where, the production, and the children.
ghost mnode *tree.PN bool
fun msym(*tree.PN) string
fun mpos(*tree.PN) int
fun mend(*tree.PN) int
fun mpr(*tree.PN) parlex.Production
fun mcnt(*tree.PN) int
fun mch(*tree.PN, int) *tree.PN
// chosen(g, n): n is made from the first production that matches, or is a leaf;
// topch(g, n): from the first that matches and ends at the end of the input
fun chosen(parlex.Grammar, *tree.PN) bool
fun topch(parlex.Grammar, *tree.PN) bool
axiom chosenT: forall("g:parlex.Grammar, n", imp(gnp(g, msym(n)) < 0, chosen(g, n)), chosen(g, n))
axiom chosenN: forall("g:parlex.Grammar, n, i", imp(pm(mpr(n), g, msym(n), i) && pfls(g, msym(n), i, mpos(n)), chosen(g, n)), pats(chosen(g, n), pfls(g, msym(n), i, mpos(n))))
axiom topchI: forall("g:parlex.Grammar, n, i", imp(pm(mpr(n), g, msym(n), i) && tops(g, msym(n), i) && mpos(n) == 0 && mend(n) == nin(0), topch(g, n)), pats(topch(g, n), tops(g, msym(n), i)))
// what holds of all these nodes: in memory (MT), and for the grammar (MG)
def mlx(n) = asLx(n.Lexeme)
def MT1 = forall("n:*tree.PN", imp(mnode(n) && alloc(n), n != nil && wt(n.C) && wt(n.Lexeme) && len(n.C) == mcnt(n) && isLx(n.Lexeme) && mlx(n) != nil && mlx(n).K != nil && symstr(mlx(n).K) == msym(n) && wt(mlx(n).K)), mnode(n))
def MT2 = forall("n:*tree.PN", imp(mnode(n) && alloc(n), each(n.C, j, n.C[j] == mch(n, j))), mnode(n))
def MT3 = forall("n:*tree.PN, j", imp(mnode(n) && alloc(n) && 0 <= j && j < mcnt(n), mch(n, j) != nil && alloc(mch(n, j)) && mch(n, j) < n && mnode(mch(n, j))), mch(n, j))
def MT = MT1 && MT2 && MT3
def mleaf(n) = mcnt(n) == 0 && 0 <= mpos(n) && mpos(n) < nin(0) && inp(mpos(n)) == msym(n) && mend(n) == mpos(n) + 1 && mlx(n).V == inval(mpos(n)) && mlx(n).L == inl(mpos(n)) && mlx(n).C == inc(mpos(n))
def minner(g, n) = isprod(mpr(n), g, msym(n)) && mcnt(n) == rpl(mpr(n)) && imp(mcnt(n) == 0, mend(n) == mpos(n)) && imp(mcnt(n) > 0, mpos(mch(n, 0)) == mpos(n) && mend(mch(n, mcnt(n)-1)) == mend(n))
def MG1(g) = forall("n:*tree.PN", imp(mnode(n) && alloc(n), imp(gnp(g, msym(n)) < 0, mleaf(n)) && imp(gnp(g, msym(n)) >= 0, minner(g, n))), mnode(n))
def MG2(g) = forall("n:*tree.PN, j", imp(mnode(n) && alloc(n) && 0 <= j && j < mcnt(n), chosen(g, mch(n, j)) && msym(mch(n, j)) == rps(mpr(n), j)), mch(n, j))
def MG3(g) = forall("n:*tree.PN, j, k", imp(mnode(n) && alloc(n) && 0 <= j && k == j + 1 && k < mcnt(n), mpos(mch(n, k)) == mend(mch(n, j))), pats(mch(n, j), mch(n, k)))
def MG(g) = MG1(g) && MG2(g) && MG3(g)
def MNEW = forall("n:*tree.PN", imp(mnode(n) && fresh(n) && alloc(n), arr(n.C) == 0 || fresh(n.C)), mnode(n))

def tg(op) = op.Topdown.Grammar
def sk(op, i) = setstr(op.set, i)
def OP(op) = op != nil && op.Topdown != nil && tg(op) != nil && wt(tg(op)) && GWF(tg(op)) && !leftrec(tg(op)) && op.memo != nil && op.set != nil && okset(op.set) && wt(op.lxs) && len(op.lxs) == nin(0)
def LXS(op) = each(op.lxs, p, lexof(op.lxs[p], op.set, p))
def node(g, r, s, p) = r.PN != nil && alloc(r.PN) && mnode(r.PN) && msym(r.PN) == s && mpos(r.PN) == p && mend(r.PN) == r.end && p <= r.end && r.end <= nin(0) && imp(r.end == p, nul(g, s))
def resok(g, r, s, p) = imp(r == nil, fl(g, s, p)) && imp(r != nil, acc(g, s, p, r.end) && chosen(g, r.PN) && node(g, r, s, p))
def MEMO(op) = forall("k:topdown.treeKey", imp(has(op.memo, k), 0 <= k.idx && k.idx < len(op.set.symb2str) && wt(op.memo[k]) && resok(tg(op), op.memo[k], sk(op, k.idx), k.pos)), has(op.memo, k))
def KEY(op, key) = 0 <= key.idx && key.idx < len(op.set.symb2str) && 0 <= key.pos && key.pos <= nin(0)
def TDI(op) = OP(op) && INJ(op.set) && LXS(op) && MT && MG(tg(op))
def topok(g, r, s) = imp(r == nil, topfl(g, s)) && imp(r != nil, topch(g, r.PN) && node(g, r, s, 0) && r.end == nin(0))

def isleaf(op, key, r) = r != nil && gnp(tg(op), sk(op, key.idx)) < 0
def isnil(r) = r == nil
func topdown.(*tdOp).accept(op, key, all) r
  prop C08 C09
  view g
  group td
  requires TDI(op) && MEMO(op) && KEY(op, key) && imp(all, key.pos == 0 && !has(op.memo, key) && gnp(tg(op), sk(op, key.idx)) >= 0)
  mod op.set.symb2str, entries(op.memo)
  decreases nin(0) - key.pos
  decreases lrank(tg(op), sk(op, key.idx))
  decreases 2
  allocs mnode
  ensures [inv] TDI(op) && len(op.set.symb2str) >= old(len(op.set.symb2str))
  ensures [memo] imp(!all, MEMO(op))
  ensures [new] MNEW
  ensures [fails] imp(!all && r == nil, fl(tg(op), sk(op, key.idx), key.pos))
  ensures [matches] imp(!all && r != nil, acc(tg(op), sk(op, key.idx), key.pos, r.end))
  ensures [first] imp(!all && r != nil, chosen(tg(op), r.PN))
  ensures [node] imp(r != nil, node(tg(op), r, sk(op, key.idx), key.pos))
  ensures [topfails] imp(all && r == nil, topfl(tg(op), sk(op, key.idx)))
  ensures [topfirst] imp(all && r != nil, topch(tg(op), r.PN) && r.end == nin(0))
func topdown.(*tdOp).tryAccept(op, key, all) r
  prop C08 C09
  view g
  group td
  requires TDI(op) && MEMO(op) && KEY(op, key) && imp(all, key.pos == 0 && gnp(tg(op), sk(op, key.idx)) >= 0)
  mod op.set.symb2str, entries(op.memo)
  decreases nin(0) - key.pos
  decreases lrank(tg(op), sk(op, key.idx))
  decreases 1
  allocs mnode
  gset mnode(ite(isleaf(op, key, r), r.PN, nil)) = isleaf(op, key, r)
  ghostdef [ite(isleaf(op, key, r), r.PN, nil)] msym(r.PN) == sk(op, key.idx) && mpos(r.PN) == key.pos && mend(r.PN) == r.end && mcnt(r.PN) == 0
  ensures [inv] TDI(op) && len(op.set.symb2str) >= old(len(op.set.symb2str))
  ensures [memo] MEMO(op)
  ensures [new] MNEW
  ensures [fails] imp(!all && r == nil, fl(tg(op), sk(op, key.idx), key.pos))
  ensures [matches] imp(!all && r != nil, acc(tg(op), sk(op, key.idx), key.pos, r.end))
  ensures [first] imp(!all && r != nil, chosen(tg(op), r.PN))
  ensures [node] imp(r != nil, node(tg(op), r, sk(op, key.idx), key.pos))
  ensures [topfails] imp(all && r == nil, topfl(tg(op), sk(op, key.idx)))
  ensures [topfirst] imp(all && r != nil, topch(tg(op), r.PN) && r.end == nin(0))
  local it *parlex.ProductionsIterator
  local prods parlex.Productions
  variant rpsl(it.Productions) - vitspos(it)
  inv TDI(op) && len(op.set.symb2str) >= old(len(op.set.symb2str))
  inv MEMO(op)
  inv MNEW
  inv fresh(it)
  inv vitsok(it) && vitspos(it) <= gnp(tg(op), sk(op, key.idx)) && it.Productions == prods
  inv imp(!all, pfls(tg(op), sk(op, key.idx), vitspos(it), key.pos))
  inv imp(all, tops(tg(op), sk(op, key.idx), vitspos(it)))
func topdown.(*tdOp).acceptProd(op, key, prod) r
  prop C08 C09
  view g
  group td
  requires TDI(op) && MEMO(op) && KEY(op, key) && prod != nil && wt(prod) && gnp(tg(op), sk(op, key.idx)) >= 0 && exists("i", pm(prod, tg(op), sk(op, key.idx), i), pm(prod, tg(op), sk(op, key.idx), i))
  mod op.set.symb2str, entries(op.memo)
  decreases nin(0) - key.pos
  decreases lrank(tg(op), sk(op, key.idx))
  decreases 0
  allocs mnode
  gset mnode(ite(isnil(r), nil, r.PN)) = !isnil(r)
  ghostdef [ite(r == nil, nil, r.PN)] msym(r.PN) == sk(op, key.idx) && mpos(r.PN) == key.pos && mend(r.PN) == r.end && mpr(r.PN) == prod && mcnt(r.PN) == len(r.PN.C) && forall("j", imp(0 <= j && j < len(r.PN.C), mch(r.PN, j) == r.PN.C[j]), mch(r.PN, j)) && each(r.PN.C, j, mch(r.PN, j) == r.PN.C[j])
  ensures [inv] TDI(op) && len(op.set.symb2str) >= old(len(op.set.symb2str))
  ensures [memo] MEMO(op)
  ensures [new] MNEW
  ensures [fails] imp(r == nil, forall("i", imp(pm(prod, tg(op), sk(op, key.idx), i), pfl(tg(op), sk(op, key.idx), i, key.pos)), pats(pm(prod, tg(op), sk(op, key.idx), i)), pats(pfls(tg(op), sk(op, key.idx), i, key.pos)), pats(tops(tg(op), sk(op, key.idx), i))))
  ensures [matches] imp(r != nil, forall("i", imp(pm(prod, tg(op), sk(op, key.idx), i), pacc(tg(op), sk(op, key.idx), i, gpl(tg(op), sk(op, key.idx), i), key.pos, r.end)), pats(pm(prod, tg(op), sk(op, key.idx), i)), pats(pfls(tg(op), sk(op, key.idx), i, key.pos)), pats(tops(tg(op), sk(op, key.idx), i))))
  ensures [node] imp(r != nil, node(tg(op), r, sk(op, key.idx), key.pos) && mpr(r.PN) == prod)
  local it *parlex.ProductionIterator
  local children []*tree.PN
  local pos int phi
  variant rpl(it.Production) - vipos(it)
  inv TDI(op) && len(op.set.symb2str) >= old(len(op.set.symb2str))
  inv MEMO(op)
  inv MNEW
  inv fresh(it)
  inv vitok(it) && it.Production == prod && vipos(it) <= rpl(prod)
  inv fresh(children) && len(children) == rpl(prod)
  inv forall("n:*tree.PN", imp(mnode(n) && alloc(n) && len(children) > 0, arr(n.C) != arr(children)), mnode(n))
  inv key.pos <= pos && pos <= nin(0)
  inv forall("i", imp(pm(prod, tg(op), sk(op, key.idx), i), pacc(tg(op), sk(op, key.idx), i, vipos(it), key.pos, pos) && imp(pos == key.pos, nulp(tg(op), sk(op, key.idx), i, vipos(it)))), pm(prod, tg(op), sk(op, key.idx), i))
  inv each(children, j, imp(j < vipos(it), children[j] != nil && alloc(children[j]) && mnode(children[j]) && chosen(tg(op), children[j]) && msym(children[j]) == rps(prod, j)))
  inv imp(vipos(it) == 0, pos == key.pos)
  inv imp(vipos(it) > 0, mpos(children[0]) == key.pos && mend(children[vipos(it) - 1]) == pos)
  inv each(children, j, each(children, k, imp(k == j + 1 && k < vipos(it), mpos(children[k]) == mend(children[j]))))

// ---- the result is a copy of the tree of those nodes: msrc(q) is what q copies
fun msrc(*tree.PN) *tree.PN
def mcopy(q) = msrc(q) != nil && alloc(msrc(q)) && mnode(msrc(q)) && fresh(q.C) && isLx(q.Lexeme) && fresh(asLx(q.Lexeme)) && mcopyl(asLx(q.Lexeme), mlx(msrc(q))) && len(q.C) == mcnt(msrc(q)) && each(q.C, i, fresh(q.C[i]) && live(q.C[i]) && msrc(q.C[i]) == mch(msrc(q), i))
def mcopyl(l, m) = l.K == m.K && l.V == m.V && l.L == m.L && l.C == m.C
def MCOPY = forall("q:*tree.PN", imp(live(q) && fresh(q), mcopy(q)), live(q), q.C)
func tree.Clone@g(node) pn
  prop C08 C09
  view g
  requires isPN(node) && asPN(node) != nil && alloc(asPN(node)) && mnode(asPN(node)) && MT && INV && RB
  decreases asPN(node)
  allocs live
  gset live(pn) = true
  ghostdef [pn] rank(pn) == pn && msrc(pn) == asPN(node)
  ensures [fresh] fresh(pn) && live(pn) && pn.P == nil
  ensures [source] msrc(pn) == asPN(node)
  ensures [copies] MCOPY
  ensures [tree] INV && RB
  ensures [input] MT
  local pn *tree.PN
  variant mcnt(asPN(node)) - iter
  inv MCOPY
  inv INV && RB && MT
  inv !live(pn) && pn.P == nil && isLx(pn.Lexeme) && fresh(asLx(pn.Lexeme)) && mcopyl(asLx(pn.Lexeme), mlx(asPN(node)))
  inv forall("n:*tree.PN", imp(live(n), arr(n.C) != arr(pn.C)), n.C)
  inv each(pn.C, i, imp(i < iter, pn.C[i] != nil && live(pn.C[i]) && pn.C[i].P == pn && pn.C[i] > pn && rank(pn.C[i]) == pn.C[i] && msrc(pn.C[i]) == mch(asPN(node), i)))
  inv each(pn.C, i, each(pn.C, j, imp(i < j && j < iter, pn.C[i] < pn.C[j])))

// Parse. Every node q of the tree it returns spans the lexemes from mpos to
// mend of msrc(q): a leaf one lexeme, an inner node what its children span one
// after the other, the root all of them.
def isres(q) = live(q) && fresh(q)
def RLEAF(g) = forall("q:*tree.PN", imp(isres(q) && gnp(g, msym(msrc(q))) < 0, rleaf(q, mpos(msrc(q)))), live(q))
def rleaf(q, p) = len(q.C) == 0 && 0 <= p && p < nin(0) && mend(msrc(q)) == p + 1 && symstr(asLx(q.Lexeme).K) == inp(p) && asLx(q.Lexeme).V == inval(p) && asLx(q.Lexeme).L == inl(p) && asLx(q.Lexeme).C == inc(p)
def RNODE = forall("q:*tree.PN", imp(isres(q), isLx(q.Lexeme) && asLx(q.Lexeme) != nil && symstr(asLx(q.Lexeme).K) == msym(msrc(q))), live(q))
def RINNER(g) = forall("q:*tree.PN", imp(isres(q) && gnp(g, msym(msrc(q))) >= 0, isprod(mpr(msrc(q)), g, msym(msrc(q))) && len(q.C) == rpl(mpr(msrc(q)))), live(q))
def RKIDS(g) = forall("q:*tree.PN", imp(isres(q), each(q.C, j, isres(q.C[j]) && q.C[j].P == q && msym(msrc(q.C[j])) == rps(mpr(msrc(q)), j) && chosen(g, msrc(q.C[j])))), live(q))
def RSPAN0(g) = forall("q:*tree.PN", imp(isres(q) && gnp(g, msym(msrc(q))) >= 0, ite(len(q.C) == 0, mend(msrc(q)) == mpos(msrc(q)), mpos(msrc(q.C[0])) == mpos(msrc(q)) && mend(msrc(q.C[len(q.C)-1])) == mend(msrc(q)))), live(q))
def RSPAN(g) = forall("q:*tree.PN", imp(isres(q), each(q.C, j, each(q.C, k, imp(k == j + 1, mpos(msrc(q.C[k])) == mend(msrc(q.C[j])))))), live(q))
def rr(r) = asPN(r)
func topdown.(*Topdown).Parse(t, lexemes) r
  prop C08 C09
  view g
  requires t != nil && t.Grammar != nil && wt(t.Grammar) && GWF(t.Grammar) && !leftrec(t.Grammar) && LEXIN(lexemes) && INV && RB
  requires forall("n:*tree.PN", !mnode(n), mnode(n))
  allocs mnode live
  ensures [fails] imp(r == nil, gnt(t.Grammar) == 0 || topfl(t.Grammar, gnts(t.Grammar, 0)))
  ensures [root] imp(r != nil, isPN(r) && rr(r) != nil && isres(rr(r)) && rr(r).P == nil && msym(msrc(rr(r))) == gnts(t.Grammar, 0) && gnt(t.Grammar) > 0)
  ensures [whole] imp(r != nil, mpos(msrc(rr(r))) == 0 && mend(msrc(rr(r))) == nin(0))
  ensures [topfirst] imp(r != nil, topch(t.Grammar, msrc(rr(r))))
  ensures [first] RKIDS(t.Grammar)
  ensures [leaf] RLEAF(t.Grammar)
  ensures [kind] RNODE
  ensures [production] RINNER(t.Grammar)
  ensures [ends] RSPAN0(t.Grammar)
  ensures [spans] RSPAN(t.Grammar)
  ensures [tree] INV && RB
