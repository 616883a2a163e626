// ---- C04: grammars ---------------------------------------------------------
track grammar.Grammar
def gr1(g) = wt(g.set) && wt(g.order) && wt(g.productions) && g.set != nil && okset(g.set) && len(g.productions) <= len(g.set.symb2str) && (ord(arr(g.order)) || arr(g.order) == 0)
def gr2(g) = each(g.productions, k, imp(g.productions[k] != nil, wt(g.productions[k]) && g.productions[k].set == g.set && len(g.productions[k].prods) > 0))
def gr3(g) = each(g.order, i, 0 <= g.order[i] && g.order[i] < len(g.productions) && g.productions[g.order[i]] != nil)
def gr4(g) = each(g.order, i, g.order[i] == gord(g, i) && ordw(g, g.order[i]) == i)
def gr5(g) = each(g.productions, k, imp(g.productions[k] != nil, 0 <= ordw(g, k) && ordw(g, k) < len(g.order) && gord(g, ordw(g, k)) == k))
def gr6(g) = each(g.productions, k, imp(g.productions[k] != nil, pidx(g.productions[k]) == k))
// ordw(g, k): where symbol k of grammar g stands among the non-terminals, from
// when it gets its first production on
fun ordw(*grammar.Grammar, int) int
// gord(g, i): the i-th non-terminal of grammar g, once it has that many
fun gord(*grammar.Grammar, int) int
// pidx(p): the symbol of which p are the productions
fun pidx(*setsymbol.Productions) int
def GR1 = forall("g:*grammar.Grammar", imp(g.set != nil, gr1(g)), pats(g.set), pats(g.order), pats(g.productions))
def GR2 = forall("g:*grammar.Grammar", imp(g.set != nil, gr2(g)), pats(g.productions))
def GR3 = forall("g:*grammar.Grammar", imp(g.set != nil, gr3(g)), pats(g.order))
def GR4 = forall("g:*grammar.Grammar", imp(g.set != nil, gr4(g)), pats(g.order))
def GR5 = forall("g:*grammar.Grammar", imp(g.set != nil, gr5(g)), pats(g.productions))
def GR6 = forall("g:*grammar.Grammar", imp(g.set != nil, gr6(g)), pats(g.productions))
def GR7 = forall("g:*grammar.Grammar, h:*grammar.Grammar", imp(g.set != nil && h.set != nil && g != h, g.set != h.set && (arr(g.order) == 0 || arr(g.order) != arr(h.order)) && (arr(g.productions) == 0 || arr(g.productions) != arr(h.productions))), pats(g.set, h.set), pats(g.order, h.order), pats(g.productions, h.productions))
def GRINV = PINV && GR1 && GR2 && GR3 && GR4 && GR5 && GR6 && GR7
def gshas(g, s) = has(g.set.str2sym, s) && g.set.str2sym[s] < len(g.productions) && g.productions[g.set.str2sym[s]] != nil
def gsp(g, s) = g.productions[g.set.str2sym[s]]
// every grammar but x holds what it held
def GKF(x) = forall("h:*grammar.Grammar", imp(!fresh(h) && h != x, h.set == old(h.set) && h.order == old(h.order) && h.productions == old(h.productions)), pats(h.set), pats(h.order), pats(h.productions))
def GKO(x) = forall("h:*grammar.Grammar", imp(!fresh(h) && h != x && h.set != nil, each(old(h.order), i, h.order[i] == old(h.order[i]))), h.order)
def GKP(x) = forall("h:*grammar.Grammar", imp(!fresh(h) && h != x && h.set != nil, each(old(h.productions), k, h.productions[k] == old(h.productions[k]))), h.productions)
def GKEEP(x) = GKF(x) && GKO(x) && GKP(x)

func grammar.Empty() g
  prop C04
  requires GRINV
  ensures [empty] fresh(g) && g.set != nil && fresh(g.set) && len(g.order) == 0 && len(g.productions) == 0
  ensures [inv] GRINV
  ensures [others] KEEP(nil) && KEEPS(nil) && GKEEP(nil) && GROW

func grammar.(*Grammar).Productions(g, symbol) r
  hint LISTT
  prop C04 C06
  requires g != nil && g.set != nil && GRINV && symarg(symbol)
  mod g.set.symb2str, elems(g.set.symb2str), entries(g.set.str2sym)
  ensures [none] imp(!old(gshas(g, symstr(symbol))), r == nil)
  ensures [productions] imp(old(gshas(g, symstr(symbol))), r == mk(old(gsp(g, symstr(symbol)))))
  ensures [reading] forall("s:string", gshas(g, s) == old(gshas(g, s)) && imp(gshas(g, s), gsp(g, s) == old(gsp(g, s))), has(g.set.str2sym, s))
  ensures [inv] GRINV && GROW && okset(g.set) && PLACE(g.set)

func grammar.(*Grammar).NonTerminals(g) r
  prop C04 C06
  requires g != nil && g.set != nil && GRINV
  ensures [nonterminals] fresh(r) && len(r) == len(g.order) && each(r, i, symarg(r[i]) && symstr(r[i]) == setstr(g.set, g.order[i]))
  ensures [inv] GRINV && GROW
  local r []parlex.Symbol
  inv GRINV && GROW
  inv each(r, i, imp(i < iter, wt(r[i]) && symarg(r[i]) && symstr(r[i]) == setstr(g.set, g.order[i])))

func grammar.(*Grammar).Add(g, from, to)
  hint LISTT
  prop C04
  requires g != nil && g.set != nil && GRINV && symarg(from) && imp(to != nil, prodarg(to))
  mod g.set.symb2str, elems(g.set.symb2str), entries(g.set.str2sym), g.order, elems(g.order), g.productions, elems(g.productions), field("setsymbol.Productions.prods", p, p.set == g.set), elemsof("[]int", a, gshas(g, symstr(from)) && a == arr(gsp(g, symstr(from)).prods))
  born [[]int] ord(obj)
  stamp [len(g.order) == old(len(g.order)) + 1] ordw(g, g.set.str2sym[symstr(from)]) == old(len(g.order)) && gord(g, old(len(g.order))) == g.set.str2sym[symstr(from)] && pidx(gsp(g, symstr(from))) == g.set.str2sym[symstr(from)]
  ensures [present] has(g.set.str2sym, symstr(from)) && gshas(g, symstr(from))
  ensures [new] imp(!old(gshas(g, symstr(from))), fresh(gsp(g, symstr(from))) && len(gsp(g, symstr(from)).prods) == 1 && row(g.set, gsp(g, symstr(from)).prods[0], to))
  ensures [first] imp(!old(gshas(g, symstr(from))), len(g.order) == old(len(g.order)) + 1 && g.order[old(len(g.order))] == g.set.str2sym[symstr(from)])
  ensures [more] imp(old(gshas(g, symstr(from))), gsp(g, symstr(from)) == old(gsp(g, symstr(from))) && len(gsp(g, symstr(from)).prods) == old(len(gsp(g, symstr(from)).prods)) + 1 && row(g.set, gsp(g, symstr(from)).prods[old(len(gsp(g, symstr(from)).prods))], to))
  ensures [again] imp(old(gshas(g, symstr(from))), len(g.order) == old(len(g.order)))
  ensures [before] imp(old(gshas(g, symstr(from))), each(old(gsp(g, symstr(from)).prods), i, gsp(g, symstr(from)).prods[i] == old(gsp(g, symstr(from)).prods[i])))
  ensures [order] each(old(g.order), i, g.order[i] == old(g.order[i]))
  ensures [same] each(old(g.productions), k, imp(old(g.productions[k]) != nil, g.productions[k] == old(g.productions[k])))
  ensures [others] forall("s:string", imp(s != symstr(from), gshas(g, s) == old(gshas(g, s))), has(g.set.str2sym, s))
  ensures [keep] KEEP(nil) && KEEPS(gsp(g, symstr(from)))
  ensures [grammars] GKEEP(g)
  ensures [inv] GRINV
  ensures [stable] GROW && PLACE(g.set)
