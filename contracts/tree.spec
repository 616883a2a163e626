// ---- kinds, values and positions of lexemes -----------------------------
// A *lexeme.Lexeme is what its fields say. Other implementations of the
// interface are taken to be immutable.
fun okind(parlex.Lexeme) parlex.Symbol
fun oval(parlex.Lexeme) string
fun oline(parlex.Lexeme) int
fun ocol(parlex.Lexeme) int
fun symstr(parlex.Symbol) string
def isLx(l) = is(l, "*lexeme.Lexeme")
def asLx(l) = as(l, "*lexeme.Lexeme")
def lkind1(l) = ite(isLx(l), asLx(l).K, okind(l))
def lval1(l) = ite(isLx(l), asLx(l).V, oval(l))
def lline1(l) = ite(isLx(l), asLx(l).L, oline(l))
def lcol1(l) = ite(isLx(l), asLx(l).C, ocol(l))
// a tree node stands for the lexeme it holds
def isPN(l) = is(l, "*tree.PN")
def asPN(l) = as(l, "*tree.PN")
def lkind(l) = ite(isPN(l), lkind1(asPN(l).Lexeme), lkind1(l))
def lval(l) = ite(isPN(l), lval1(asPN(l).Lexeme), lval1(l))
def lline(l) = ite(isPN(l), lline1(asPN(l).Lexeme), lline1(l))
def lcol(l) = ite(isPN(l), lcol1(asPN(l).Lexeme), lcol1(l))
def lx1ok(l) = l != nil && !isPN(l) && imp(isLx(l), asLx(l) != nil)
def lxok(l) = ite(isPN(l), asPN(l) != nil && lx1ok(asPN(l).Lexeme), lx1ok(l))
def kindstr(l) = symstr(lkind1(l))

iface parlex.Lexeme.Kind(l) k
  because parlex.Lexeme: implementations other than *lexeme.Lexeme and *tree.PN are immutable and have no side effects
  requires lxok(l)
  ensures k == lkind(l)
iface parlex.Lexeme.Value(l) v
  because parlex.Lexeme: implementations other than *lexeme.Lexeme and *tree.PN are immutable and have no side effects
  requires lxok(l)
  ensures v == lval(l)
iface parlex.Lexeme.Pos(l) a, b
  because parlex.Lexeme: implementations other than *lexeme.Lexeme and *tree.PN are immutable and have no side effects
  requires lxok(l)
  ensures a == lline(l) && b == lcol(l)
iface parlex.Symbol.String(s) r
  because documented: a symbol always returns the same string
  ensures r == symstr(s)

// ---- package lexeme -----------------------------------------------------
func lexeme.New(kind) l
  prop C15 C16
  ensures [fresh] fresh(l)
  ensures [kind] l.K == kind && l.V == "" && l.L == -1 && l.C == 0
func lexeme.(*Lexeme).Set(l, val) r
  prop C15 C16
  requires l != nil
  mod l.V
  ensures [value] r == l && l.V == val
func lexeme.(*Lexeme).At(l, line, col) r
  prop C15 C16
  requires l != nil
  mod l.L, l.C
  ensures [position] r == l && l.L == line && l.C == col
func lexeme.(*Lexeme).Kind(l) k
  prop C15 C16
  requires l != nil
  ensures k == l.K
func lexeme.(*Lexeme).Value(l) v
  prop C15 C16
  requires l != nil
  ensures v == l.V
func lexeme.(*Lexeme).Pos(l) a, b
  prop C15 C16
  requires l != nil
  ensures a == l.L && b == l.C
func lexeme.Copy(l) r
  prop C15 C17 C19
  requires lxok(l)
  ensures [fresh] fresh(r)
  ensures [kind] r.K == old(lkind(l))
  ensures [value] r.V == old(lval(l))
  ensures [position] r.L == old(lline(l)) && r.C == old(lcol(l))

// ---- tree nodes -------------------------------------------------------
// live: the node is part of a tree that is in use (ghost)
// rank: increases from parent to child (ghost; excludes cycles)
ghost live *tree.PN bool
fun rank(*tree.PN) int

// what every live node of a well formed tree satisfies
def lexok(n) = lx1ok(n.Lexeme) && lkind1(n.Lexeme) != nil
def kids(n) = each(n.C, i, n.C[i] != nil && live(n.C[i]) && n.C[i].P == n && rank(n.C[i]) > rank(n))
def dist(n) = each(n.C, i, each(n.C, j, imp(i < j, n.C[i] != n.C[j])))
def TREE = forall("n:*tree.PN", imp(live(n), kids(n)), live(n), n.C)
def DIST = forall("n:*tree.PN", imp(live(n), dist(n)), live(n), n.C)
def SEP = forall("n:*tree.PN, m:*tree.PN", imp(live(n) && live(m) && arr(n.C) != 0 && arr(n.C) == arr(m.C), n == m), pats(n.C, m.C))
def LEX = forall("n:*tree.PN", imp(live(n), lexok(n)), live(n), n.Lexeme)

// index rule of every operation: negative indexes count from the end
def norm(p, c) = ite(c < 0, len(p.C) + c, c)
def inb(p, c) = 0 <= norm(p, c) && norm(p, c) < len(p.C)

func tree.(*PN).GetIdx(p, cIdx) i, l, ok
  prop C16
  requires p != nil
  ensures [index] i == norm(p, cIdx)
  ensures [count] l == len(p.C)
  ensures [range] ok == inb(p, cIdx)

func tree.(*PN).Children(p) n
  prop C16
  requires p != nil
  ensures n == len(p.C)

func tree.(*PN).Child(p, cIdx) c
  prop C16
  requires p != nil
  ensures [inrange] imp(inb(p, cIdx), c == mk(p.C[norm(p, cIdx)]))
  ensures [outofrange] imp(!inb(p, cIdx), c == nil)

func tree.(*PN).Parent(p) r
  prop C16 C18
  requires p != nil
  ensures [root] imp(p.P == nil, r == nil)
  ensures [inner] imp(p.P != nil, r == mk(p.P))

func tree.(*PN).ChildAt(p, cIdx, symbs) r
  prop C16 C21
  requires p != nil && live(p) && TREE && LEX
  ensures [hit] imp(r, inb(p, cIdx) && some(symbs, i, symbs[i] == kindstr(p.C[norm(p, cIdx)].Lexeme)))
  ensures [miss] imp(!r && inb(p, cIdx), each(symbs, i, symbs[i] != kindstr(p.C[norm(p, cIdx)].Lexeme)))
  inv each(symbs, i, imp(i < iter, symbs[i] != kindstr(p.C[norm(p, cIdx)].Lexeme)))

func tree.(*PN).ChildIs(p, cIdx, kind) r
  prop C16 C21
  requires p != nil && live(p) && TREE && LEX
  ensures r == (inb(p, cIdx) && kindstr(p.C[norm(p, cIdx)].Lexeme) == kind)

// ---- the operations ---------------------------------------------------
// removing
func tree.(*PN).RemoveChild(p, cIdx) ok
  prop C16 C18
  requires p != nil
  mod p.C, elems(p.C), live(p.C[norm(p, cIdx)])
  gset live(ite(ok, old(p.C[norm(p, cIdx)]), nil)) = false
  ensures [ok] ok == old(inb(p, cIdx))
  ensures [outofrange] imp(!ok, p.C == old(p.C) && contents(p.C) == old(contents(p.C)))
  ensures [len] imp(ok, len(p.C) == old(len(p.C)) - 1)
  ensures [before] imp(ok, each(p.C, i, imp(i < old(norm(p, cIdx)), p.C[i] == old(p.C[i]))))
  ensures [after] imp(ok, each(p.C, i, imp(i >= old(norm(p, cIdx)), p.C[i] == old(p.C[i+1]))))
  ensures [array] arr(p.C) == old(arr(p.C)) || fresh(p.C)
  ensures [sep] imp(old(live(p) && SEP), SEP)
  ensures [tree] imp(old(live(p) && SEP && TREE && DIST), TREE && DIST)

def INV = TREE && DIST && SEP && LEX
// the node at index c and the number of its children
def at(p, c) = p.C[norm(p, c)]
// the children of p with the one at c replaced by its own children
def spliced(p, c, m) = len(p.C) == old(len(p.C)) - 1 + m
  && each(p.C, i, imp(i < c, p.C[i] == old(p.C[i])))
  && each(p.C, i, imp(c <= i && i < c + m, p.C[i] == old(p.C[c].C[i-c])))
  && each(p.C, i, imp(i >= c + m, p.C[i] == old(p.C[i-m+1])))

func tree.(*PN).ReplaceWithChild(p, cIdx) ok
  prop C16 C18
  requires p != nil && live(p) && INV
  mod p.C, p.Lexeme, live(at(p, cIdx)), field("tree.PN.P", r, rank(r) > rank(p) && inb(p, cIdx) && r.P == at(p, cIdx))
  gset live(ite(ok, old(at(p, cIdx)), nil)) = false
  ensures [ok] ok == old(inb(p, cIdx))
  ensures [outofrange] imp(!ok, p.C == old(p.C) && p.Lexeme == old(p.Lexeme))
  ensures [lexeme] imp(ok, p.Lexeme == old(at(p, cIdx).Lexeme))
  ensures [len] imp(ok, len(p.C) == old(len(at(p, cIdx).C)))
  ensures [children] imp(ok, each(p.C, i, p.C[i] == old(at(p, cIdx).C[i])))
  ensures [parent] p.P == old(p.P)
  ensures [tree] INV
  inv each(p.C, i, imp(i < iter, p.C[i].P == p))

func tree.(*PN).PromoteChildrenOf(p, cIdx) ok
  prop C16 C18
  requires p != nil && live(p) && INV
  mod p.C, elems(p.C), elems(at(p, cIdx).C), live(at(p, cIdx)), field("tree.PN.P", r, rank(r) > rank(p) && inb(p, cIdx) && (r.P == p || r.P == at(p, cIdx)))
  gset live(ite(ok, old(at(p, cIdx)), nil)) = false
  ensures [ok] ok == old(inb(p, cIdx))
  ensures [outofrange] imp(!ok, p.C == old(p.C) && contents(p.C) == old(contents(p.C)))
  ensures [list] imp(ok, spliced(p, old(norm(p, cIdx)), old(len(at(p, cIdx).C))))
  ensures [parent] p.P == old(p.P)
  ensures [kidsparent] each(p.C, i, p.C[i].P == p)
  ensures [kidslive] each(p.C, i, p.C[i] != nil && live(p.C[i]))
  ensures [kidsrank] each(p.C, i, rank(p.C[i]) > rank(p))
  ensures [others] forall("n:*tree.PN", imp(live(n) && n != p, kids(n)), live(n), n.C)
  ensures [tree] INV
  inv each(p.C, i, imp(i < iter, p.C[i].P == p))

func tree.(*PN).PromoteChild(p, cIdx) ok
  prop C16 C18
  requires p != nil && live(p) && INV
  mod p.C, p.Lexeme, elems(p.C), elems(at(p, cIdx).C), live(at(p, cIdx)), field("tree.PN.P", r, rank(r) > rank(p) && inb(p, cIdx) && (r.P == p || r.P == at(p, cIdx)))
  gset live(ite(ok, old(at(p, cIdx)), nil)) = false
  ensures [ok] ok == old(inb(p, cIdx))
  ensures [outofrange] imp(!ok, p.C == old(p.C) && contents(p.C) == old(contents(p.C)) && p.Lexeme == old(p.Lexeme))
  ensures [lexeme] imp(ok, p.Lexeme == old(at(p, cIdx).Lexeme))
  ensures [list] imp(ok, spliced(p, old(norm(p, cIdx)), old(len(at(p, cIdx).C))))
  ensures [parent] p.P == old(p.P)
  ensures [kidsparent] each(p.C, i, p.C[i].P == p)
  ensures [kidslive] each(p.C, i, p.C[i] != nil && live(p.C[i]))
  ensures [kidsrank] each(p.C, i, rank(p.C[i]) > rank(p))
  ensures [others] forall("n:*tree.PN", imp(live(n) && n != p, kids(n)), live(n), n.C)
  ensures [tree] INV
  inv each(p.C, i, imp(i < iter, p.C[i].P == p))

func tree.(*PN).PromoteSingleChild(p) ok
  prop C16 C18
  requires p != nil && live(p) && INV
  mod p.C, p.Lexeme, elems(p.C), elems(at(p, 0).C), live(at(p, 0)), field("tree.PN.P", r, rank(r) > rank(p) && inb(p, 0) && (r.P == p || r.P == at(p, 0)))
  gset live(ite(ok, old(at(p, 0)), nil)) = false
  ensures [ok] ok == old(len(p.C) == 1)
  ensures [no] imp(!ok, p.C == old(p.C) && contents(p.C) == old(contents(p.C)) && p.Lexeme == old(p.Lexeme))
  ensures [lexeme] imp(ok, p.Lexeme == old(at(p, 0).Lexeme))
  ensures [list] imp(ok, len(p.C) == old(len(p.C[0].C)) && each(p.C, i, p.C[i] == old(p.C[0].C[i])))
  ensures [parent] p.P == old(p.P)
  ensures [tree] INV

func tree.(*PN).PromoteChildValue(p, cIdx)
  prop C16 C18
  requires p != nil && live(p) && INV
  mod p.C, p.Lexeme, elems(p.C), live(at(p, cIdx))
  ensures [outofrange] imp(!old(inb(p, cIdx)), p.C == old(p.C) && contents(p.C) == old(contents(p.C)) && p.Lexeme == old(p.Lexeme))
  ensures [kind] lkind(p.Lexeme) == old(lkind(p.Lexeme))
  ensures [value] imp(old(inb(p, cIdx)), lval(p.Lexeme) == old(lval(at(p, cIdx).Lexeme)))
  ensures [position] imp(old(inb(p, cIdx)), lline(p.Lexeme) == old(lline(at(p, cIdx).Lexeme)) && lcol(p.Lexeme) == old(lcol(at(p, cIdx).Lexeme)))
  ensures [len] imp(old(inb(p, cIdx)), len(p.C) == old(len(p.C)) - 1)
  ensures [before] imp(old(inb(p, cIdx)), each(p.C, i, imp(i < old(norm(p, cIdx)), p.C[i] == old(p.C[i]))))
  ensures [after] imp(old(inb(p, cIdx)), each(p.C, i, imp(i >= old(norm(p, cIdx)), p.C[i] == old(p.C[i+1]))))
  ensures [tree] INV

// the children are replaced by the grandchildren
def isKid(p, r) = some(p.C, i, p.C[i] == r)
func tree.(*PN).PromoteGrandChildren(p)
  prop C16 C18
  requires p != nil && live(p) && INV
  rec gs(i, prev) over p.C = 0 ; prev + len(p.C[i].C)
  mod p.C, live(r, isKid(p, r)), field("tree.PN.P", r, rank(r) > rank(p) && isKid(p, r.P))
  gset live(r, old(isKid(p, r))) = false
  ensures [len] len(p.C) == gs[old(len(p.C))]
  ensures [list] each(old(p.C), i, each(old(p.C[i].C), j, p.C[gs[i]+j] == old(p.C[i].C[j])))
  ensures [parent] p.P == old(p.P)
  ensures [kidsparent] each(p.C, i, p.C[i] != nil && p.C[i].P == p && rank(p.C[i]) > rank(p))
  ensures [kidslive] each(p.C, i, live(p.C[i]))
  ensures [others] forall("n:*tree.PN", imp(live(n) && n != p, kids(n)), live(n), n.C)
  ensures [tree] INV
  local ct int phi
  local newC []*tree.PN phi
  local child *tree.PN
  inv ct == gs[iter] && ct >= 0
  inv len(newC) == gs[iter] && gs[iter] >= 0 && fresh(newC)
  inv each(p.C, i, imp(i < iter, gs[i+1] <= gs[iter] && 0 <= gs[i]))
  inv each(p.C, i, imp(i < iter, each(p.C[i].C, j, newC[gs[i]+j] == p.C[i].C[j])))
  inv each(newC, k, newC[k] != nil && live(newC[k]) && newC[k].P == p && rank(newC[k]) > rank(p))
  inv each(newC, k, some(p.C, i, i < iter && letin("q", newC[k], old(q.P)) == p.C[i]))
  inv each(newC, i, each(newC, j, imp(i < j, newC[i] != newC[j])))
  inv each(child.C, j, imp(j < iter, child.C[j].P == p))
  inv forall("r:*tree.PN", r.P == lold(r.P) || r.P == p, r.P)

// the number of true elements among the first n
fun cnt(#(Array Int Bool), int) int
axiom cnt0: forall("a:#(Array Int Bool)", cnt(a, 0) == 0, cnt(a, 0))
axiom cntS: forall("a:#(Array Int Bool), n", imp(n >= 0, cnt(a, n+1) == cnt(a, n) + ite(a[n], 1, 0)), cnt(a, n+1))
lemma cntRange induct=n: forall("a:#(Array Int Bool), n", 0 <= cnt(a, n) && cnt(a, n) <= n, cnt(a, n))
lemma cntNone induct=n: forall("a:#(Array Int Bool), n", imp(forall("j", imp(0 <= j && j < n, !a[j]), a[j]), cnt(a, n) == 0), cnt(a, n))
lemma cntUpd induct=n: forall("a:#(Array Int Bool), k, n", imp(0 <= k, cnt(upd(a, k, true), n) == cnt(a, n) + ite(k < n && !a[k], 1, 0)), cnt(upd(a, k, true), n))

// the children at any of the indexes are removed
def drops(p, c, i) = some(c, k, norm(p, c[k]) == i)
func tree.(*PN).RemoveChildren(p, cIdxs)
  prop C16 C18
  use cntRange cntNone cntUpd
  requires p != nil && live(p) && INV
  rec kept(i, prev) over p.C = 0 ; ite(drops(p, cIdxs, i), prev, prev + 1)
  mod p.C, live(r, some(p.C, i, p.C[i] == r && drops(p, cIdxs, i)))
  gset live(r, old(some(p.C, i, p.C[i] == r && drops(p, cIdxs, i)))) = false
  ensures [len] len(p.C) == kept[old(len(p.C))]
  ensures [list] each(old(p.C), i, imp(!old(drops(p, cIdxs, i)), p.C[kept[i]] == old(p.C[i])))
  ensures [parent] p.P == old(p.P)
  ensures [tree] INV
  local drop []bool
  local ln int phi
  local newC []*tree.PN phi
  inv each(drop, i, drop[i] == some(cIdxs, k, k < iter && norm(p, cIdxs[k]) == i))
  inv ln == len(p.C) - cnt(contents(drop), len(p.C))
  inv seen(p.C[iter]) && len(newC) == kept[iter] && kept[iter] >= 0 && fresh(newC)
  inv each(p.C, i, imp(i < iter, 0 <= kept[i] && kept[i] <= kept[i+1] && kept[i+1] <= kept[iter]))
  inv each(p.C, i, imp(i < iter && !drops(p, cIdxs, i), newC[kept[i]] == p.C[i]))
  inv each(newC, k, some(p.C, i, i < iter && newC[k] == p.C[i] && !drops(p, cIdxs, i)))
  inv each(newC, i, each(newC, j, imp(i < j, newC[i] != newC[j])))

// the children of any of the kinds are removed
def named(p, syms, i) = some(syms, k, syms[k] == kindstr(p.C[i].Lexeme))
func tree.(*PN).RemoveAll(p, symbols)
  prop C16 C18
  requires p != nil && live(p) && INV
  rec kept(i, prev) over p.C = 0 ; ite(named(p, symbols, i), prev, prev + 1)
  mod p.C, elems(p.C), live(r, some(p.C, i, p.C[i] == r && named(p, symbols, i)))
  ensures [len] len(p.C) == kept[old(len(p.C))]
  ensures [list] each(old(p.C), i, imp(!old(named(p, symbols, i)), p.C[kept[i]] == old(p.C[i])))
  ensures [parent] p.P == old(p.P)
  ensures [tree] INV
  local i int phi
  inv 0 <= i && i <= len(p.C) && len(p.C) <= old(len(p.C)) && (arr(p.C) == old(arr(p.C)) || fresh(p.C)) && live(p)
  inv i == kept[i + old(len(p.C)) - len(p.C)] && letin("q", i + old(len(p.C)) - len(p.C), seen(old(p.C[q])))
  inv INV
  inv each(old(p.C), j, imp(j < i + old(len(p.C)) - len(p.C), 0 <= kept[j] && kept[j] <= kept[j+1] && kept[j+1] <= i))
  inv each(old(p.C), j, imp(j < i + old(len(p.C)) - len(p.C) && !old(named(p, symbols, j)), p.C[kept[j]] == old(p.C[j])))
  inv each(p.C, j, imp(j >= i, p.C[j] == letin("q", j + old(len(p.C)) - len(p.C), old(p.C[q]))))
  variant len(p.C) - i
