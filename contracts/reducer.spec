// ---- C17, C19: reducing and cloning trees --------------------------------
// The tree that is read, as it is at the start: these functions name its
// nodes; TIN says that they are right about the nodes (tnode) of the tree.
fun tnode(parlex.ParseNode) bool
fun inch(parlex.ParseNode) int
fun ich(parlex.ParseNode, int) parlex.ParseNode
fun ikind(parlex.ParseNode) parlex.Symbol
fun ival(parlex.ParseNode) string
fun iline(parlex.ParseNode) int
fun icol(parlex.ParseNode) int
fun hgt(parlex.ParseNode) int
def nch(x) = ite(isPN(x), len(asPN(x).C), inch(x))
def nodeok(x) = x != nil && imp(isPN(x), asPN(x) != nil)
def nodein(x) = x != nil && lxok(x) && ikind(x) != nil && lkind(x) == ikind(x) && lval(x) == ival(x) && lline(x) == iline(x) && lcol(x) == icol(x) && inch(x) >= 0 && hgt(x) >= 0 && nodepn(x)
def nodepn(x) = imp(isLx(x), alloc(asLx(x))) && imp(isPN(x), alloc(asPN(x)) && rank(asPN(x)) <= allocated && wt(asPN(x).Lexeme) && wt(asPN(x).C) && inch(x) == len(asPN(x).C) && each(asPN(x).C, i, mk(asPN(x).C[i]) == ich(x, i)))
def TIN = forall("x:parlex.ParseNode", imp(tnode(x), nodein(x)), tnode(x))
def TREEIN = forall("x:parlex.ParseNode, i", imp(tnode(x) && 0 <= i && i < inch(x), tnode(ich(x, i)) && hgt(ich(x, i)) < hgt(x)), ich(x, i))

iface parlex.ParseNode.Children(x) n
  because proved for *tree.PN; other implementations are immutable
  requires nodeok(x)
  ensures n == nch(x)
iface parlex.ParseNode.Child(x, i) c
  because proved for *tree.PN; other implementations are immutable
  requires nodeok(x) && 0 <= i && i < nch(x)
  ensures c == ite(isPN(x), mk(asPN(x).C[i]), ich(x, i))

// ---- clones: src(q) is the node that q is a copy of
fun src(*tree.PN) parlex.ParseNode
def lexcopy(q, x) = isLx(q.Lexeme) && asLx(q.Lexeme) != nil && lkind1(q.Lexeme) == ikind(x) && lval1(q.Lexeme) == ival(x) && lline1(q.Lexeme) == iline(x) && lcol1(q.Lexeme) == icol(x)
def copied(q) = tnode(src(q)) && fresh(q.C) && lexcopy(q, src(q)) && fresh(asLx(q.Lexeme)) && len(q.C) == inch(src(q)) && each(q.C, i, fresh(q.C[i]) && live(q.C[i]) && src(q.C[i]) == ich(src(q), i))
def COPIES = forall("q:*tree.PN", imp(live(q) && fresh(q), copied(q)), live(q), q.C)
func tree.Clone(node) pn
  prop C19 C18 C15
  requires tnode(node) && TIN && TREEIN && INV && RB
  decreases hgt(node)
  allocs live
  gset live(pn) = true
  ghostdef [pn] rank(pn) == pn && src(pn) == node
  ensures [fresh] fresh(pn) && live(pn) && pn.P == nil
  ensures [source] src(pn) == node
  ensures [copies] COPIES
  ensures [tree] INV && RB
  ensures [input] TIN
  local pn *tree.PN
  variant inch(node) - iter
  inv COPIES
  inv INV && RB && TIN
  inv !live(pn) && pn.P == nil && lexcopy(pn, node)
  inv forall("n:*tree.PN", imp(live(n), arr(n.C) != arr(pn.C)), n.C)
  inv each(pn.C, i, imp(i < iter, pn.C[i] != nil && live(pn.C[i]) && pn.C[i].P == pn && pn.C[i] > pn && rank(pn.C[i]) == pn.C[i] && src(pn.C[i]) == ich(node, i)))
  inv each(pn.C, i, each(pn.C, j, imp(i < j && j < iter, pn.C[i] < pn.C[j])))

// ---- reducing
// rd(r, k): the reduction that r has for kind k
fun rd(tree.Reducer, string) tree.Reduction
def RD(r) = forall("k:string", rd(r, k) == ite(has(r, k), r[k], nilof("tree.Reduction")), rd(r, k))
// fk, fkind, ...: the state of a result when its RawReduce returns
fun fk(int) #KList
fun fkind(int) parlex.Symbol
fun fval(int) string
fun fline(int) int
fun fcol(int) int
// trn(r, l, l2, x, c): reducing x with r turns the log from l to l2 and gives c
// trs(r, l, l2, x, n, ks): reducing the first n children of x gives ks
fun trn(tree.Reducer, #Log, #Log, parlex.ParseNode, int) bool
fun trs(tree.Reducer, #Log, #Log, parlex.ParseNode, int, #KList) bool
def kindof(x) = symstr(ikind(x))
axiom trs0: forall("r:tree.Reducer, l:#Log, x:parlex.ParseNode", trs(r, l, l, x, 0, knil), trs(r, l, l, x, 0, knil))
axiom trsS: forall("r:tree.Reducer, l:#Log, l1:#Log, l2:#Log, x:parlex.ParseNode, i, ks:#KList, c", imp(0 <= i && i < inch(x) && trs(r, l, l1, x, i, ks) && trn(r, l1, l2, ich(x, i), c), trs(r, l, l2, x, i+1, kcons(ks, c))), pats(trs(r, l, l1, x, i, ks), trn(r, l1, l2, ich(x, i), c)))
axiom trnNone: forall("r:tree.Reducer, l:#Log, l1:#Log, x:parlex.ParseNode, ks:#KList, c", imp(trs(r, l, l1, x, inch(x), ks) && rd(r, kindof(x)) == nil && fk(c) == ks && fkind(c) == ikind(x) && fval(c) == ival(x) && fline(c) == iline(x) && fcol(c) == icol(x), trn(r, l, l1, x, c)), pats(trs(r, l, l1, x, inch(x), ks), fk(c)))
axiom trnRed: forall("r:tree.Reducer, l:#Log, l1:#Log, x:parlex.ParseNode, ks:#KList, c", imp(trs(r, l, l1, x, inch(x), ks) && rd(r, kindof(x)) != nil && akids(l1) == ks && akind(l1) == ikind(x) && aval(l1) == ival(x) && aline(l1) == iline(x) && acol(l1) == icol(x), trn(r, l, ev("Red", l1, rd(r, kindof(x)), c), x, c)), pats(trs(r, l, l1, x, inch(x), ks), fk(c)))

def NEWA = forall("n:*tree.PN", imp(live(n) && fresh(n), rank(n) > old(allocated) && (arr(n.C) == 0 || fresh(n.C))), live(n), n.C)
func tree.Reducer.RawReduce(r, node) cp
  prop C17 C18 C15
  use preUpd
  requires imp(node != nil, tnode(node)) && TIN && TREEIN && INV && RB && RD(r)
  decreases ite(node == nil, 0, hgt(node))
  allocs live
  mod log
  gset live(cp) = ite(cp == nil, false, true)
  born [tree.PN] rank(obj) == obj && alim(obj) == old(allocated)
  ghostdef [cp] fk(cp) == kidlist(cp) && fkind(cp) == lkind1(cp.Lexeme) && fval(cp) == lval1(cp.Lexeme) && fline(cp) == lline1(cp.Lexeme) && fcol(cp) == lcol1(cp.Lexeme)
  ensures [nil] imp(node == nil, cp == nil && log == old(log))
  ensures [fresh] imp(node != nil, fresh(cp) && live(cp) && cp.P == nil && rank(cp) == cp)
  ensures [order] imp(node != nil, trn(r, old(log), log, node, cp))
  ensures [new] NEWA
  ensures [tree] INV && RB
  ensures [input] TIN
  local cp *tree.PN
  inv INV && RB && TIN && NEWA
  inv !live(cp) && cp.P == nil && lexcopy(cp, node)
  inv forall("n:*tree.PN", imp(live(n), arr(n.C) != arr(cp.C)), n.C)
  inv each(cp.C, i, imp(i < iter, cp.C[i] != nil && live(cp.C[i]) && cp.C[i].P == cp && cp.C[i] > cp && rank(cp.C[i]) == cp.C[i]))
  inv each(cp.C, i, each(cp.C, j, imp(i < j && j < iter, cp.C[i] < cp.C[j])))
  inv trs(r, old(log), log, node, iter, pre(contents(cp.C), off(cp.C), iter))
func tree.Reducer.Reduce(r, node) n
  prop C17 C18
  requires imp(node != nil, tnode(node)) && TIN && TREEIN && INV && RB && RD(r)
  allocs live
  mod log
  ensures [nil] imp(node == nil, n == nil && log == old(log))
  ensures [fresh] imp(node != nil, isPN(n) && fresh(asPN(n)) && live(asPN(n)) && asPN(n).P == nil)
  ensures [order] imp(node != nil, trn(r, old(log), log, node, asPN(n)))
  ensures [tree] INV && RB
  ensures [input] TIN

// ---- reducers as maps
def chained(f, a, b) = ite(a == nil, f == b, ite(b == nil, f == a, isSeq(f, a, b)))
func tree.Merge(r1, r2) m
  prop C17
  ensures [new] fresh(m)
  ensures [kinds] forall("k:string", has(m, k) == (has(r1, k) || has(r2, k)), has(m, k))
  ensures [first] forall("k:string", imp(has(r1, k) && !has(r2, k), m[k] == r1[k]), m[k])
  ensures [second] forall("k:string", imp(!has(r1, k) && has(r2, k), m[k] == r2[k]), m[k])
  ensures [both] forall("k:string", imp(has(r1, k) && has(r2, k), chained(m[k], r1[k], r2[k])), m[k])
  local merged tree.Reducer
  inv forall("k:string", imp(has(merged, k), has(r1, k) || has(r2, k)), has(merged, k))
  inv forall("k:string", imp(has(r2, k) && visited(k), has(merged, k)), has(merged, k), visited(k))
  inv forall("k:string", imp(has(r1, k) && visited(k), has(merged, k)), has(merged, k), visited(k))
  inv forall("k:string", imp(has(r2, k), has(merged, k)), has(merged, k), has(r2, k))
  inv forall("k:string", imp(has(merged, k) && !has(r2, k), has(r1, k) && merged[k] == r1[k]), has(merged, k), merged[k])
  inv forall("k:string", imp(has(merged, k) && !has(r1, k), has(r2, k) && merged[k] == r2[k]), has(merged, k), merged[k])
  inv forall("k:string", imp(has(merged, k) && has(r1, k) && has(r2, k), chained(merged[k], r1[k], r2[k])), has(merged, k), merged[k])
func tree.Reducer.Add(r, symbol, reduction)
  prop C17 C21
  requires r != nil
  mod entries(r)
  ensures [set] has(r, symbol) && r[symbol] == reduction
  ensures [others] forall("k:string", imp(k != symbol, has(r, k) == old(has(r, k)) && r[k] == old(r[k])), has(r, k), r[k])
func tree.Reducer.Can(r, node) b
  prop C17
  requires lxok(node) && lkind(node) != nil
  ensures [known] b == has(r, symstr(lkind(node)))

// ---- sizes: sz(n) is the number of nodes of the tree at n as it is now
fun sz(*tree.PN) int
fun szs(*tree.PN, int) int
fun pnh(*tree.PN) int
def SZ = forall("n:*tree.PN", imp(live(n), pnh(n) >= 0 && sz(n) == 1 + szs(n, len(n.C)) && szs(n, 0) == 0 && each(n.C, i, pnh(n.C[i]) < pnh(n) && szs(n, i+1) == szs(n, i) + sz(n.C[i]))), live(n), sz(n))
func tree.(*PN).Size(p) r
  prop C19
  requires imp(p != nil, live(p) && wt(p)) && TREE && SZ
  decreases ite(p == nil, 0, pnh(p) + 1)
  ensures [nil] imp(p == nil, r == 0)
  ensures [size] imp(p != nil, r == sz(p))
  local size int phi
  inv size == 1 + szs(p, iter) && seen(p.C[iter])
