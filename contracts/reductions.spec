// ---- reductions: function values ----------------------------------------
// A call of an unknown reduction or condition is an event in the ghost log.
// INVW(p): the invariants hold, and hold for p too
def lv(n, p) = live(n) || n == p
def below(r, p) = r != nil && wt(r) && lv(r, p) && rank(r) >= rank(p)
def RB = forall("n:*tree.PN", imp(live(n), rank(n) <= allocated), live(n))
def TREEW(p) = forall("n:*tree.PN", imp(lv(n, p), kids(n)), live(n), n.C)
def DISTW(p) = forall("n:*tree.PN", imp(lv(n, p), dist(n)), live(n), n.C)
def SEPW(p) = forall("n:*tree.PN, m:*tree.PN", imp(lv(n, p) && lv(m, p) && arr(n.C) != 0 && arr(n.C) == arr(m.C), n == m), pats(n.C, m.C))
def LEXW(p) = forall("n:*tree.PN", imp(lv(n, p), lexok(n)), live(n), n.Lexeme)
// alim(p): arrays and lexemes of p and of nodes below it are newer than this
fun alim(*tree.PN) int
def ARRW(p) = forall("n:*tree.PN", imp(lv(n, p) && rank(n) >= rank(p), arr(n.C) == 0 || arr(n.C) > alim(p)), live(n), n.C)
def INVW(p) = TREEW(p) && DISTW(p) && SEPW(p) && LEXW(p) && ARRW(p) && RB && rank(p) <= allocated
// lists of nodes; pre(a, o, n): the n elements of a from o
smt KList (declare-sort KList 0)
fun knil() #KList
fun kcons(#KList, int) #KList
fun pre(#(Array Int Int), int, int) #KList
axiom pre0: forall("a:#(Array Int Int), o", pre(a, o, 0) == knil, pre(a, o, 0))
axiom preS: forall("a:#(Array Int Int), o, n", imp(n >= 0, pre(a, o, n+1) == kcons(pre(a, o, n), a[o+n])), pre(a, o, n+1))
lemma preUpd induct=n: forall("a:#(Array Int Int), o, k, v, n", imp(k >= o + n, pre(upd(a, k, v), o, n) == pre(a, o, n)), pre(upd(a, k, v), o, n))
def kidlist(p) = pre(contents(p.C), off(p.C), len(p.C))
// the state of the node at the call that is made when the log is l
fun akids(#Log) #KList
fun akind(#Log) parlex.Symbol
fun aval(#Log) string
fun aline(#Log) int
fun acol(#Log) int

// What a reduction may do: anything to the node it is given and to what is
// newer and not ranked below it, as long as the tree stays a tree.
functype tree.Reduction(node)
  because tree.Reduction: a reduction changes only the node it is given and nodes below it, and leaves a tree; akids, akind, aval, aline and acol name the state of the node at the call
  event Red(self, node)
  requires node != nil && rank(node) <= allocated && RB
  requires TREEW(node)
  requires DISTW(node)
  requires SEPW(node)
  requires LEXW(node)
  requires ARRW(node)
  allocs live
  mod field("tree.PN.C", r, below(r, node)), field("tree.PN.Lexeme", r, below(r, node)), field("tree.PN.P", r, below(r, node)), elemsof("*tree.PN", a, a > alim(node)), live(r, below(r, node)), field("lexeme.Lexeme.K", r, r > alim(node)), field("lexeme.Lexeme.V", r, r > alim(node)), field("lexeme.Lexeme.L", r, r > alim(node)), field("lexeme.Lexeme.C", r, r > alim(node))
  ensures live(node) && INVW(node) && node.P == old(node.P)
  ensures forall("n:*tree.PN", imp(live(n) && fresh(n), rank(n) >= rank(node)), live(n))
  ensures akids(old(log)) == old(kidlist(node)) && akind(old(log)) == old(lkind1(node.Lexeme)) && aval(old(log)) == old(lval1(node.Lexeme)) && aline(old(log)) == old(lline1(node.Lexeme)) && acol(old(log)) == old(lcol1(node.Lexeme))
fun condval(tree.Condition, #Log, *tree.PN) bool
functype tree.Condition(node) b
  because tree.Condition: a condition only looks; its answer is named condval
  event Cond(self, node)
  requires node != nil && INVW(node)
  ensures b == condval(self, old(log), node)

def runs(l, r, node) = ite(r == nil, l, ev("Red", l, r, node))
// isSeq(f, a, b): f is what Chain made of a and b
fun isSeq(tree.Reduction, tree.Reduction, tree.Reduction) bool
fun isIf(tree.Reduction, tree.Condition, tree.Reduction, tree.Reduction) bool
// isOp(f, kind, n, s): f is what the constructor of that kind made of its argument
fun isOp(tree.Reduction, string, int) bool
fun isOpS(tree.Reduction, string, []string) bool
fun isOpI(tree.Reduction, string, []int) bool
fun isCondChild(tree.Condition, int, string) bool

func tree.Chain(r1, r2) res
  prop C16 C17 C21
  ghostdef [ite(r1 != nil && r2 != nil, res, nil)] isSeq(res, r1, r2)
  ensures [first] imp(r1 == nil, res == r2)
  ensures [second] imp(r2 == nil, res == r1)
  ensures [both] imp(r1 != nil && r2 != nil, res != nil && isSeq(res, r1, r2))
  apply res(node)
    requires node != nil && INVW(node) && (r1 != nil || r2 != nil) && res != nil
    allocs live
    mod field("tree.PN.C", r, below(r, node)), field("tree.PN.Lexeme", r, below(r, node)), field("tree.PN.P", r, below(r, node)), elemsof("*tree.PN", a, a > alim(node)), live(r, below(r, node)), field("lexeme.Lexeme.K", r, r > alim(node)), field("lexeme.Lexeme.V", r, r > alim(node)), field("lexeme.Lexeme.L", r, r > alim(node)), field("lexeme.Lexeme.C", r, r > alim(node)), log
    ensures [order] log == runs(runs(old(log), r1, node), r2, node)
    ensures [tree] live(node) && INVW(node) && node.P == old(node.P)
    ensures [new] forall("n:*tree.PN", imp(live(n) && fresh(n), rank(n) >= rank(node)), live(n))

func tree.If(condition, then, otherwise) res
  prop C16 C17 C21
  ghostdef [res] isIf(res, condition, then, otherwise)
  ensures [made] res != nil && isIf(res, condition, then, otherwise)
  apply res(node)
    requires node != nil && INVW(node)
    allocs live
    mod field("tree.PN.C", r, below(r, node)), field("tree.PN.Lexeme", r, below(r, node)), field("tree.PN.P", r, below(r, node)), elemsof("*tree.PN", a, a > alim(node)), live(r, below(r, node)), field("lexeme.Lexeme.K", r, r > alim(node)), field("lexeme.Lexeme.V", r, r > alim(node)), field("lexeme.Lexeme.L", r, r > alim(node)), field("lexeme.Lexeme.C", r, r > alim(node)), log
    ensures [nocondition] imp(condition == nil, log == runs(old(log), otherwise, node))
    ensures [condition] imp(condition != nil, letin("l1", ev("Cond", old(log), condition, node), log == ite(condval(condition, old(log), node), runs(l1, then, node), runs(l1, otherwise, node))))
    ensures [tree] INVW(node) && node.P == old(node.P)

func tree.ChildIs(cIdx, kind) res
  prop C16 C21
  ghostdef [res] isCondChild(res, cIdx, kind)
  ensures [made] res != nil && isCondChild(res, cIdx, kind)
  apply res(node) b
    like tree.(*PN).ChildIs : p=node, cIdx=cIdx, kind=kind, r=b

func tree.PromoteChild(cIdx) res
  prop C16 C21
  ghostdef [res] isOp(res, "PromoteChild", cIdx)
  ensures [made] res != nil && isOp(res, "PromoteChild", cIdx)
  apply res(node)
    like tree.(*PN).PromoteChild : p=node, cIdx=cIdx, ok=old(inb(node, cIdx))
func tree.RemoveChild(cIdx) res
  prop C16 C21
  ghostdef [res] isOp(res, "RemoveChild", cIdx)
  ensures [made] res != nil && isOp(res, "RemoveChild", cIdx)
  apply res(node)
    like tree.(*PN).RemoveChild : p=node, cIdx=cIdx, ok=old(inb(node, cIdx))
func tree.PromoteChildValue(cIdx) res
  prop C16 C21
  ghostdef [res] isOp(res, "PromoteChildValue", cIdx)
  ensures [made] res != nil && isOp(res, "PromoteChildValue", cIdx)
  apply res(node)
    like tree.(*PN).PromoteChildValue : p=node, cIdx=cIdx
func tree.ReplaceWithChild(cIdx) res
  prop C16 C21
  ghostdef [res] isOp(res, "ReplaceWithChild", cIdx)
  ensures [made] res != nil && isOp(res, "ReplaceWithChild", cIdx)
  apply res(node)
    like tree.(*PN).ReplaceWithChild : p=node, cIdx=cIdx, ok=old(inb(node, cIdx))
func tree.PromoteChildrenOf(cIdx) res
  prop C16 C21
  ghostdef [res] isOp(res, "PromoteChildrenOf", cIdx)
  ensures [made] res != nil && isOp(res, "PromoteChildrenOf", cIdx)
  apply res(node)
    like tree.(*PN).PromoteChildrenOf : p=node, cIdx=cIdx, ok=old(inb(node, cIdx))
func tree.RemoveChildren(cIdxs) res
  prop C16 C21
  ghostdef [res] isOpI(res, "RemoveChildren", cIdxs)
  ensures [made] res != nil && isOpI(res, "RemoveChildren", cIdxs)
  apply res(node)
    like tree.(*PN).RemoveChildren : p=node, cIdxs=cIdxs
func tree.RemoveAll(symbols) res
  prop C16 C21
  ghostdef [res] isOpS(res, "RemoveAll", symbols)
  ensures [made] res != nil && isOpS(res, "RemoveAll", symbols)
  apply res(node)
    like tree.(*PN).RemoveAll : p=node, symbols=symbols
func tree.PromoteGrandChildren(node)
  prop C16 C21
  like tree.(*PN).PromoteGrandChildren : p=node
func tree.PromoteSingleChild(node)
  prop C16 C21
  like tree.(*PN).PromoteSingleChild : p=node, ok=old(len(node.C) == 1)

// methods: the operation after r
def isF(res, f) = res == f
def afterOp(res, r, k, n) = ite(r == nil, isOp(res, k, n), exists("q:tree.Reduction", isSeq(res, r, q) && isOp(q, k, n), isSeq(res, r, q)))
func tree.Reduction.PromoteChild(r, cIdx) res
  prop C16 C21
  ensures [op] res != nil && afterOp(res, r, "PromoteChild", cIdx)
func tree.Reduction.RemoveChild(r, cIdx) res
  prop C16 C21
  ensures [op] res != nil && afterOp(res, r, "RemoveChild", cIdx)
func tree.Reduction.PromoteChildValue(r, cIdx) res
  prop C16 C21
  ensures [op] res != nil && afterOp(res, r, "PromoteChildValue", cIdx)
func tree.Reduction.ReplaceWithChild(r, cIdx) res
  prop C16 C21
  ensures [op] res != nil && afterOp(res, r, "ReplaceWithChild", cIdx)
func tree.Reduction.PromoteChildrenOf(r, cIdx) res
  prop C16 C21
  ensures [op] res != nil && afterOp(res, r, "PromoteChildrenOf", cIdx)
func tree.Reduction.RemoveChildren(r, cIdxs) res
  prop C16 C21
  ensures [op] res != nil && ite(r == nil, isOpI(res, "RemoveChildren", cIdxs), exists("q:tree.Reduction", isSeq(res, r, q) && isOpI(q, "RemoveChildren", cIdxs), isSeq(res, r, q)))
func tree.Reduction.RemoveAll(r, symbols) res
  prop C16 C21
  ensures [op] res != nil && ite(r == nil, isOpS(res, "RemoveAll", symbols), exists("q:tree.Reduction", isSeq(res, r, q) && isOpS(q, "RemoveAll", symbols), isSeq(res, r, q)))
func tree.Reduction.PromoteGrandChildren(r) res
  prop C16 C21
  ensures [op] res != nil && letin("q", cast(fnconst("tree.PromoteGrandChildren"), "tree.Reduction"), ite(r == nil, res == q, isSeq(res, r, q)))
func tree.Reduction.PromoteSingleChild(r) res
  prop C16 C21
  ensures [op] res != nil && letin("q", cast(fnconst("tree.PromoteSingleChild"), "tree.Reduction"), ite(r == nil, res == q, isSeq(res, r, q)))
func tree.Reduction.If(r, condition, then, otherwise) res
  prop C16 C17 C21
  ensures [op] res != nil && ite(r == nil, isIf(res, condition, then, otherwise), exists("q:tree.Reduction", isSeq(res, r, q) && isIf(q, condition, then, otherwise), isSeq(res, r, q)))
