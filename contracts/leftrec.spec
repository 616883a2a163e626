// ---- C06: left recursion ---------------------------------------------------
def onst(op, t) = has(op.stack, t) && op.stack[t]
def CHKV(op) = forall("t:string", imp(has(op.checked, t), op.checked[t] == nul(op.Grammar, t)), has(op.checked, t))
def CHKN(op) = forall("t:string", imp(has(op.checked, t), !lftp(op.Grammar, t, t)), has(op.checked, t))
def CHKC(op) = closedL(op.Grammar, dom(op.checked))
def STK(op, s) = forall("t:string", imp(onst(op, t), lftp(op.Grammar, t, s)), has(op.stack, t))
def opok(op) = op != nil && op.Grammar != nil && GWF(op.Grammar) && op.checked != nil && op.stack != nil && op.checked != op.stack
func parlex.(*lrOp).check(op, s) isLR, cn
  prop C06
  view g
  use noself
  requires opok(op) && s != nil && vsym(s) && CHKV(op) && CHKN(op) && CHKC(op) && STK(op, symstr(s))
  mod entries(op.checked), entries(op.stack)
  ensures [found] imp(isLR, leftrec(op.Grammar))
  ensures [inv] opok(op)
  ensures [answer] imp(!isLR, has(op.checked, symstr(s)) && cn == nul(op.Grammar, symstr(s)))
  ensures [nullable] imp(!isLR, CHKV(op))
  ensures [none] imp(!isLR, CHKN(op))
  ensures [closed] imp(!isLR, CHKC(op))
  ensures [stack] imp(!isLR, forall("t:string", onst(op, t) == old(onst(op, t)), has(op.stack, t)))
  ensures [grow] forall("t:string", imp(old(has(op.checked, t)), has(op.checked, t)), has(op.checked, t))
  ensures [new] imp(!isLR, forall("t:string", imp(has(op.checked, t) && !old(has(op.checked, t)), !old(onst(op, t))), has(op.checked, t)))
  local it *parlex.ProductionsIterator
  local jt *parlex.ProductionIterator
  local ret bool phi
  local next bool phi
  local prods parlex.Productions
  decreases free(op.Grammar, trues(dom(op.stack), contents(op.stack)))
  variant rpsl(it.Productions) - vitspos(it)
  variant rpl(jt.Production) - vipos(jt)
  inv opok(op)
  inv fresh(it)
  inv fresh(jt)
  inv it != jt
  inv vitsok(it) && vitspos(it) <= gnp(op.Grammar, symstr(s)) && it.Productions == prods
  inv vitok(jt) && jt.Production == it.Production && vitspos(it) > 0 && vipos(jt) <= rpl(jt.Production)
  inv CHKV(op)
  inv CHKN(op)
  inv CHKC(op)
  inv forall("t:string", onst(op, t) == (t == symstr(s) || old(onst(op, t))), has(op.stack, t))
  inv forall("t:string", imp(old(has(op.checked, t)), has(op.checked, t)), has(op.checked, t))
  inv forall("t:string", imp(has(op.checked, t) && !old(has(op.checked, t)), !old(onst(op, t)) && t != symstr(s)), has(op.checked, t))
  inv imp(ret, nul(op.Grammar, symstr(s)))
  inv forall("i", imp(0 <= i && i < vitspos(it) && nulp(op.Grammar, symstr(s), i, gpl(op.Grammar, symstr(s), i)), ret), gpl(op.Grammar, symstr(s), i))
  inv forall("i, j", imp(0 <= i && i < vitspos(it) && 0 <= j && j < gpl(op.Grammar, symstr(s), i) && nulp(op.Grammar, symstr(s), i, j), has(op.checked, gps(op.Grammar, symstr(s), i, j))), gps(op.Grammar, symstr(s), i, j))
  inv next == nulp(op.Grammar, symstr(s), it.Idx, vipos(jt))
  inv forall("i", imp(0 <= i && i < it.Idx && nulp(op.Grammar, symstr(s), i, gpl(op.Grammar, symstr(s), i)), ret), gpl(op.Grammar, symstr(s), i))
  inv forall("i, j", imp(0 <= i && i < it.Idx && 0 <= j && j < gpl(op.Grammar, symstr(s), i) && nulp(op.Grammar, symstr(s), i, j), has(op.checked, gps(op.Grammar, symstr(s), i, j))), gps(op.Grammar, symstr(s), i, j))
  inv forall("j", imp(0 <= j && j < vipos(jt), has(op.checked, gps(op.Grammar, symstr(s), it.Idx, j))), gps(op.Grammar, symstr(s), it.Idx, j))

func parlex.IsLeftRecursive(grammar) r
  use lftpN
  prop C06
  view g
  requires grammar != nil && GWF(grammar)
  ensures [leftrecursive] r == leftrec(grammar)
  local op *parlex.lrOp
  local i int phi
  local nts []parlex.Symbol
  inv op != nil && fresh(op) && op.Grammar == grammar && op.checked != nil && fresh(op.checked)
  inv CHKV(op)
  inv CHKN(op)
  inv CHKC(op)
  inv forall("k", imp(0 <= k && k < i, has(op.checked, gnts(grammar, k))), gnts(grammar, k))

func topdown.New(grmr) t, err
  prop C06
  view g
  requires grmr != nil && GWF(grmr) && global("topdown.ErrLeftRecursion") != nil
  ensures [refused] imp(leftrec(grmr), t == nil && err == global("topdown.ErrLeftRecursion"))
  ensures [constructed] imp(!leftrec(grmr), err == nil && fresh(t) && t.Grammar == grmr)
