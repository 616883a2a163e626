// ---- C10, C11: the packrat parser -------------------------------------------
// thegr(0): the grammar of the parse; nin, inp...: its input (topdown.spec)
fun thegr(int) parlex.Grammar
def GR = thegr(0)
// der(g, s, p, q): s derives the lexemes from p to q; pd(g, s, i, n, p, q): so
// do the first n symbols of production i of s. The axioms say that these are
// the least such relations (derE, pdE with the ranks dern, pdn).
fun der(parlex.Grammar, string, int, int) bool
fun pd(parlex.Grammar, string, int, int, int, int) bool
fun derw(parlex.Grammar, string, int, int) int
fun dern(parlex.Grammar, string, int, int) int
fun pdw(parlex.Grammar, string, int, int, int, int) int
fun pdn(parlex.Grammar, string, int, int, int, int) int
axiom derT: forall("g:parlex.Grammar, s:string, p", imp(gnp(g, s) < 0 && 0 <= p && p < nin(0) && inp(p) == s, der(g, s, p, p+1)), pats(gnp(g, s), inp(p)))
axiom pd0: forall("g:parlex.Grammar, s:string, i, p", pd(g, s, i, 0, p, p), pd(g, s, i, 0, p, p))
axiom pdS: forall("g:parlex.Grammar, s:string, i, n, p, q, r", imp(0 <= i && i < gnp(g, s) && 0 <= n && n < gpl(g, s, i) && pd(g, s, i, n, p, q) && der(g, gps(g, s, i, n), q, r), pd(g, s, i, n+1, p, r)), pats(pd(g, s, i, n, p, q), der(g, gps(g, s, i, n), q, r)))
axiom der0: forall("g:parlex.Grammar, s:string, i, p", imp(0 <= i && i < gnp(g, s) && gpl(g, s, i) == 0, der(g, s, p, p)), pats(gpl(g, s, i), der(g, s, p, p)))
axiom derN: forall("g:parlex.Grammar, s:string, i, p, q", imp(0 <= i && i < gnp(g, s) && pd(g, s, i, gpl(g, s, i), p, q), der(g, s, p, q)), pd(g, s, i, gpl(g, s, i), p, q))
// derE, pdE: one step back, where stepD, stepP ask for it
fun stepD(parlex.Grammar, string, int, int) bool
fun stepP(parlex.Grammar, string, int, int, int, int) bool
axiom stepDall: forall("g:parlex.Grammar, s:string, p, q", stepD(g, s, p, q), stepD(g, s, p, q))
axiom stepPall: forall("g:parlex.Grammar, s:string, i, n, p, q", stepP(g, s, i, n, p, q), stepP(g, s, i, n, p, q))
axiom derE named: forall("g:parlex.Grammar, s:string, p, q", imp(der(g, s, p, q), ite(gnp(g, s) < 0, 0 <= p && p < nin(0) && inp(p) == s && q == p + 1, 0 <= derw(g, s, p, q) && derw(g, s, p, q) < gnp(g, s) && pd(g, s, derw(g, s, p, q), gpl(g, s, derw(g, s, p, q)), p, q) && 0 <= pdn(g, s, derw(g, s, p, q), gpl(g, s, derw(g, s, p, q)), p, q) && pdn(g, s, derw(g, s, p, q), gpl(g, s, derw(g, s, p, q)), p, q) < dern(g, s, p, q))), stepD(g, s, p, q))
axiom pdE named: forall("g:parlex.Grammar, s:string, i, n, p, q", imp(pd(g, s, i, n, p, q), n >= 0 && n <= gpl(g, s, i) && ite(n == 0, q == p, pd(g, s, i, n-1, p, pdw(g, s, i, n, p, q)) && der(g, gps(g, s, i, n-1), pdw(g, s, i, n, p, q), q) && 0 <= pdn(g, s, i, n-1, p, pdw(g, s, i, n, p, q)) && pdn(g, s, i, n-1, p, pdw(g, s, i, n, p, q)) < pdn(g, s, i, n, p, q) && 0 <= dern(g, gps(g, s, i, n-1), pdw(g, s, i, n, p, q), q) && dern(g, gps(g, s, i, n-1), pdw(g, s, i, n, p, q), q) < pdn(g, s, i, n, p, q) && stepD(g, gps(g, s, i, n-1), pdw(g, s, i, n, p, q), q))), stepP(g, s, i, n, p, q))

// an item: symbol (index), production, symbols matched, from, to
smt It (declare-sort It 0)
fun mkit(int, int, int, int, int) #It
fun it1(#It) int
fun it2(#It) int
fun it3(#It) int
fun it4(#It) int
fun it5(#It) int
axiom mkitdef: forall("i, k, n, p, q", it1(mkit(i, k, n, p, q)) == i && it2(mkit(i, k, n, p, q)) == k && it3(mkit(i, k, n, p, q)) == n && it4(mkit(i, k, n, p, q)) == p && it5(mkit(i, k, n, p, q)) == q, mkit(i, k, n, p, q))
def mark(i, p) = st("packrat.treeMarker", i, p)
def pkey(i, p, q) = st("packrat.treeKey", mark(i, p), q)
// dnP(R, d, s, x): item x is recorded, or is complete and its tree is known
fun dnP(#(Array It Bool), #(Array |S:packrat.treeKey| Bool), *setsymbol.Set, #It) bool
axiom dnPdef named: forall("R:#(Array It Bool), d:#(Array |S:packrat.treeKey| Bool), s:#Int, x:#It", dnP(R, d, s, x) == ite(it3(x) == gpl(GR, setstr(s, it1(x)), it2(x)), d[pkey(it1(x), it4(x), it5(x))], R[x]), dnP(R, d, s, x))
def doneA(s, d, R, i, k, n, p, q) = dnP(R, d, s, mkit(i, k, n, p, q))
// closedP: what holds of recorded items R, known trees d and asked markers Q
// when there is nothing left to do
fun closedP(*setsymbol.Set, int, #(Array It Bool), #(Array |S:packrat.treeKey| Bool), #(Array |S:packrat.treeMarker| Bool)) bool
def clQ(s, R, d, Q) = forall("i, p, k", imp(Q[mark(i, p)] && 0 <= k && k < gnp(GR, setstr(s, i)), ite(gpl(GR, setstr(s, i), k) == 0, d[pkey(i, p, p)], R[mkit(i, k, 0, p, p)])), pats(Q[mark(i, p)], gpl(GR, setstr(s, i), k)))
def clR(s, m, R, Q) = forall("i, k, n, p, q", imp(R[mkit(i, k, n, p, q)], HASN(s, m, gps(GR, setstr(s, i), k, n)) && Q[mark(sidx(s, gps(GR, setstr(s, i), k, n)), q)]), R[mkit(i, k, n, p, q)])
def clN(s, R, d) = forall("i, k, n, p, q, e", imp(R[mkit(i, k, n, p, q)] && gnp(GR, gps(GR, setstr(s, i), k, n)) >= 0 && d[pkey(sidx(s, gps(GR, setstr(s, i), k, n)), q, e)], doneA(s, d, R, i, k, n+1, p, e)), pats(R[mkit(i, k, n, p, q)], d[pkey(sidx(s, gps(GR, setstr(s, i), k, n)), q, e)]))
def clT(s, R, d) = forall("i, k, n, p, q", imp(R[mkit(i, k, n, p, q)] && gnp(GR, gps(GR, setstr(s, i), k, n)) < 0 && 0 <= q && q < nin(0) && inp(q) == gps(GR, setstr(s, i), k, n), doneA(s, d, R, i, k, n+1, p, q+1)), R[mkit(i, k, n, p, q)])
def HASN(s, m, t) = 0 <= sidx(s, t) && sidx(s, t) < m && setstr(s, sidx(s, t)) == t
axiom closedPdef: forall("s:#Int, m, R:#(Array It Bool), d:#(Array |S:packrat.treeKey| Bool), Q:#(Array |S:packrat.treeMarker| Bool)", iff(closedP(s, m, R, d, Q), clQ(s, R, d, Q) && clR(s, m, R, Q) && clN(s, R, d) && clT(s, R, d)), closedP(s, m, R, d, Q))
fun stepC(*setsymbol.Set, #(Array It Bool), #(Array |S:packrat.treeKey| Bool), #(Array |S:packrat.treeMarker| Bool), int) bool
axiom stepCall: forall("s:#Int, R:#(Array It Bool), d:#(Array |S:packrat.treeKey| Bool), Q:#(Array |S:packrat.treeMarker| Bool), n", stepC(s, R, d, Q, n), stepC(s, R, d, Q, n))
axiom pdnpos: forall("g:parlex.Grammar, s:string, i, n, p, q", pdn(g, s, i, n, p, q) >= 0, pdn(g, s, i, n, p, q))
// compn(.., n): what has a derivation of rank less than n is done
fun compn(*setsymbol.Set, #(Array It Bool), #(Array |S:packrat.treeKey| Bool), #(Array |S:packrat.treeMarker| Bool), int) bool
axiom compnE: forall("s:#Int, R:#(Array It Bool), d:#(Array |S:packrat.treeKey| Bool), Q:#(Array |S:packrat.treeMarker| Bool), n", iff(compn(s, R, d, Q, n), forall("i, k, j, p, q", imp(Q[mark(i, p)] && 0 <= k && k < gnp(GR, setstr(s, i)) && pd(GR, setstr(s, i), k, j, p, q) && pdn(GR, setstr(s, i), k, j, p, q) < n, doneA(s, d, R, i, k, j, p, q)), pd(GR, setstr(s, i), k, j, p, q))), compn(s, R, d, Q, n))
lemma compS derE pdE dnPdef C10 C11: forall("s:#Int, m, R:#(Array It Bool), d:#(Array |S:packrat.treeKey| Bool), Q:#(Array |S:packrat.treeMarker| Bool), i, k, j, p, q, n", imp(closedP(s, m, R, d, Q) && compn(s, R, d, Q, n) && stepP(GR, setstr(s, i), k, j, p, q) && Q[mark(i, p)] && 0 <= k && k < gnp(GR, setstr(s, i)) && pd(GR, setstr(s, i), k, j, p, q) && pdn(GR, setstr(s, i), k, j, p, q) < n+1, doneA(s, d, R, i, k, j, p, q)), pats(closedP(s, m, R, d, Q), compn(s, R, d, Q, n), pd(GR, setstr(s, i), k, j, p, q)))
lemma compN compS induct=n C10 C11: forall("s:#Int, m, R:#(Array It Bool), d:#(Array |S:packrat.treeKey| Bool), Q:#(Array |S:packrat.treeMarker| Bool), n", imp(closedP(s, m, R, d, Q), compn(s, R, d, Q, n)), pats(closedP(s, m, R, d, Q), stepC(s, R, d, Q, n)))
lemma comp derE compN dnPdef C10 C11: forall("s:#Int, m, R:#(Array It Bool), d:#(Array |S:packrat.treeKey| Bool), Q:#(Array |S:packrat.treeMarker| Bool), i, p, q", imp(closedP(s, m, R, d, Q) && stepD(GR, setstr(s, i), p, q) && Q[mark(i, p)] && gnp(GR, setstr(s, i)) >= 0 && der(GR, setstr(s, i), p, q) && stepC(s, R, d, Q, 1 + pdn(GR, setstr(s, i), derw(GR, setstr(s, i), p, q), gpl(GR, setstr(s, i), derw(GR, setstr(s, i), p, q)), p, q)), d[pkey(i, p, q)]), pats(closedP(s, m, R, d, Q), der(GR, setstr(s, i), p, q)))
// what is derived consists of terminals
lemma termP derE pdE induct=n at=pdn(g,s,k,j,p,q)+1: forall("g:parlex.Grammar, s:string, k, j, p, q, x, n", imp(stepP(g, s, k, j, p, q) && 0 <= k && k < gnp(g, s) && pd(g, s, k, j, p, q) && pdn(g, s, k, j, p, q) < n && p <= x && x < q, gnp(g, inp(x)) < 0), pats(pd(g, s, k, j, p, q), inp(x)))
lemma term derE termP C10 C11: forall("g:parlex.Grammar, s:string, p, q, x", imp(stepD(g, s, p, q) && der(g, s, p, q) && p <= x && x < q, gnp(g, inp(x)) < 0), pats(der(g, s, p, q), inp(x)))

// ---- the state of a parse -----------------------------------------------------
track packrat.prOp packrat.updater
def slen(s) = len(s.symb2str)
def sn(s, i) = setstr(s, i)
def nxt(s, i, k, n) = sidx(s, gps(GR, sn(s, i), k, n))
def POP(op) = op != nil && op.grmr == GR && GR != nil && wt(GR) && GWF(GR) && op.memo != nil && op.markers != nil && op.partials != nil && op.queued != nil && op.set != nil && okset(op.set) && INJ(op.set) && ALLSYM(GR, op.set) && wt(op.nonterms) && len(op.nonterms) == slen(op.set) && nin(0) >= 0
def PNT(op) = each(op.nonterms, i, op.nonterms[i] == (gnp(GR, sn(op.set, i)) >= 0))
def PLX(op) = wt(op.lxms) && len(op.lxms) == nin(0) && each(op.lxms, p, lexof(op.lxms[p], op.set, p))
def kb(s, k) = 0 <= k.idx && k.idx < slen(s) && 0 <= k.start && k.start <= k.end && k.end <= nin(0)
// the children c of production k of symbol i: their symbols, one after the
// other from p to e, all of them known
def CH0(c, p, e) = wt(c) && ite(len(c) == 0, p == e, c[0].start == p && c[len(c)-1].end == e)
def CH1(m, s, i, k, c) = each(c, j, has(m, c[j]) && c[j].idx == nxt(s, i, k, j))
def CH2(c) = each(c, j, each(c, h, imp(h == j + 1, c[h].start == c[j].end)))
// an entry of the memo
def vleaf(s, td) = len(td.children) == 0 && td.priority == 0 && td.start < nin(0) && inp(td.start) == sn(s, td.idx) && td.end == td.start + 1
def vprod(m, s, td) = 0 <= td.priority && td.priority < gnp(GR, sn(s, td.idx)) && len(td.children) == gpl(GR, sn(s, td.idx), td.priority) && CH0(td.children, td.start, td.end) && CH1(m, s, td.idx, td.priority, td.children) && CH2(td.children)
def ventry(m, s, td) = kb(s, td) && der(GR, sn(s, td.idx), td.start, td.end) && wt(td.children) && imp(gnp(GR, sn(s, td.idx)) < 0, vleaf(s, td)) && imp(gnp(GR, sn(s, td.idx)) >= 0, vprod(m, s, td))
def VM(m, s) = forall("k:packrat.treeKey", imp(has(m, k), m[k].treeKey == k && ventry(m, s, m[k])), m[k].priority)
// known trees by symbol and start
def VK(op) = forall("m:packrat.treeMarker", imp(has(op.markers, m), wt(op.markers[m]) && each(op.markers[m], j, op.markers[m][j].treeMarker == m && has(op.memo, op.markers[m][j].treeKey))), has(op.markers, m))
def SEPK(op) = forall("m:packrat.treeMarker, n:packrat.treeMarker", imp(has(op.markers, m) && has(op.markers, n) && m != n, arr(op.markers[m]) == 0 || arr(op.markers[m]) != arr(op.markers[n])), pats(has(op.markers, m), has(op.markers, n)))
// a production matched in part, that goes on with marker m
def tend(tp) = ite(len(tp.children) == 0, tp.start, tp.end)
def vpart0(s, tp) = 0 <= tp.idx && tp.idx < slen(s) && 0 <= tp.start && tp.start <= tend(tp) && tend(tp) <= nin(0) && tp.prod != nil && wt(tp.prod) && wt(tp.children)
def vpart1(s, tp) = gnp(GR, sn(s, tp.idx)) >= 0 && pm(tp.prod, GR, sn(s, tp.idx), tp.priority) && len(tp.children) < gpl(GR, sn(s, tp.idx), tp.priority) && pd(GR, sn(s, tp.idx), tp.priority, len(tp.children), tp.start, tend(tp))
def vpart2(m, s, tp) = CH0(tp.children, tp.start, tend(tp)) && CH1(m, s, tp.idx, tp.priority, tp.children) && CH2(tp.children)
def vwant(s, tp, m) = m.idx == nxt(s, tp.idx, tp.priority, len(tp.children)) && m.start == tend(tp)
def vpart(op, tp, m) = vpart0(op.set, tp) && vpart1(op.set, tp) && vpart2(op.memo, op.set, tp) && vwant(op.set, tp, m)
def VP(op) = forall("m:packrat.treeMarker", imp(has(op.partials, m), gnp(GR, sn(op.set, m.idx)) >= 0 && wt(op.partials[m]) && each(op.partials[m], j, vpart(op, op.partials[m][j], m))), has(op.partials, m))
def SEPP(op) = forall("m:packrat.treeMarker, n:packrat.treeMarker", imp(has(op.partials, m) && has(op.partials, n) && m != n, arr(op.partials[m]) == 0 || arr(op.partials[m]) != arr(op.partials[n])), pats(has(op.partials, m), has(op.partials, n)))
// what is left to do (umade: the updaters of this parse)
ghost umade *packrat.updater bool
def VU1(op) = forall("u:*packrat.updater", imp(umade(u) && alloc(u), vpart(op, u.base, u.extension.treeMarker)), u.base.priority)
def VU2(op) = forall("u:*packrat.updater", imp(umade(u) && alloc(u), has(op.memo, u.extension) && op.memo[u.extension].treeKey == u.extension), u.extension.end)
def VU3 = forall("u:*packrat.updater", imp(umade(u) && alloc(u), wt(u.next) && (u.next == nil || umade(u.next))), u.next)
def VSTK(op) = wt(op.stack) && (op.stack == nil || umade(op.stack))
def PINF(op) = POP(op) && PNT(op) && PLX(op)
def PMEM(op) = VM(op.memo, op.set)
def PLIST(op) = VK(op) && SEPK(op) && VP(op) && SEPP(op)
def PAG(op) = VU1(op) && VU2(op) && VU3 && VSTK(op)
// What has been done (ghost). RI: the items that have been recorded; PX: where
// an item stands in the list of partials; MX: where a tree stands in the list of
// its marker; PU: the updater that was made to reach an item; utgt: the item an
// updater reaches; onl(u, v): v is on the list that starts with u
ghost RI *packrat.prOp #(Array It Bool)
ghost PX *packrat.prOp #(Array It Int)
ghost MX *packrat.prOp #(Array |S:packrat.treeKey| Int)
ghost PU *packrat.prOp #(Array It Int)
fun utgt(*packrat.updater) #It
fun onl(*packrat.updater, *packrat.updater) bool
axiom onlnil: forall("v:#Int", !onl(nil, v), onl(nil, v))
def nm(op, m) = ite(has(op.markers, m), len(op.markers[m]), 0)
def np(op, m) = ite(has(op.partials, m), len(op.partials[m]), 0)
def pit(tp) = mkit(tp.idx, tp.priority, len(tp.children), tp.start, tend(tp))
def tgt(tp, e) = mkit(tp.idx, tp.priority, len(tp.children) + 1, tp.start, e)
def mke(m, e) = st("packrat.treeKey", m, e)
def K2a(op) = forall("i, k, n, p, q", imp(RI(op)[mkit(i, k, n, p, q)], 0 <= i && i < slen(op.set) && 0 <= k && k < gnp(GR, sn(op.set, i)) && 0 <= n && n < gpl(GR, sn(op.set, i), k) && 0 <= p && p <= q && q <= nin(0) && has(op.queued, mark(nxt(op.set, i, k, n), q))), RI(op)[mkit(i, k, n, p, q)])
def K2b(op) = forall("i, k, n, p, q", imp(RI(op)[mkit(i, k, n, p, q)] && gnp(GR, gps(GR, sn(op.set, i), k, n)) >= 0, has(op.partials, mark(nxt(op.set, i, k, n), q)) && 0 <= PX(op)[mkit(i, k, n, p, q)] && PX(op)[mkit(i, k, n, p, q)] < len(op.partials[mark(nxt(op.set, i, k, n), q)]) && pit(op.partials[mark(nxt(op.set, i, k, n), q)][PX(op)[mkit(i, k, n, p, q)]]) == mkit(i, k, n, p, q)), RI(op)[mkit(i, k, n, p, q)])
def K2c(op) = forall("i, k, n, p, q", imp(RI(op)[mkit(i, k, n, p, q)] && gnp(GR, gps(GR, sn(op.set, i), k, n)) < 0 && q < nin(0) && inp(q) == gps(GR, sn(op.set, i), k, n), PU(op)[mkit(i, k, n+1, p, q+1)] != 0), RI(op)[mkit(i, k, n, p, q)])
def K3(op) = forall("m:packrat.treeMarker, e", imp(has(op.partials, m) && has(op.memo, mke(m, e)), each(op.partials[m], j, PU(op)[tgt(op.partials[m][j], e)] != 0)), pats(has(op.partials, m), has(op.memo, mke(m, e))))
def K5(op) = forall("k:packrat.treeKey", imp(has(op.memo, k), has(op.markers, k.treeMarker) && 0 <= MX(op)[k] && MX(op)[k] < len(op.markers[k.treeMarker]) && op.markers[k.treeMarker][MX(op)[k]].treeKey == k), has(op.memo, k))
def KT(op) = forall("x:#It", imp(PU(op)[x] != 0, umade(PU(op)[x]) && alloc(PU(op)[x]) && utgt(PU(op)[x]) == x), PU(op)[x])
def VUT = forall("u:*packrat.updater", imp(umade(u) && alloc(u), utgt(u) == tgt(u.base, u.extension.end)), u.base.priority)
def VUL = forall("u:*packrat.updater, v:#Int", imp(umade(u) && alloc(u), onl(u, v) == (v == u || onl(u.next, v))), pats(onl(u, v), u.next))
def QV(op) = forall("m:packrat.treeMarker", imp(has(op.queued, m), op.queued[m]), has(op.queued, m), op.queued[m])
def KI(op) = K2a(op) && K2b(op) && K2c(op) && K3(op) && K5(op) && QV(op)
def KU(op) = KT(op) && VUT && VUL
// an item is done, or will be reached
def dn(op, x) = dnP(RI(op), dom(op.memo), op.set, x)
def K4v(op, x) = PU(op)[x] == 0 || dn(op, x) || onl(op.stack, PU(op)[x])
def K4KEEP(op) = forall("x:#It", imp(old(K4v(op, x)), K4v(op, x)), PU(op)[x])
def K4(op) = forall("x:#It", K4v(op, x), PU(op)[x])
// a queued marker: its productions are recorded
def bok(op, i, p, k) = ite(gpl(GR, sn(op.set, i), k) == 0, has(op.memo, pkey(i, p, p)), RI(op)[mkit(i, k, 0, p, p)])
def QB(op) = forall("i, p, k", imp(has(op.queued, mark(i, p)) && 0 <= k && k < gnp(GR, sn(op.set, i)), bok(op, i, p, k)), pats(has(op.queued, mark(i, p)), gpl(GR, sn(op.set, i), k)))
def QNEW(op) = forall("i, p, k", imp(has(op.queued, mark(i, p)) && !old(has(op.queued, mark(i, p))) && 0 <= k && k < gnp(GR, sn(op.set, i)), bok(op, i, p, k)), pats(has(op.queued, mark(i, p)), gpl(GR, sn(op.set, i), k)))
def QNEWX(op, r) = forall("i, p, k", imp(has(op.queued, mark(i, p)) && !old(has(op.queued, mark(i, p))) && mark(i, p) != r && 0 <= k && k < gnp(GR, sn(op.set, i)), bok(op, i, p, k)), pats(has(op.queued, mark(i, p)), gpl(GR, sn(op.set, i), k)))
def GROWQ(op) = forall("m:packrat.treeMarker", imp(old(has(op.queued, m)), has(op.queued, m)), has(op.queued, m), old(has(op.queued, m)))
def GROWR(op) = forall("x:#It", imp(old(RI(op)[x]), RI(op)[x]), RI(op)[x], old(RI(op)[x]))
def GROWU(op) = forall("x:#It", imp(old(PU(op)[x]) != 0, PU(op)[x] != 0), PU(op)[x], old(PU(op)[x]))
def GROWP(op) = forall("m:packrat.treeMarker", imp(old(has(op.partials, m)), has(op.partials, m) && len(op.partials[m]) >= old(len(op.partials[m])) && each(op.partials[m], j, imp(j < old(len(op.partials[m])), op.partials[m][j] == old(op.partials[m][j])))), has(op.partials, m), old(has(op.partials, m)))
// nothing known is forgotten
def GROWM(op) = forall("k:packrat.treeKey", imp(old(has(op.memo, k)), has(op.memo, k)), has(op.memo, k), old(has(op.memo, k)))
def SAMES(op) = slen(op.set) == old(slen(op.set))

func packrat.(*prOp).push(op, tp, tk)
  use dnPdef
  prop C10 C11
  view g
  requires PINF(op) && PMEM(op) && PLIST(op) && PAG(op) && vpart(op, tp, tk.treeMarker) && has(op.memo, tk)
  requires KU(op)
  mod op.stack, PU(op)
  allocs umade
  gset umade(op.stack) = true
  gset PU(op) = upd(PU(op), tgt(tp, tk.end), op.stack)
  ghostdef [op.stack] utgt(op.stack) == tgt(tp, tk.end) && forall("v:#Int", onl(op.stack, v) == (v == op.stack || onl(old(op.stack), v)), pats(onl(op.stack, v)), pats(onl(old(op.stack), v)))
  ensures [new] fresh(op.stack) && umade(op.stack)
  ensures [reaches] PU(op) == upd(old(PU(op)), tgt(tp, tk.end), op.stack)
  ensures [pending] K4KEEP(op) && GROWU(op)
  ensures [updaters] KU(op)
  ensures [inv] PINF(op) && PMEM(op) && PLIST(op)
  ensures [agenda] PAG(op)
func packrat.(*prOp).createsCircularDep(op, node, root) r
  prop C10 C11
  view g
  requires PINF(op) && PMEM(op) && ventry(op.memo, op.set, node) && root != nil
func packrat.(*treeDef).comparePriority(td, td2, op) r
  prop C10 C11
  view g
  requires PINF(op) && PMEM(op) && td != nil && td2 != nil && ventry(op.memo, op.set, td) && ventry(op.memo, op.set, td2) && td.idx == td2.idx
  ensures [first] imp(td.priority < td2.priority, r == 1) && imp(td.priority > td2.priority, r == -1)
func packrat.(*prOp).addToMemo(op, td)
  use dnPdef
  prop C10 C11
  view g
  requires PINF(op) && PMEM(op) && PLIST(op) && PAG(op) && ventry(op.memo, op.set, td)
  requires KI(op) && KU(op)
  mod op.stack, entries(op.memo), entries(op.markers), elemsof("packrat.treeDef", a, true), PU(op), MX(op)
  allocs umade
  gset MX(op) = upd(MX(op), td.treeKey, ite(old(has(op.memo, td.treeKey)), MX(op)[td.treeKey], old(nm(op, td.treeMarker))))
  ensures [items] K2a(op)
  ensures [partials] K2b(op)
  ensures [terminals] K2c(op)
  ensures [pairs] K3(op)
  ensures [trees] K5(op) && QV(op)
  ensures [updaters] KU(op)
  ensures [pending] K4KEEP(op) && GROWU(op)
  inv K2a(op) && K2b(op) && K2c(op)
  inv KU(op)
  inv K4KEEP(op) && GROWU(op)
  inv forall("m:packrat.treeMarker, e", imp(has(op.partials, m) && has(op.memo, mke(m, e)) && mke(m, e) != td.treeKey, each(op.partials[m], j, PU(op)[tgt(op.partials[m][j], e)] != 0)), pats(has(op.partials, m), has(op.memo, mke(m, e))))
  inv each(op.partials[td.treeMarker], j, imp(j < iter, PU(op)[tgt(op.partials[td.treeMarker][j], td.end)] != 0))
  ensures [known] has(op.memo, td.treeKey)
  ensures [grow] GROWM(op)
  ensures [inv] PINF(op) && PLIST(op)
  ensures [memo] PMEM(op)
  ensures [agenda] PAG(op)
  inv PINF(op) && PMEM(op) && PLIST(op)
  inv PAG(op)
func packrat.(*prOp).checkNonTerminal(op, at) r
  use dnPdef
  prop C10 C11
  view g
  requires PINF(op) && PMEM(op) && PLIST(op) && PAG(op) && 0 <= at.idx && at.idx < slen(op.set) && 0 <= at.start && at.start <= nin(0) && gnp(GR, sn(op.set, at.idx)) < 0
  requires KI(op) && KU(op)
  mod op.stack, entries(op.memo), entries(op.markers), elemsof("packrat.treeDef", a, true), PU(op), MX(op)
  allocs umade
  ensures [items] K2a(op)
  ensures [partials] K2b(op)
  ensures [terminals] K2c(op)
  ensures [pairs] K3(op)
  ensures [trees] K5(op) && QV(op)
  ensures [updaters] KU(op)
  ensures [pending] K4KEEP(op) && GROWU(op)
  ensures [known] imp(at.start < nin(0) && inp(at.start) == sn(op.set, at.idx), has(op.memo, pkey(at.idx, at.start, at.start + 1)))
  ensures [grow] GROWM(op)
  ensures [inv] PINF(op) && PLIST(op)
  ensures [memo] PMEM(op)
  ensures [agenda] PAG(op)
func packrat.(*prOp).addPartial(op, tp, req)
  use dnPdef
  prop C10 C11
  view g
  group pk
  requires PINF(op) && PMEM(op) && PLIST(op) && PAG(op) && vpart(op, tp, req)
  mod op.set.symb2str, op.stack, entries(op.memo), entries(op.markers), entries(op.partials), entries(op.queued), elemsof("packrat.treeDef", a, true), elemsof("packrat.treePartial", a, true), PU(op), MX(op), RI(op), PX(op)
  allocs umade
  requires KI(op) && KU(op)
  ensures [mine] imp(gnp(GR, gps(GR, sn(op.set, tp.idx), tp.priority, len(tp.children))) >= 0, has(op.partials, req) && np(op, req) > old(np(op, req)) && op.partials[req][old(np(op, req))] == tp)
  ensures [recorded] RI(op)[pit(tp)]
  ensures [items] K2a(op)
  ensures [partials] K2b(op)
  ensures [terminals] K2c(op)
  ensures [pairs] K3(op)
  ensures [trees] K5(op) && QV(op)
  ensures [updaters] KU(op)
  ensures [done] GROWU(op) && GROWR(op) && GROWQ(op) && GROWP(op)
  ensures [queued] QNEW(op)
  gset RI(op) = upd(RI(op), pit(tp), true)
  gset PX(op) = upd(PX(op), pit(tp), old(np(op, req)))
  ensures [pending] K4KEEP(op)
  inv K2a(op) && K2b(op) && K2c(op) && K5(op) && QV(op)
  inv KU(op)
  inv K4KEEP(op) && GROWU(op)
  inv forall("m:packrat.treeMarker, e", imp(has(op.partials, m) && has(op.memo, mke(m, e)), each(op.partials[m], j, imp(!(m == req && j == old(np(op, req))), PU(op)[tgt(op.partials[m][j], e)] != 0))), pats(has(op.partials, m), has(op.memo, mke(m, e))))
  inv imp(op.nonterms[req.idx], has(op.partials, req) && len(op.partials[req]) == old(np(op, req)) + 1 && op.partials[req][old(np(op, req))] == tp)
  inv each(op.markers[req], j, imp(j < iter, PU(op)[tgt(tp, op.markers[req][j].end)] != 0))
  ensures [grow] GROWM(op) && SAMES(op)
  ensures [inv] PINF(op) && PLIST(op)
  ensures [memo] PMEM(op)
  ensures [agenda] PAG(op)
  inv PINF(op) && PMEM(op) && PLIST(op)
  inv GROWM(op) && SAMES(op)
  inv PAG(op)
func packrat.(*prOp).addProds(op, root)
  use dnPdef
  prop C10 C11
  view g
  group pk
  requires PINF(op) && PMEM(op) && PLIST(op) && PAG(op) && 0 <= root.idx && root.idx < slen(op.set) && 0 <= root.start && root.start <= nin(0)
  mod op.set.symb2str, op.stack, entries(op.memo), entries(op.markers), entries(op.partials), entries(op.queued), elemsof("packrat.treeDef", a, true), elemsof("packrat.treePartial", a, true), PU(op), MX(op), RI(op), PX(op)
  allocs umade
  requires KI(op) && KU(op)
  ensures [items] K2a(op)
  ensures [partials] K2b(op)
  ensures [terminals] K2c(op)
  ensures [pairs] K3(op)
  ensures [trees] K5(op) && QV(op)
  ensures [updaters] KU(op)
  ensures [done] GROWU(op) && GROWR(op) && GROWQ(op) && GROWP(op)
  ensures [queued] QNEW(op)
  ensures [pending] K4KEEP(op)
  ensures [asked] has(op.queued, root)
  inv KI(op)
  inv KU(op)
  inv K4KEEP(op) && GROWU(op) && GROWR(op) && GROWQ(op) && GROWP(op)
  inv has(op.queued, root)
  inv QNEWX(op, root)
  inv forall("k", imp(0 <= k && k < vitspos(it), bok(op, root.idx, root.start, k)), gpl(GR, sn(op.set, root.idx), k))
  ensures [grow] GROWM(op) && SAMES(op)
  ensures [inv] PINF(op) && PLIST(op)
  ensures [memo] PMEM(op)
  ensures [agenda] PAG(op)
  local it *parlex.ProductionsIterator
  local prods parlex.Productions
  inv PINF(op) && PMEM(op) && PLIST(op)
  inv GROWM(op) && SAMES(op)
  inv PAG(op)
  inv fresh(it)
  inv vitsok(it) && vitspos(it) <= gnp(GR, sn(op.set, root.idx)) && it.Productions == prods
func packrat.(*updater).update(u, op)
  use dnPdef
  prop C10 C11
  view g
  requires PINF(op) && PMEM(op) && PLIST(op) && PAG(op) && u != nil && umade(u)
  mod op.set.symb2str, op.stack, entries(op.memo), entries(op.markers), entries(op.partials), entries(op.queued), elemsof("packrat.treeDef", a, true), elemsof("packrat.treePartial", a, true), PU(op), MX(op), RI(op), PX(op)
  allocs umade
  requires KI(op) && KU(op)
  ensures [items] K2a(op)
  ensures [partials] K2b(op)
  ensures [terminals] K2c(op)
  ensures [pairs] K3(op)
  ensures [trees] K5(op) && QV(op)
  ensures [updaters] KU(op)
  ensures [done] GROWU(op) && GROWR(op) && GROWQ(op) && GROWP(op)
  ensures [queued] QNEW(op)
  ensures [pending] forall("x:#It", imp(old(K4v(op, x)) || x == utgt(u), K4v(op, x)), PU(op)[x])
  ensures [grow] GROWM(op) && SAMES(op)
  ensures [inv] PINF(op) && PLIST(op)
  ensures [memo] PMEM(op)
  ensures [agenda] PAG(op)

// ---- the tree -----------------------------------------------------------------
// The nodes of the tree, named when they are made: symbol, production, span.
fun ksym(*tree.PN) string
fun kprod(*tree.PN) int
fun kpos(*tree.PN) int
fun kend(*tree.PN) int
// the lexemes are terminals
def ALLT = forall("x", imp(0 <= x && x < nin(0), gnp(GR, inp(x)) < 0), inp(x))
def KNODE = forall("q:*tree.PN", imp(isres(q), isLx(q.Lexeme) && asLx(q.Lexeme) != nil && asLx(q.Lexeme).K != nil && symstr(asLx(q.Lexeme).K) == ksym(q)), live(q))
def kleaf(q) = len(q.C) == 0 && 0 <= kpos(q) && kpos(q) < nin(0) && kend(q) == kpos(q) + 1 && inp(kpos(q)) == ksym(q) && asLx(q.Lexeme).V == inval(kpos(q)) && asLx(q.Lexeme).L == inl(kpos(q)) && asLx(q.Lexeme).C == inc(kpos(q))
def KLEAF = forall("q:*tree.PN", imp(isres(q) && gnp(GR, ksym(q)) < 0, kleaf(q)), live(q))
def KINNER = forall("q:*tree.PN", imp(isres(q) && gnp(GR, ksym(q)) >= 0, 0 <= kprod(q) && kprod(q) < gnp(GR, ksym(q)) && len(q.C) == gpl(GR, ksym(q), kprod(q))), live(q))
def KKIDS = forall("q:*tree.PN", imp(isres(q), fresh(q.C) && each(q.C, j, isres(q.C[j]) && q.C[j].P == q && ksym(q.C[j]) == gps(GR, ksym(q), kprod(q), j))), live(q))
def KSPAN0 = forall("q:*tree.PN", imp(isres(q) && gnp(GR, ksym(q)) >= 0, ite(len(q.C) == 0, kend(q) == kpos(q), kpos(q.C[0]) == kpos(q) && kend(q.C[len(q.C)-1]) == kend(q))), live(q))
def KSPAN = forall("q:*tree.PN", imp(isres(q), each(q.C, j, each(q.C, k, imp(k == j + 1, kpos(q.C[k]) == kend(q.C[j]))))), live(q))
def KTREE = KNODE && KLEAF && KINNER && KKIDS && KSPAN0 && KSPAN
def TOK(lxms, s) = GR != nil && GWF(GR) && s != nil && okset(s) && INJ(s) && ALLSYM(GR, s) && wt(lxms) && len(lxms) == nin(0) && each(lxms, p, lexof(lxms[p], s, p)) && ALLT
func packrat.(*treeDef).toPN(td, lxms, memo, set) pn
  prop C10 C11
  view g
  requires td != nil && ventry(memo, set, td) && VM(memo, set) && TOK(lxms, set) && INV && RB
  allocs live
  gset live(pn) = true
  ghostdef [pn] rank(pn) == pn && ksym(pn) == sn(set, td.idx) && kpos(pn) == td.start && kend(pn) == td.end && kprod(pn) == td.priority
  ensures [fresh] fresh(pn) && live(pn) && pn.P == nil
  ensures [names] ksym(pn) == sn(set, td.idx) && kpos(pn) == td.start && kend(pn) == td.end && kprod(pn) == td.priority
  ensures [kinds] KNODE
  ensures [leaves] KLEAF
  ensures [productions] KINNER
  ensures [children] KKIDS
  ensures [ends] KSPAN0
  ensures [spans] KSPAN
  ensures [tree] INV && RB
  local pn *tree.PN
  local lx *lexeme.Lexeme
  inv KTREE
  inv INV && RB
  inv !live(pn) && pn.P == nil && isLx(pn.Lexeme) && asLx(pn.Lexeme) == lx
  inv forall("n:*tree.PN", imp(live(n), arr(n.C) != arr(pn.C)), n.C)
  inv each(pn.C, i, imp(i < iter, pn.C[i] != nil && isres(pn.C[i]) && pn.C[i].P == pn && pn.C[i] > pn && rank(pn.C[i]) == pn.C[i] && ksym(pn.C[i]) == gps(GR, sn(set, td.idx), td.priority, i)))
  inv each(pn.C, i, imp(i < iter, kpos(pn.C[i]) == td.children[i].start && kend(pn.C[i]) == td.children[i].end))
  inv each(pn.C, i, each(pn.C, j, imp(i < j && j < iter, pn.C[i] < pn.C[j])))

func packrat.(*Packrat).Parse(p, lexemes) r
  prop C10 C11
  view g
  requires p != nil && p.Grammar == GR && GR != nil && wt(GR) && GWF(GR) && LEXIN(lexemes) && INV && RB
  requires forall("u:*packrat.updater", !umade(u), umade(u))
  use term comp
  mod elemsof("packrat.treeDef", a, true), elemsof("packrat.treePartial", a, true)
  born [packrat.prOp] forall("x:#It", !RI(obj)[x] && PU(obj)[x] == 0, RI(obj)[x], PU(obj)[x])
  ensures [complete] imp(r == nil && gnt(GR) > 0, !der(GR, gnts(GR, 0), 0, nin(0)))
  inv KI(op)
  inv KU(op)
  inv K4(op)
  inv QB(op)
  inv has(op.queued, mark(sidx(op.set, gnts(GR, 0)), 0))
  inv imp(op.stack == nil, closedP(op.set, slen(op.set), RI(op), dom(op.memo), dom(op.queued)))
  allocs live umade
  ensures [derives] imp(r != nil, gnt(GR) > 0 && der(GR, gnts(GR, 0), 0, nin(0)))
  ensures [root] imp(r != nil, isPN(r) && rr(r) != nil && isres(rr(r)) && rr(r).P == nil && ksym(rr(r)) == gnts(GR, 0))
  ensures [whole] imp(r != nil, kpos(rr(r)) == 0 && kend(rr(r)) == nin(0))
  ensures [kinds] KNODE
  ensures [leaves] KLEAF
  ensures [productions] KINNER
  ensures [children] KKIDS
  ensures [ends] KSPAN0
  ensures [spans] KSPAN
  ensures [tree] INV && RB
  local op *packrat.prOp
  local nts []parlex.Symbol
  inv POP(op) && PLX(op)
  inv fresh(op.nonterms) && each(op.nonterms, i, imp(op.nonterms[i], gnp(GR, sn(op.set, i)) >= 0))
  inv forall("k", imp(0 <= k && k < iter, op.nonterms[sidx(op.set, gnts(GR, k))]), gnts(GR, k))
  inv PINF(op) && PMEM(op) && PLIST(op)
  inv PAG(op)
