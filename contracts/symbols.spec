// objects told apart by type in quantified invariants
track setsymbol.Set setsymbol.Symbol setsymbol.Production setsymbol.Productions
// ---- C02: symbol sets --------------------------------------------------
// the string of a symbol of the two other implementations
axiom ssym: forall("s:string", symstr(mk(cast(s, "stringsymbol.Symbol"), "stringsymbol.Symbol")) == s, mk(cast(s, "stringsymbol.Symbol"), "stringsymbol.Symbol"))

// setstr(s, i): the string that index i of set s gets when it is added, for
// good; nothing else defines it, so a set in which LIST holds has never changed
fun setstr(*setsymbol.Set, int) string

// a set that New made; its table and its list are inverse to each other
def okset(s) = s.str2sym != nil
def listok(s) = forall("i", imp(0 <= i && i < len(s.symb2str), s.symb2str[i] == setstr(s, i) && has(s.str2sym, s.symb2str[i]) && s.str2sym[s.symb2str[i]] == i), s.symb2str[i])
def tableok(s) = forall("k:string", imp(has(s.str2sym, k), 0 <= s.str2sym[k] && s.str2sym[k] < len(s.symb2str) && s.symb2str[s.str2sym[k]] == k && setstr(s, s.str2sym[k]) == k), has(s.str2sym, k))
// the same, found from the rigid name of a string
def LISTT = forall("s:*setsymbol.Set, i", imp(okset(s) && 0 <= i && i < len(s.symb2str), s.symb2str[i] == setstr(s, i) && has(s.str2sym, s.symb2str[i]) && s.str2sym[s.symb2str[i]] == i), pats(setstr(s, i), s.symb2str))
def LIST = forall("s:*setsymbol.Set", imp(okset(s), listok(s)), s.symb2str)
def TABLE = forall("s:*setsymbol.Set", imp(okset(s), tableok(s)), s.str2sym)
def SSEP = forall("s:*setsymbol.Set, t:*setsymbol.Set", imp(okset(s) && okset(t) && s != t, s.str2sym != t.str2sym && (arr(s.symb2str) == 0 || arr(s.symb2str) != arr(t.symb2str))), pats(s.str2sym, t.str2sym), pats(s.symb2str, t.symb2str))
// every symbol of a set has an index of that set, and its string
def SYMS = forall("q:*setsymbol.Symbol", imp(q.set != nil, okset(q.set) && 0 <= q.val && q.val < len(q.set.symb2str) && symstr(mk(q)) == setstr(q.set, q.val)), q.set, q.val)
def SINV = LIST && TABLE && SSEP && SYMS
// no set loses a string (LIST before and after: nor changes one)
def GROW = forall("t:*setsymbol.Set", imp(!fresh(t) && old(okset(t)), okset(t) && len(t.symb2str) >= old(len(t.symb2str))), t.symb2str)
def PLACE(s) = s.str2sym == old(s.str2sym) && (arr(s.symb2str) == old(arr(s.symb2str)) || fresh(s.symb2str))
def symarg(y) = y != nil && imp(is(y, "*setsymbol.Symbol"), as(y, "*setsymbol.Symbol") != nil && as(y, "*setsymbol.Symbol").set != nil)

func setsymbol.New() s
  prop C02
  requires SINV
  ensures [empty] fresh(s) && okset(s) && len(s.symb2str) == 0
  ensures [inv] SINV
  ensures [nosymbols] forall("q:*setsymbol.Symbol", q.set != s, q.set)
  ensures [stable] GROW

func setsymbol.(*Set).Size(s) n
  prop C02
  requires s != nil
  ensures n == len(s.symb2str)

func setsymbol.(*Set).ByIdx(s, idx) r
  prop C02
  requires s != nil && okset(s) && SINV
  ghostdef [r] symstr(mk(r)) == s.symb2str[idx]
  ensures [absent] (r == nil) == !(0 <= idx && idx < len(s.symb2str))
  ensures [symbol] imp(r != nil, fresh(r) && r.set == s && r.val == idx)
  ensures [string] imp(r != nil, symstr(mk(r)) == s.symb2str[idx])
  ensures [inv] SINV

func setsymbol.(*Set).Idx(s, symbol) i
  prop C02
  requires s != nil && okset(s) && SINV && symarg(symbol)
  ensures [present] imp(has(s.str2sym, symstr(symbol)), i == s.str2sym[symstr(symbol)])
  ensures [absent] imp(!has(s.str2sym, symstr(symbol)), i == -1)

func setsymbol.(*Set).Str(s, str) r
  prop C02
  requires s != nil && okset(s) && SINV
  mod s.symb2str, elems(s.symb2str), entries(s.str2sym)
  ghostdef [r] symstr(mk(r)) == str
  stamp [len(s.symb2str) == old(len(s.symb2str)) + 1] setstr(s, old(len(s.symb2str))) == str
  ensures [symbol] fresh(r) && r.set == s && 0 <= r.val && r.val < len(s.symb2str) && s.symb2str[r.val] == str && symstr(mk(r)) == str
  ensures [known] imp(old(has(s.str2sym, str)), r.val == old(s.str2sym[str]) && len(s.symb2str) == old(len(s.symb2str)))
  ensures [new] imp(!old(has(s.str2sym, str)), r.val == old(len(s.symb2str)) && len(s.symb2str) == old(len(s.symb2str)) + 1)
  ensures [table] okset(s) && s.str2sym == old(s.str2sym)
  ensures [inv] SINV
  ensures [stable] GROW
  ensures [place] PLACE(s)

func setsymbol.(*Set).Symbol(s, symbol) r
  prop C02
  requires s != nil && okset(s) && SINV && imp(symbol != nil, symarg(symbol))
  mod s.symb2str, elems(s.symb2str), entries(s.str2sym)
  ensures [nil] (r == nil) == (symbol == nil)
  ensures [symbol] imp(symbol != nil, r.set == s && 0 <= r.val && r.val < len(s.symb2str) && s.symb2str[r.val] == symstr(symbol) && symstr(mk(r)) == symstr(symbol))
  ensures [known] imp(symbol != nil && old(has(s.str2sym, symstr(symbol))), r.val == old(s.str2sym[symstr(symbol)]) && len(s.symb2str) == old(len(s.symb2str)))
  ensures [new] imp(symbol != nil && !old(has(s.str2sym, symstr(symbol))), r.val == old(len(s.symb2str)) && len(s.symb2str) == old(len(s.symb2str)) + 1)
  ensures [nothing] imp(symbol == nil, s.symb2str == old(s.symb2str))
  ensures [inv] SINV
  ensures [stable] GROW
  ensures [place] PLACE(s)

func setsymbol.(*Set).Has(s, str) b
  prop C02
  requires s != nil && okset(s)
  ensures b == has(s.str2sym, str)

func setsymbol.(*Set).HasSymbol(s, symbol) r
  prop C02
  requires s != nil && okset(s) && SINV && symarg(symbol)
  ghostdef [ite(is(symbol, "*setsymbol.Symbol") && as(symbol, "*setsymbol.Symbol") == r, nil, r)] symstr(mk(r)) == symstr(symbol)
  ensures [absent] (r == nil) == !has(s.str2sym, symstr(symbol))
  ensures [symbol] imp(r != nil, r.set == s && r.val == s.str2sym[symstr(symbol)])
  ensures [string] imp(r != nil, symstr(mk(r)) == symstr(symbol))
  ensures [inv] SINV

func setsymbol.(*Symbol).String(q) r
  prop C02
  requires q != nil && q.set != nil && SINV
  ensures [string] r == symstr(mk(q)) && r == q.set.symb2str[q.val]

func setsymbol.(*Symbol).Idx(q) i
  prop C02
  requires q != nil
  ensures i == q.val

func stringsymbol.Symbol.String(s) r
  prop C02 C03
  ensures r == symstr(mk(s)) && r == cast(s, "string")
func stringsymbol.CastSymbol(symbol) s
  prop C03
  requires symbol != nil
  ensures [string] cast(s, "string") == symstr(symbol) && symstr(mk(s)) == symstr(symbol)
