// ---- C01: running a pipeline ---------------------------------------------
// The stages are unknown code. Each call is an event in the ghost log; what it
// returns is a function of the log before the call and its arguments.
fun lexres(#Log, parlex.Lexer, string) []parlex.Lexeme
fun lexcont(#Log, parlex.Lexer, string) #(Array Int Iface)
fun parseres(#Log, parlex.Parser, []parlex.Lexeme, #(Array Int Iface)) parlex.ParseNode
fun redres(#Log, parlex.Reducer, parlex.ParseNode) parlex.ParseNode

iface parlex.Lexer.Lex(l, s) r
  because parlex.Lexer: may do anything but change the caller's list of reducers
  event Lex(l, s)
  mod everything
  ensures r == lexres(old(log), l, s) && contents(r) == lexcont(old(log), l, s)
  ensures hp("[]parlex.Reducer") == old(hp("[]parlex.Reducer"))
iface parlex.Parser.Parse(p, lxs) n
  because parlex.Parser: may do anything but change the caller's list of reducers
  event Parse(p, lxs, contents(lxs))
  mod everything
  ensures n == parseres(old(log), p, lxs, old(contents(lxs)))
  ensures hp("[]parlex.Reducer") == old(hp("[]parlex.Reducer"))
iface parlex.Reducer.Reduce(r, node) n
  because parlex.Reducer: may do anything but change the caller's list of reducers
  event Reduce(r, node)
  mod everything
  ensures n == redres(old(log), r, node)
  ensures hp("[]parlex.Reducer") == old(hp("[]parlex.Reducer"))

func parlex.LexErrors(lexemes) errs
  prop C01
  rec kept(i, prev) over lexemes = 0 ; ite(impl(lexemes[i], "parlex.LexError"), prev + 1, prev)
  ensures [len] len(errs) == kept[len(lexemes)]
  ensures [list] each(lexemes, i, imp(impl(lexemes[i], "parlex.LexError"), errs[kept[i]] == lexemes[i]))
  ensures [none] iff(len(errs) == 0, each(lexemes, i, !impl(lexemes[i], "parlex.LexError")))
  ensures [first] each(lexemes, k, imp(impl(lexemes[k], "parlex.LexError") && each(lexemes, j, imp(j < k, !impl(lexemes[j], "parlex.LexError"))), errs[0] == lexemes[k]))
  ensures [new] errs == nil || fresh(errs)
  local errs []parlex.LexError phi
  inv len(errs) == kept[iter] && kept[iter] >= 0 && (errs == nil || fresh(errs))
  inv each(lexemes, i, imp(i < iter, 0 <= kept[i] && kept[i] <= kept[i+1] && kept[i+1] <= kept[iter]))
  inv each(lexemes, i, imp(i < iter && impl(lexemes[i], "parlex.LexError"), kept[i] + 1 == kept[i+1] && errs[kept[i]] == lexemes[i]))
  inv iff(len(errs) == 0, each(lexemes, i, imp(i < iter, !impl(lexemes[i], "parlex.LexError"))))
  inv each(lexemes, k, imp(k < iter && impl(lexemes[k], "parlex.LexError") && each(lexemes, j, imp(j < k, !impl(lexemes[j], "parlex.LexError"))), errs[0] == lexemes[k]))

// the log and the node after the first i reducers of the list a at o
fun redlog(#Log, parlex.ParseNode, #(Array Int Iface), int, int) #Log
fun rednode(#Log, parlex.ParseNode, #(Array Int Iface), int, int) parlex.ParseNode
axiom redlog0: forall("l:#Log, n:parlex.ParseNode, a:#(Array Int Iface), o", redlog(l, n, a, o, 0) == l, redlog(l, n, a, o, 0))
axiom rednode0: forall("l:#Log, n:parlex.ParseNode, a:#(Array Int Iface), o", rednode(l, n, a, o, 0) == n, rednode(l, n, a, o, 0))
axiom redlogS: forall("l:#Log, n:parlex.ParseNode, a:#(Array Int Iface), o, i", imp(i >= 0, redlog(l, n, a, o, i+1) == ite(cast(a[o+i], "parlex.Reducer") == nil, redlog(l, n, a, o, i), ev("Reduce", redlog(l, n, a, o, i), a[o+i], rednode(l, n, a, o, i)))), redlog(l, n, a, o, i+1))
axiom rednodeS: forall("l:#Log, n:parlex.ParseNode, a:#(Array Int Iface), o, i", imp(i >= 0, rednode(l, n, a, o, i+1) == ite(cast(a[o+i], "parlex.Reducer") == nil, rednode(l, n, a, o, i), redres(redlog(l, n, a, o, i), a[o+i], rednode(l, n, a, o, i)))), rednode(l, n, a, o, i+1))

def runLex(lexer, input) = lexres(old(log), lexer, input)
def runCont(lexer, input) = lexcont(old(log), lexer, input)
def runErrAt(lexer, input, k) = 0 <= k && k < len(runLex(lexer, input)) && impl(cast(runCont(lexer, input)[off(runLex(lexer, input)) + k], "parlex.Lexeme"), "parlex.LexError")
def runLog1(lexer, input) = ev("Lex", old(log), lexer, input)
def runLog2(lexer, input, parser) = ev("Parse", runLog1(lexer, input), parser, runLex(lexer, input), runCont(lexer, input))
def runNode0(lexer, input, parser) = parseres(runLog1(lexer, input), parser, runLex(lexer, input), runCont(lexer, input))
def runNode(lexer, input, parser, reds, i) = rednode(runLog2(lexer, input, parser), runNode0(lexer, input, parser), old(contents(reds)), off(reds), i)
def runLog(lexer, input, parser, reds, i) = redlog(runLog2(lexer, input, parser), runNode0(lexer, input, parser), old(contents(reds)), off(reds), i)
def runClean(lexer, input) = runLex(lexer, input) != nil && forall("k", !runErrAt(lexer, input, k), lexcont(old(log), lexer, input)[off(runLex(lexer, input)) + k])
def strErr(s) = mk(cast(s, "parlex.strErr"), "parlex.strErr")

func parlex.Run(input, lexer, parser, reducers) node, err
  prop C01
  requires lexer != nil && parser != nil
  mod everything
  ensures [nilonerror] imp(err != nil, node == nil)
  ensures [couldnotlex] imp(runLex(lexer, input) == nil, err == strErr("Could Not Lex") && log == runLog1(lexer, input))
  ensures [firsterror] imp(runLex(lexer, input) != nil, forall("k", imp(runErrAt(lexer, input, k) && forall("j", imp(0 <= j && j < k, !runErrAt(lexer, input, j)), runCont(lexer, input)[off(runLex(lexer, input)) + j]), err == runCont(lexer, input)[off(runLex(lexer, input)) + k] && log == runLog1(lexer, input)), runCont(lexer, input)[off(runLex(lexer, input)) + k]))
  ensures [couldnotparse] imp(runClean(lexer, input) && runNode0(lexer, input, parser) == nil, err == strErr("Could Not Parse") && log == runLog2(lexer, input, parser))
  ensures [couldnotreduce] imp(runClean(lexer, input) && runNode0(lexer, input, parser) != nil, forall("i", imp(0 <= i && i < len(reducers) && runNode(lexer, input, parser, reducers, i+1) == nil && forall("j", imp(0 <= j && j < i, runNode(lexer, input, parser, reducers, j+1) != nil), runNode(lexer, input, parser, reducers, j+1)), err == strErr("Could Not Reduce") && log == runLog(lexer, input, parser, reducers, i+1)), runNode(lexer, input, parser, reducers, i+1)))
  ensures [result] imp(runClean(lexer, input) && runNode0(lexer, input, parser) != nil && forall("j", imp(0 <= j && j < len(reducers), runNode(lexer, input, parser, reducers, j+1) != nil), runNode(lexer, input, parser, reducers, j+1)), err == nil && node == runNode(lexer, input, parser, reducers, len(reducers)) && log == runLog(lexer, input, parser, reducers, len(reducers)))
  local node parlex.ParseNode phi
  inv hp("[]parlex.Reducer") == old(hp("[]parlex.Reducer"))
  inv log == runLog(lexer, input, parser, reducers, iter) && iter <= len(reducers)
  inv node == runNode(lexer, input, parser, reducers, iter) && node != nil
  inv forall("j", imp(0 <= j && j < iter, runNode(lexer, input, parser, reducers, j+1) != nil), runNode(lexer, input, parser, reducers, j+1))

func parlex.New(lexer, parser, reducers) r
  prop C01
  ensures [fresh] fresh(r)
  ensures [stages] r.lexer == lexer && r.parser == parser && r.reducers == reducers

func parlex.(*Runner).Run(r, input) node, err
  prop C01
  requires r != nil && r.lexer != nil && r.parser != nil
  mod everything
  like parlex.Run : input=input, lexer=old(r.lexer), parser=old(r.parser), reducers=old(r.reducers), node=node, err=err
