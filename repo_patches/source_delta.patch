From c0992caec2db1d0b5d34183ddcf9b5914e6076ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:38 +0000
Subject: [PATCH 01/25] fix: packrat accepted an empty input for every grammar

The zero treeDef's end equals the end of an empty input, so a missing memo
entry looked like an accepted one.
---
 parser/packrat/packrat.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/packrat/packrat.go b/parser/packrat/packrat.go
index 45965d9..622ae27 100644
--- a/parser/packrat/packrat.go
+++ b/parser/packrat/packrat.go
@@ -108,8 +108,8 @@ func (p *Packrat) Parse(lexemes []parlex.Lexeme) parlex.ParseNode {
 	var accept treeKey
 	accept.idx = start.idx
 	accept.end = len(lexemes)
-	accepted := op.memo[accept]
-	if accepted.end != accept.end {
+	accepted, ok := op.memo[accept]
+	if !ok {
 		return nil
 	}
 	return accepted.toPN(op.lxms, op.memo, op.set)
-- 
2.43.0


From e2929d45e4c4f074428441efb8af83dc28c1c17e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:26 +0000
Subject: [PATCH 02/25] fix: packrat extended a production with its own root
 for lexemes named like a nonterminal

update() checked the marker of the node being built instead of a required
terminal, so a lexeme whose kind is a nonterminal name could complete a
production it does not match, or panic in comparePriority. Terminals are
already matched by addPartial.
---
 parser/packrat/packrat.go | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/parser/packrat/packrat.go b/parser/packrat/packrat.go
index 622ae27..993ed34 100644
--- a/parser/packrat/packrat.go
+++ b/parser/packrat/packrat.go
@@ -166,14 +166,6 @@ func (u *updater) update(op *prOp) {
 		start: extended.end,
 	}
 
-	if td := op.checkNonTerminal(extended.treeMarker); td != nil {
-		(&updater{
-			base:      extended,
-			extension: td.treeKey,
-		}).update(op)
-		return
-	}
-
 	op.addPartial(extended, requires)
 }
 
-- 
2.43.0


From 3bdd2dbc4377a6b1271eedbff1c0eeb519d7be59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:17 +0000
Subject: [PATCH 03/25] fix: IsLeftRecursive missed left recursion hidden
 behind symbols that can be empty

A symbol checked before was always reported as not nullable, and only a direct
empty production made a symbol nullable. The top down parser then accepted
such grammars and overflowed the stack.
---
 leftrecursion.go | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/leftrecursion.go b/leftrecursion.go
index f3d3d95..a03f7ad 100644
--- a/leftrecursion.go
+++ b/leftrecursion.go
@@ -18,18 +18,18 @@ func IsLeftRecursive(grammar Grammar) bool {
 
 type lrOp struct {
 	Grammar
-	checked, stack map[string]bool
+	checked, stack map[string]bool // checked maps a finished symbol to if it can be empty
 }
 
 func (op *lrOp) check(s Symbol) (isLR, checkNext bool) {
-	if op.checked[s.String()] {
-		return false, false
+	if nullable, ok := op.checked[s.String()]; ok {
+		return false, nullable
 	}
 
 	prods := op.Productions(s)
 	if prods == nil {
 		// s is a terminal
-		op.checked[s.String()] = true // add to checked to avoid the lookup in the future
+		op.checked[s.String()] = false // add to checked to avoid the lookup in the future
 		return false, false
 	}
 
@@ -40,19 +40,18 @@ func (op *lrOp) check(s Symbol) (isLR, checkNext bool) {
 
 	retCheckNext := false
 	for i := prods.Iter(); i.Next(); {
-		if i.Production.Symbols() == 0 {
-			retCheckNext = true
-			continue
-		}
-		for j, isLR, checkNext := i.Iter(), false, true; j.Next() && checkNext; {
+		isLR, checkNext := false, true
+		for j := i.Iter(); checkNext && j.Next(); {
 			isLR, checkNext = op.check(j.Symbol)
 			if isLR {
 				return true, false
 			}
 		}
+		// every symbol can be empty, so s can be empty
+		retCheckNext = retCheckNext || checkNext
 	}
 
-	op.checked[s.String()] = true
+	op.checked[s.String()] = retCheckNext
 	op.stack[s.String()] = false
 	return false, retCheckNext
 }
-- 
2.43.0


From d88d730da27368a103f71a539b4aaf4dccc6438e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:12 +0000
Subject: [PATCH 04/25] fix: RemoveLeftRecursion looped forever and changed the
 language

- symbols already processed were expanded with their original, still left
  recursive productions, so B -> A z after A -> A x | y never returned
- productions like A -> A A b lost every leading A instead of the first
- the new symbol's name could collide with a symbol of the grammar
- indexes of one symbol set were used in the productions of another
- a nonterminal with only left recursive productions turned into a terminal
---
 grammar/left_recursion.go | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/grammar/left_recursion.go b/grammar/left_recursion.go
index b2e8278..ba99194 100644
--- a/grammar/left_recursion.go
+++ b/grammar/left_recursion.go
@@ -18,12 +18,14 @@ type lrOp struct {
 // without.
 func RemoveLeftRecursion(grammar parlex.Grammar) *Grammar {
 	nts := grammar.NonTerminals()
+	out := Empty()
 	op := &lrOp{
 		in:   grammar,
-		out:  Empty(),
+		out:  out,
 		done: make([]bool, len(nts)),
-		set:  setsymbol.New(),
+		set:  out.set, // indexes in out.productions are indexes in this set
 	}
+	op.set.LoadGrammar(grammar)
 	for _, s := range nts {
 		op.cur = op.set.Symbol(s)
 		op.hasDirect = false
@@ -56,7 +58,7 @@ func (op *lrOp) safeAdd(prod *setsymbol.Production) {
 		return
 	}
 
-	for i := op.in.Productions(first).Iter(); i.Next(); {
+	for i := op.out.Productions(first).Iter(); i.Next(); {
 		newProd := op.set.Production()
 		for lead := i.Production.Iter(); lead.Next(); {
 			newProd.AddSymbols(lead.Symbol)
@@ -78,23 +80,25 @@ func (op *lrOp) getTail(prod *setsymbol.Production) *setsymbol.Production {
 }
 
 func (op *lrOp) removeDirectLeftRecursion() {
-	newSym := op.set.Str(op.cur.String() + "'")
+	name := op.cur.String() + "'"
+	for op.set.Has(name) {
+		name += "'"
+	}
+	newSym := op.set.Str(name)
 	nsIdx := newSym.Idx()
 	if nsIdx >= len(op.out.productions) || op.out.productions[nsIdx] == nil {
 		op.out.order = append(op.out.order, nsIdx)
 	}
 
 	prods := op.out.productions[op.cur.Idx()]
-	op.out.productions[op.cur.Idx()] = nil
+	op.out.productions[op.cur.Idx()] = op.set.Productions()
 	for i := prods.Iter(); i.Next(); {
 		prod := i.Production.(*setsymbol.Production)
 		if prod.Symbols() == 0 || prod.Symbol(0).(*setsymbol.Symbol).Idx() != op.cur.Idx() {
 			prod.AddSymbols(newSym)
 			op.directAdd(op.cur, prod)
 		} else {
-			for prod.Symbols() > 0 && prod.Symbol(0).(*setsymbol.Symbol).Idx() == op.cur.Idx() {
-				prod = op.getTail(prod)
-			}
+			prod = op.getTail(prod)
 			if prod.Symbols() > 0 {
 				prod.AddSymbols(newSym)
 				op.directAdd(newSym, prod)
-- 
2.43.0


From 7940e80a9910ea4d38092767a5b565c0cce1f7e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:11 +0000
Subject: [PATCH 05/25] fix: Analyze missed and invented firsts, and forgot
 symbols

Firsts of mutually recursive nonterminals were read before they were known; a
symbol that starts with an empty production but cannot be empty let the next
symbol into the firsts; Contains did not know terminals that are never first
and NonTerminal did not know nonterminals that are always empty. Compute the
fixpoint instead.
---
 analyze/analysis.go | 119 ++++++++++++++++++++++++--------------------
 1 file changed, 64 insertions(+), 55 deletions(-)

diff --git a/analyze/analysis.go b/analyze/analysis.go
index 69dd846..114b7eb 100644
--- a/analyze/analysis.go
+++ b/analyze/analysis.go
@@ -11,9 +11,10 @@ type Analytics struct {
 	first2nonterms [][]bool
 	nonterm2firsts [][]int
 	nilInFirst     []bool
+	nullable       []bool
+	nonterms       []bool
 	Terminals      []bool
 	set            *setsymbol.Set
-	done           []bool
 }
 
 // Analyze a grammar. The grammar is embeded so the return value can be used as
@@ -34,73 +35,85 @@ func Analyze(grammar parlex.Grammar) *Analytics {
 		first2nonterms: make([][]bool, ln),
 		nonterm2firsts: make([][]int, ln),
 		nilInFirst:     make([]bool, ln),
+		nullable:       make([]bool, ln),
+		nonterms:       make([]bool, ln),
 		Terminals:      make([]bool, ln),
-		done:           make([]bool, ln),
 	}
 
-	// find firsts by populating nonterm2firsts
-	for _, symbol := range a.NonTerminals() {
-		a.firsts(a.set.Symbol(symbol))
+	nonterms := a.NonTerminals()
+	for _, symbol := range nonterms {
+		a.nonterms[a.set.Symbol(symbol).Idx()] = true
+	}
+	for idx, isNonterm := range a.nonterms {
+		a.Terminals[idx] = !isNonterm
 	}
 
-	// populate first2nonterms from nonterm2firsts
-	for symbol, firsts := range a.nonterm2firsts {
-		for _, first := range firsts {
-			var nonterms []bool
-			nonterms = a.first2nonterms[first]
-			if nonterms == nil {
-				nonterms = make([]bool, ln)
-				a.first2nonterms[first] = nonterms
+	// the firsts of a symbol can depend on each other, so repeat until there is
+	// nothing more to learn
+	for changed := true; changed; {
+		changed = false
+		for _, symbol := range nonterms {
+			if a.firsts(a.set.Symbol(symbol)) {
+				changed = true
 			}
-			nonterms[symbol] = true
 		}
 	}
 
 	return a
 }
 
-func (a *Analytics) firsts(s *setsymbol.Symbol) ([]int, bool) {
+// firsts adds everything that is currently known to be in the firsts of s. It
+// returns true if that is more than was known before.
+func (a *Analytics) firsts(s *setsymbol.Symbol) bool {
 	sIdx := s.Idx()
-	if a.done[sIdx] {
-		return a.nonterm2firsts[sIdx], a.nilInFirst[sIdx]
-	}
-	a.done[sIdx] = true
-
-	var fs []int
-	nilInFirst := false
+	changed := false
 	for i := a.Productions(s).Iter(); i.Next(); {
-		if i.Symbols() == 0 {
-			nilInFirst = true
-			continue
-		}
-		var firsts []int
-		for j, doNext := i.Iter(), true; j.Next() && doNext; {
-			symbol := a.set.Symbol(j.Symbol)
-			if a.Productions(symbol) == nil {
-				doNext = false
-				fs = append(fs, symbol.Idx())
-				a.Terminals[symbol.Idx()] = true
-			} else {
-				firsts, doNext = a.firsts(symbol)
-				nilInFirst = nilInFirst || doNext
-				fs = append(fs, firsts...)
+		nilInFirst, nullable := i.Symbols() == 0, true
+		for j := i.Iter(); nullable && j.Next(); {
+			idx := a.set.Symbol(j.Symbol).Idx()
+			if a.Terminals[idx] && a.addFirst(sIdx, idx) {
+				changed = true
+			}
+			for _, first := range a.nonterm2firsts[idx] {
+				if a.addFirst(sIdx, first) {
+					changed = true
+				}
+			}
+			if j.Idx == 0 {
+				nilInFirst = a.nilInFirst[idx]
 			}
+			nullable = a.nullable[idx]
+		}
+		if nilInFirst && !a.nilInFirst[sIdx] {
+			a.nilInFirst[sIdx] = true
+			changed = true
+		}
+		if nullable && !a.nullable[sIdx] {
+			a.nullable[sIdx] = true
+			changed = true
 		}
 	}
-	a.nonterm2firsts[sIdx] = fs
-	a.nilInFirst[sIdx] = nilInFirst
-	return fs, nilInFirst
+	return changed
+}
+
+// addFirst records that first is in the firsts of symbol and returns true if
+// that was not known before.
+func (a *Analytics) addFirst(symbol, first int) bool {
+	if a.first2nonterms[first] == nil {
+		a.first2nonterms[first] = make([]bool, len(a.nonterms))
+	}
+	if a.first2nonterms[first][symbol] {
+		return false
+	}
+	a.first2nonterms[first][symbol] = true
+	a.nonterm2firsts[symbol] = append(a.nonterm2firsts[symbol], first)
+	return true
 }
 
 // Contains returns true if the grammar contains the symbol as either a terminal
 // or non-terminal.
 func (a *Analytics) Contains(symbol parlex.Symbol) bool {
-	s := a.set.HasSymbol(symbol)
-	if s == nil {
-		return false
-	}
-	idx := s.Idx()
-	return a.nonterm2firsts[idx] != nil || a.Terminals[idx]
+	return a.set.HasSymbol(symbol) != nil
 }
 
 // NonTerminal returns true if the symbol is a non-terminal in the grammar.
@@ -109,11 +122,7 @@ func (a *Analytics) NonTerminal(symbol parlex.Symbol) bool {
 	if s == nil {
 		return false
 	}
-	idx := s.Idx()
-	if idx >= len(a.nonterm2firsts) {
-		return false
-	}
-	return a.nonterm2firsts[idx] != nil
+	return a.nonterms[s.Idx()]
 }
 
 // HasFirst returns true if first could be the first symbol in a tree with root
@@ -127,11 +136,11 @@ func (a *Analytics) HasFirst(symbol parlex.Symbol, first parlex.Symbol) bool {
 	if s == nil {
 		return false
 	}
-	nonterms := a.first2nonterms[f.Idx()]
-	if nonterms == nil {
-		return s.Idx() == f.Idx()
+	if s.Idx() == f.Idx() {
+		return true
 	}
-	return nonterms[s.Idx()]
+	nonterms := a.first2nonterms[f.Idx()]
+	return nonterms != nil && nonterms[s.Idx()]
 }
 
 // HasNilInFirst will return true if it possible to reach an empty production
-- 
2.43.0


From 0b9d265be7c692b240c8de02f0a4279359469156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:11 +0000
Subject: [PATCH 06/25] fix: simplelexer.ByPriority never matched any rule

The first candidate was compared with the priority -1, which no rule can beat,
so every input became one lex error.
---
 lexer/simplelexer/lexer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lexer/simplelexer/lexer.go b/lexer/simplelexer/lexer.go
index c019f86..de569db 100644
--- a/lexer/simplelexer/lexer.go
+++ b/lexer/simplelexer/lexer.go
@@ -149,9 +149,9 @@ func (op *lexOp) findNextMatch() (*lexeme.Lexeme, int) {
 
 	// look in next for matches and take the longest one
 	for kind, loc := range op.next {
-		if loc != nil && loc[0] == op.cur {
+		if loc != nil && loc[0] == op.cur && loc[1] > op.cur {
 			p := op.rules[kind].priority
-			if op.compare(loc[1], p, lxEnd, lxP) {
+			if lxP == -1 || op.compare(loc[1], p, lxEnd, lxP) {
 				lx.K = op.set.ByIdx(kind)
 				lx.V = string(op.b[loc[0]:loc[1]])
 				lxEnd = loc[1]
-- 
2.43.0


From 500c3296ef2bface4ab236ec2383859d7b3651c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:11 +0000
Subject: [PATCH 07/25] fix: simplelexer panicked when a rule is added after a
 lex error

Lexing an error interns the error kind, so a rule added later leaves a gap in
the rules, which Lex and String dereferenced.
---
 lexer/simplelexer/construct.go | 4 ++--
 lexer/simplelexer/lexer.go     | 4 +++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/lexer/simplelexer/construct.go b/lexer/simplelexer/construct.go
index 564fa52..5e2254e 100644
--- a/lexer/simplelexer/construct.go
+++ b/lexer/simplelexer/construct.go
@@ -106,8 +106,8 @@ func (l *Lexer) addRule(r *rule) error {
 // make a copy of the lexer.
 func (l *Lexer) String() string {
 	var longest int
-	for _, rule := range l.rules {
-		if ln := parlex.SymLen(l.set.ByIdx(rule.kind)); ln > longest {
+	for _, kind := range l.order {
+		if ln := parlex.SymLen(l.set.ByIdx(kind)); ln > longest {
 			longest = ln
 		}
 	}
diff --git a/lexer/simplelexer/lexer.go b/lexer/simplelexer/lexer.go
index de569db..d0849ba 100644
--- a/lexer/simplelexer/lexer.go
+++ b/lexer/simplelexer/lexer.go
@@ -125,7 +125,9 @@ func (op *lexOp) checkError() {
 func (op *lexOp) populateNext() {
 	op.next = make([][]int, len(op.rules))
 	for kind, r := range op.rules {
-		op.next[kind] = r.re.FindIndex(op.b)
+		if r != nil {
+			op.next[kind] = r.re.FindIndex(op.b)
+		}
 	}
 }
 
-- 
2.43.0


From 4ea97e8ec7fa9565ee88efca1ec22dedf658b4d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:11 +0000
Subject: [PATCH 08/25] fix: simplelexer reported no position for errors and
 lost lines after them

Error lexemes kept the unset position -1:0, and newlines inside an error were
not counted, so every later lexeme was on the wrong line.
---
 lexer/simplelexer/lexer.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/lexer/simplelexer/lexer.go b/lexer/simplelexer/lexer.go
index d0849ba..3ed50ea 100644
--- a/lexer/simplelexer/lexer.go
+++ b/lexer/simplelexer/lexer.go
@@ -65,7 +65,6 @@ type lexOp struct {
 	errFlag  bool
 	errStart int
 	cur      int
-	lines    int
 }
 
 // Lex takes a string and produces a slice of lexemes that can be consumed by a
@@ -118,7 +117,7 @@ func (op *lexOp) checkError() {
 	op.errFlag = false
 	val := string(op.b[op.errStart:op.cur])
 	errKind := op.set.Str(op.Error)
-	lxm := lexeme.New(errKind).Set(val)
+	lxm := lexeme.New(errKind).Set(val).At(op.pos(op.errStart))
 	op.lxs = append(op.lxs, &errLexeme{lxm})
 }
 
@@ -162,10 +161,13 @@ func (op *lexOp) findNextMatch() (*lexeme.Lexeme, int) {
 		}
 	}
 
-	lx.L = op.lines
-	lx.C = strings.LastIndex(string(op.b[:op.cur]), "\n")
-	lx.C = op.cur - lx.C
-	op.lines += strings.Count(lx.V, "\n")
+	lx.At(op.pos(op.cur))
 
 	return lx, lxEnd
 }
+
+// pos returns the line and column of an index in the input
+func (op *lexOp) pos(idx int) (int, int) {
+	before := string(op.b[:idx])
+	return strings.Count(before, "\n"), idx - strings.LastIndex(before, "\n")
+}
-- 
2.43.0


From d47f6015ce717ec20e73f3f227b56363a8eab87c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:25 +0000
Subject: [PATCH 09/25] fix: stacklexer compared match ends relative to
 different offsets

Each pending match is stored relative to where the search for it began, so the
longest match was picked wrongly, empty matches hid longer ones, and matches
were not refreshed after an error.
---
 lexer/stacklexer/lex.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/lexer/stacklexer/lex.go b/lexer/stacklexer/lex.go
index e8f34ab..81e9334 100644
--- a/lexer/stacklexer/lex.go
+++ b/lexer/stacklexer/lex.go
@@ -55,6 +55,7 @@ func (op *lexOp) lex() {
 				if op.cur >= len(op.b) {
 					break
 				}
+				op.updateNext()
 			} else {
 				op.pop(1)
 			}
@@ -108,13 +109,19 @@ func (op *lexOp) populateNext() {
 func (op *lexOp) findNextMatch() (*lexeme.Lexeme, int, *rule) {
 	var r *rule
 	var idx []int
+	end := op.cur
 
 	// look in next for matches and take the longest one
 	for kind, loc := range op.next {
-		if loc != nil && loc[0]+loc[len(loc)-1] == op.cur {
+		if loc == nil {
+			continue
+		}
+		offset := loc[len(loc)-1]
+		if offset+loc[0] == op.cur && offset+loc[1] > op.cur {
 			tr := op.rules[kind]
-			if tr != nil && (r == nil || op.compare(loc[1], tr.priority, idx[1], r.priority)) {
+			if tr != nil && (r == nil || op.compare(offset+loc[1], tr.priority, end, r.priority)) {
 				idx = loc
+				end = offset + loc[1]
 				r = tr
 			}
 		}
@@ -141,7 +148,7 @@ func (op *lexOp) findNextMatch() (*lexeme.Lexeme, int, *rule) {
 		op.handleLineCol(lx, lx.V)
 	}
 
-	return lx, offset + idx[1], r
+	return lx, end, r
 }
 
 func (op *lexOp) handleLineCol(lx *lexeme.Lexeme, str string) {
-- 
2.43.0


From 965ed91e733e98d93aea6216971ca34591734b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:27 +0000
Subject: [PATCH 10/25] fix: stacklexer panicked when a rule pops an empty
 stack

With nothing to pop the lexer stays in the sub-lexer it started in.
---
 lexer/stacklexer/lex.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lexer/stacklexer/lex.go b/lexer/stacklexer/lex.go
index 81e9334..8f722a6 100644
--- a/lexer/stacklexer/lex.go
+++ b/lexer/stacklexer/lex.go
@@ -69,7 +69,7 @@ func (op *lexOp) lex() {
 		if op.cur >= len(op.b) {
 			break
 		}
-		if r != nil && r.pop > 0 {
+		if r != nil && r.pop > 0 && len(op.stack) > 0 {
 			op.pop(r.pop)
 		} else if r != nil && r.push != "" {
 			op.stack = append(op.stack, op.subLexer)
-- 
2.43.0


From d5c2d6933b55aa13e5929e5292336a7acf1f6412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:28 +0000
Subject: [PATCH 11/25] fix: stacklexer put errors on the wrong line and lost
 lines inside them

The line of an error was counted after the lexeme that follows it, its column
was relative to its end, and its newlines were counted too late.
---
 lexer/stacklexer/lex.go | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/lexer/stacklexer/lex.go b/lexer/stacklexer/lex.go
index 8f722a6..d2dd890 100644
--- a/lexer/stacklexer/lex.go
+++ b/lexer/stacklexer/lex.go
@@ -18,8 +18,7 @@ type lexOp struct {
 		start int
 		kind  *setsymbol.Symbol
 	}
-	cur   int
-	lines int
+	cur int
 }
 
 // Lex fulfills parlex.Lexer. It uses the StackLexer to lex a string
@@ -27,7 +26,6 @@ func (l *StackLexer) Lex(str string) []parlex.Lexeme {
 	op := &lexOp{
 		subLexer: l.start,
 		b:        []byte(str),
-		lines:    1,
 		lxs:      make([]parlex.Lexeme, 0),
 	}
 	op.err.kind = l.set.Str(op.Error)
@@ -142,20 +140,18 @@ func (op *lexOp) findNextMatch() (*lexeme.Lexeme, int, *rule) {
 				lx.V += string(op.b[offset+idx[sub.section*2] : offset+idx[sub.section*2+1]])
 			}
 		}
-		op.handleLineCol(lx, string(op.b[offset+idx[0]:offset+idx[1]]))
 	} else {
 		lx.V = string(op.b[offset+idx[0] : offset+idx[1]])
-		op.handleLineCol(lx, lx.V)
 	}
+	lx.At(op.pos(op.cur))
 
 	return lx, end, r
 }
 
-func (op *lexOp) handleLineCol(lx *lexeme.Lexeme, str string) {
-	lx.L = op.lines
-	lx.C = strings.LastIndex(string(op.b[:op.cur]), "\n")
-	lx.C = op.cur - lx.C
-	op.lines += strings.Count(str, "\n")
+// pos returns the line and column of an index in the input
+func (op *lexOp) pos(idx int) (int, int) {
+	before := string(op.b[:idx])
+	return 1 + strings.Count(before, "\n"), idx - strings.LastIndex(before, "\n")
 }
 
 func (op *lexOp) checkError() {
@@ -164,9 +160,7 @@ func (op *lexOp) checkError() {
 	}
 	op.err.flag = false
 	val := string(op.b[op.err.start:op.cur])
-	lx := lexeme.New(op.err.kind).Set(val)
-	op.handleLineCol(lx, lx.V)
-	lx.C -= len(val)
+	lx := lexeme.New(op.err.kind).Set(val).At(op.pos(op.err.start))
 	op.lxs = append(op.lxs, &errLexeme{lx})
 }
 
-- 
2.43.0


From 41c393f3042ea94dde472d15e54a1f7e21ba8f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:49 +0000
Subject: [PATCH 12/25] fix: stacklexer inherited rules in an arbitrary order

Inherited rules were added in the order their kinds were first seen, which
depends on map iteration, rather than in the order they are defined.
---
 lexer/stacklexer/construct.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/lexer/stacklexer/construct.go b/lexer/stacklexer/construct.go
index 0a9f503..d7c4d29 100644
--- a/lexer/stacklexer/construct.go
+++ b/lexer/stacklexer/construct.go
@@ -246,10 +246,8 @@ func (sl *subLexer) addHeir(heir *subLexer, defs map[string]string, done, stack
 	sl.inheirit.by = append(sl.inheirit.by, heir)
 	heir.inheirit.from = append(heir.inheirit.from, sl)
 
-	for _, r := range sl.rules {
-		if r != nil {
-			heir.addRule(*r)
-		}
+	for _, kind := range sl.order {
+		heir.addRule(*sl.rules[kind])
 	}
 	return nil
 }
-- 
2.43.0


From d647073424df571af074f27b188509da140596c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:50 +0000
Subject: [PATCH 13/25] fix: stacklexer.New accepted definitions it could not
 use

Errors found while parsing (a bad regular expression, cyclic inheritance) were
dropped, and a missing sub-lexer only surfaced as a nil pointer in Lex.
---
 lexer/stacklexer/construct.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/lexer/stacklexer/construct.go b/lexer/stacklexer/construct.go
index d7c4d29..2e55376 100644
--- a/lexer/stacklexer/construct.go
+++ b/lexer/stacklexer/construct.go
@@ -77,6 +77,9 @@ func parseSubmatches(str string) []submatch {
 // ErrCyclic will be returned if a stack lexers form a cyclic inheritance
 var ErrCyclic = errors.New("Cyclic Inheritance")
 
+// ErrNoSubLexer will be returned if the definitions hold no sub-lexer
+var ErrNoSubLexer = errors.New("No sub-lexer defined")
+
 var subParserDef = regexp.MustCompile(`==\s*([a-zA-Z_][a-zA-Z_0-9]*)\s*(?:==)?\s*\n`)
 var subParserLine = regexp.MustCompile(`([^\/\s]+)\s*(?:\/((?:[^\/\\]|(?:\\\/?))+)\/\s*(?:\(((?:[^\\\)]|(?:\\[^\n]))*)\))?)?\s*((?:\^+)|(?:[a-zA-Z_][a-zA-Z_0-9]*))?\s*(-?)`)
 
@@ -119,10 +122,24 @@ func New(definitions ...string) (*StackLexer, error) {
 		}
 	}
 
+	if l.start == nil {
+		return nil, ErrNoSubLexer
+	}
+
 	done := make(map[string]bool)
 	stack := make(map[string]bool)
 	for _, sl := range l.lexers {
-		sl.parse(subLexerDefs, done, stack)
+		if err := sl.parse(subLexerDefs, done, stack); err != nil {
+			return nil, err
+		}
+	}
+	for _, sl := range l.lexers {
+		for _, kind := range sl.order {
+			push := sl.rules[kind].push
+			if push != "" && l.lexers[push] == nil {
+				return nil, fmt.Errorf("Undefined sub-lexer: %s", push)
+			}
+		}
 	}
 
 	return l, nil
-- 
2.43.0


From 845682befce67f3fd828fbb2b8028ff5824feba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:52 +0000
Subject: [PATCH 14/25] fix: stacklexer groups did not follow the readme

The quotes of a literal ended up in the value, a literal with a digit in it was
taken as the whole match, and a group that is missing or took no part in the
match could panic.
---
 lexer/stacklexer/construct.go | 14 ++++++++++++--
 lexer/stacklexer/lex.go       |  2 +-
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/lexer/stacklexer/construct.go b/lexer/stacklexer/construct.go
index 2e55376..c7ab43e 100644
--- a/lexer/stacklexer/construct.go
+++ b/lexer/stacklexer/construct.go
@@ -55,7 +55,7 @@ type submatch struct {
 	str     string
 }
 
-var intRe = regexp.MustCompile(`\d+`)
+var intRe = regexp.MustCompile(`^\d+$`)
 
 func parseSubmatches(str string) []submatch {
 	if str == "" {
@@ -68,6 +68,9 @@ func parseSubmatches(str string) []submatch {
 			sec, _ := strconv.Atoi(s)
 			ms[i] = submatch{section: sec}
 		} else {
+			if ln := len(s); ln > 1 && s[0] == '"' && s[ln-1] == '"' {
+				s = s[1 : ln-1]
+			}
 			ms[i] = submatch{section: -1, str: s}
 		}
 	}
@@ -212,6 +215,13 @@ func (sl *subLexer) addMatch(m []string) error {
 		return err
 	}
 
+	submatches := parseSubmatches(m[3])
+	for _, sub := range submatches {
+		if sub.section > re.NumSubexp() {
+			return fmt.Errorf("No group %d in %s", sub.section, m[i])
+		}
+	}
+
 	push := m[4]
 	pop := 0
 	for _, r := range push {
@@ -231,7 +241,7 @@ func (sl *subLexer) addMatch(m []string) error {
 		push:       push,
 		pop:        pop,
 		discard:    m[5] == "-",
-		submatches: parseSubmatches(m[3]),
+		submatches: submatches,
 	}
 	sl.addRule(r)
 	return nil
diff --git a/lexer/stacklexer/lex.go b/lexer/stacklexer/lex.go
index d2dd890..771e74b 100644
--- a/lexer/stacklexer/lex.go
+++ b/lexer/stacklexer/lex.go
@@ -136,7 +136,7 @@ func (op *lexOp) findNextMatch() (*lexeme.Lexeme, int, *rule) {
 		for _, sub := range r.submatches {
 			if sub.section == -1 {
 				lx.V += sub.str
-			} else {
+			} else if idx[sub.section*2] >= 0 {
 				lx.V += string(op.b[offset+idx[sub.section*2] : offset+idx[sub.section*2+1]])
 			}
 		}
-- 
2.43.0


From 7b537b7757ab5dd90fe093f0acdab66274d8246b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:45 +0000
Subject: [PATCH 15/25] fix: Set.ByIdx returned a symbol for indexes outside
 the set

The symbol of an index one past the end, or of a negative index, panics when it
is converted to a string.
---
 symbol/setsymbol/set.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symbol/setsymbol/set.go b/symbol/setsymbol/set.go
index 856a9d9..cad2381 100644
--- a/symbol/setsymbol/set.go
+++ b/symbol/setsymbol/set.go
@@ -25,7 +25,7 @@ func (s *Set) Size() int { return len(s.symb2str) }
 
 // ByIdx gets a symbol by index from the set
 func (s *Set) ByIdx(idx int) *Symbol {
-	if idx > len(s.symb2str) {
+	if idx < 0 || idx >= len(s.symb2str) {
 		return nil
 	}
 	return &Symbol{
-- 
2.43.0


From 55c962df56a1784c28b87b467b8ba841caa07666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:46 +0000
Subject: [PATCH 16/25] fix: PromoteChildValue removed a child for some indexes
 out of bounds

An index below -len(children) was made relative to the end twice.
---
 tree/node_reductions.go | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/tree/node_reductions.go b/tree/node_reductions.go
index 2937334..3afae8f 100644
--- a/tree/node_reductions.go
+++ b/tree/node_reductions.go
@@ -89,14 +89,12 @@ func (p *PN) PromoteSingleChild() bool {
 // is negative, it will find the child relative to the end. If cIdx is out of
 // bounds, no action will be taken.
 func (p *PN) PromoteChildValue(cIdx int) {
-	l := len(p.C)
-	if cIdx < 0 {
-		cIdx = l + cIdx
-	}
-	if cIdx >= 0 && l > cIdx {
-		ch := p.C[cIdx]
-		p.Lexeme = lexeme.New(p.Kind()).Set(ch.Value()).At(ch.Pos())
+	cIdx, _, ok := p.GetIdx(cIdx)
+	if !ok {
+		return
 	}
+	ch := p.C[cIdx]
+	p.Lexeme = lexeme.New(p.Kind()).Set(ch.Value()).At(ch.Pos())
 	p.RemoveChild(cIdx)
 }
 
-- 
2.43.0


From 53054727b867c96741bab0185388a05cd4593b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:48 +0000
Subject: [PATCH 17/25] fix: reductions left wrong parents

ReplaceWithChild made a node its own parent, PromoteChildrenOf and RawReduce did
not set the parent, and the parent of a root was a nil *PN in an interface, which
is not nil.
---
 tree/node_reductions.go | 9 ++++++++-
 tree/parsetree.go       | 4 ++++
 tree/reducer.go         | 5 ++++-
 3 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/tree/node_reductions.go b/tree/node_reductions.go
index 3afae8f..c40719b 100644
--- a/tree/node_reductions.go
+++ b/tree/node_reductions.go
@@ -10,7 +10,11 @@ func (p *PN) ReplaceWithChild(cIdx int) bool {
 	if !ok {
 		return false
 	}
-	*p = *(p.C[cIdx])
+	ch := p.C[cIdx]
+	p.Lexeme, p.C = ch.Lexeme, ch.C
+	for _, c := range p.C {
+		c.P = p
+	}
 	return true
 }
 
@@ -120,6 +124,9 @@ func (p *PN) PromoteChildrenOf(cIdx int) bool {
 	} else {
 		p.C = append(p.C[:cIdx], append(p.C[cIdx].C, p.C[cIdx+1:]...)...)
 	}
+	for _, c := range p.C {
+		c.P = p
+	}
 	return true
 }
 
diff --git a/tree/parsetree.go b/tree/parsetree.go
index f88e5f9..9eeeead 100644
--- a/tree/parsetree.go
+++ b/tree/parsetree.go
@@ -57,6 +57,10 @@ type PN struct {
 // Parent returns a reference to the nodes parent. If parent is nil, this is the
 // root of the tree. This is part of the parlex.ParseNode interface.
 func (p *PN) Parent() parlex.ParseNode {
+	if p.P == nil {
+		// a nil *PN is not the same thing as a nil parlex.ParseNode
+		return nil
+	}
 	return p.P
 }
 
diff --git a/tree/reducer.go b/tree/reducer.go
index 942c4bd..0599379 100644
--- a/tree/reducer.go
+++ b/tree/reducer.go
@@ -73,7 +73,10 @@ func (r Reducer) RawReduce(node parlex.ParseNode) *PN {
 		C:      make([]*PN, node.Children()),
 	}
 	for i := range cp.C {
-		cp.C[i] = r.RawReduce(node.Child(i))
+		if c := r.RawReduce(node.Child(i)); c != nil {
+			c.P = cp
+			cp.C[i] = c
+		}
 	}
 
 	if reduction := r[cp.Kind().String()]; reduction != nil {
-- 
2.43.0


From 383edd7afb2a4f370951f3cd19488ab49765d8d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:49 +0000
Subject: [PATCH 18/25] fix: tree.Clone dropped the position of every node

Every position became 0:0.
---
 tree/parsetree.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/tree/parsetree.go b/tree/parsetree.go
index 9eeeead..afc46c4 100644
--- a/tree/parsetree.go
+++ b/tree/parsetree.go
@@ -160,11 +160,8 @@ func (p *PN) ChildAt(cIdx int, symbs ...string) bool {
 // Clone takes a node and clones it and all it's children.
 func Clone(node parlex.ParseNode) *PN {
 	pn := &PN{
-		Lexeme: &lexeme.Lexeme{
-			K: node.Kind(),
-			V: node.Value(),
-		},
-		C: make([]*PN, node.Children()),
+		Lexeme: lexeme.Copy(node),
+		C:      make([]*PN, node.Children()),
 	}
 	for i := 0; i < node.Children(); i++ {
 		c := Clone(node.Child(i))
-- 
2.43.0


From ecc9bc32e9e1cf057ff43929f097ee1033adef2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:04 +0000
Subject: [PATCH 19/25] fix: topdown nodes had no parent and could occur twice
 in a tree

A memoized node that matches no lexemes can be used for several children.
---
 parser/topdown/topdown.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parser/topdown/topdown.go b/parser/topdown/topdown.go
index 803bbf7..dc7370b 100644
--- a/parser/topdown/topdown.go
+++ b/parser/topdown/topdown.go
@@ -47,7 +47,8 @@ func (t *Topdown) Parse(lexemes []parlex.Lexeme) parlex.ParseNode {
 	if node == nil {
 		return nil
 	}
-	return node
+	// nodes are shared by the memo; the clone gives each its own parent
+	return tree.Clone(node)
 }
 
 type treeKey struct {
-- 
2.43.0


From a4024c465616b59aec5bc20da4afac4b93b729b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:41 +0000
Subject: [PATCH 20/25] fix: tree.New did not undo all the escapes String
 writes

String writes values with %q, but New only knew three of its escapes, so a tab,
a control character or an invalid byte came back as its escape sequence.
---
 tree/parsetree.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tree/parsetree.go b/tree/parsetree.go
index afc46c4..1dce9e6 100644
--- a/tree/parsetree.go
+++ b/tree/parsetree.go
@@ -7,6 +7,7 @@ import (
 	"github.com/adamcolton/parlex/lexeme"
 	"github.com/adamcolton/parlex/symbol/stringsymbol"
 	"regexp"
+	"strconv"
 	"strings"
 )
 
@@ -31,7 +32,10 @@ func New(str string) (*PN, error) {
 		}
 		if m[2] != "" {
 			kind := stringsymbol.Symbol(m[2])
-			val := handleSlash.Replace(m[3])
+			val, err := strconv.Unquote(`"` + m[3] + `"`)
+			if err != nil {
+				val = handleSlash.Replace(m[3])
+			}
 			ch := &PN{
 				Lexeme: lexeme.New(kind).Set(val),
 				P:      cur,
-- 
2.43.0


From c67f120d737270c42e320edd344fc960a21d0f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:43 +0000
Subject: [PATCH 21/25] fix: tree.New panicked on or misread malformed trees

No node and a brace that closes nothing panicked, an open brace returned the
wrong node, and all but the first of several roots were dropped.
---
 tree/parsetree.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/tree/parsetree.go b/tree/parsetree.go
index 1dce9e6..9334d5a 100644
--- a/tree/parsetree.go
+++ b/tree/parsetree.go
@@ -21,13 +21,17 @@ var handleSlash = strings.NewReplacer(`\\`, "\\", `\n`, "\n", `\"`, "\"")
 // New creates a *PN from a string. They are more commonly created from a Parser
 // but this can be useful for testing.
 func New(str string) (*PN, error) {
-	cur := &PN{}
+	root := &PN{}
+	cur := root
 	for _, line := range strings.Split(str, "\n") {
 		m := reTreeLine.FindStringSubmatch(line)
 		if len(line) != len(m[0]) {
 			return nil, ErrBadTreeString
 		}
 		if m[1] == "}" {
+			if cur == root {
+				return nil, ErrBadTreeString
+			}
 			cur = cur.P
 		}
 		if m[2] != "" {
@@ -46,7 +50,10 @@ func New(str string) (*PN, error) {
 			}
 		}
 	}
-	cur = cur.C[0]
+	if cur != root || len(root.C) != 1 {
+		return nil, ErrBadTreeString
+	}
+	cur = root.C[0]
 	cur.P = nil
 	return cur, nil
 }
-- 
2.43.0


From 1ff4ee364f4c03033becdd634b816e3636c4dfc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:41 +0000
Subject: [PATCH 22/25] fix: regexgram dropped productions that hold an empty
 group

An empty group had no rules at all, so neither had anything combined with it.
---
 grammar/regexgram/regexgram.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/grammar/regexgram/regexgram.go b/grammar/regexgram/regexgram.go
index 58a20b9..c42a7f7 100644
--- a/grammar/regexgram/regexgram.go
+++ b/grammar/regexgram/regexgram.go
@@ -291,11 +291,8 @@ func mergeRules(a, b rules) rules {
 }
 
 func (rc ruleComb) reduce() rules {
-	if len(rc) == 0 {
-		return nil
-	}
-	ra := rc[0]
-	for _, rb := range rc[1:] {
+	ra := rules{rule{}}
+	for _, rb := range rc {
 		ra = mergeRules(ra, rb)
 	}
 	return ra
-- 
2.43.0


From d34ac8836ff9f67d2d8babcd4d420ecde6bc16f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:43 +0000
Subject: [PATCH 23/25] fix: regexgram took (A B)* and (A_B)* for the same
 repetition

The name of a repetition decided if it was already defined, but different groups
can have the same name.
---
 grammar/regexgram/regexgram.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/grammar/regexgram/regexgram.go b/grammar/regexgram/regexgram.go
index c42a7f7..dcea97a 100644
--- a/grammar/regexgram/regexgram.go
+++ b/grammar/regexgram/regexgram.go
@@ -192,9 +192,20 @@ func (op *evalOp) evalSymbol(node *tree.PN) rules {
 //    ->
 // And adds a rule to the reducer
 func (op *evalOp) addRepeatAsProduction(node *tree.PN) rules {
-	symName := op.getName(node)
+	def := node.String()
+	rs, ok := op.done[def]
+	if !ok {
+		symName := op.getName(node)
+		for op.set.Has(symName) {
+			symName += "*" // (A B)* and (A_B)* have the same name
+		}
+		op.set.Str(symName)
+		rs = rules{rule{symName}}
+		op.done[def] = rs
+	}
+	symName := rs[0][0]
 	op.bludgeons[op.nonterm] = append(op.bludgeons[op.nonterm], symName)
-	if rs, ok := op.done[symName]; ok {
+	if ok {
 		return rs
 	}
 	cp := tree.Clone(node)
@@ -225,8 +236,6 @@ func (op *evalOp) addRepeatAsProduction(node *tree.PN) rules {
 	}
 	op.stack = append(op.stack, nilProd)
 
-	rs := rules{rule{symName}}
-	op.done[symName] = rs
 	return rs
 }
 
-- 
2.43.0


From ac5799a8bcc1fb005e0ebd50e7ab3c6b7de997d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:44 +0000
Subject: [PATCH 24/25] fix: adding symbols to one copy of a production changed
 other copies

All copies of a production appended to the same array.
---
 symbol/setsymbol/set.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/symbol/setsymbol/set.go b/symbol/setsymbol/set.go
index cad2381..d7a0710 100644
--- a/symbol/setsymbol/set.go
+++ b/symbol/setsymbol/set.go
@@ -261,8 +261,9 @@ func (p *Productions) Productions() int {
 // Production returns the production at the given index
 func (p *Productions) Production(i int) parlex.Production {
 	if i < len(p.prods) {
+		ln := len(p.prods[i])
 		return &Production{
-			symbs: p.prods[i],
+			symbs: p.prods[i][:ln:ln], // AddSymbols must not write to the shared array
 			set:   p.set,
 		}
 	}
-- 
2.43.0


From e89ce5129fda789ad44f7cf723caf150a27e4293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:29 +0000
Subject: [PATCH 25/25] fix: RemoveLeftRecursion panicked if all productions of
 a non-terminal are left recursive

Such a non-terminal derives nothing, and lost all of its productions and with them
its place in the grammar.
---
 grammar/left_recursion.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/grammar/left_recursion.go b/grammar/left_recursion.go
index ba99194..0456ee7 100644
--- a/grammar/left_recursion.go
+++ b/grammar/left_recursion.go
@@ -26,9 +26,13 @@ func RemoveLeftRecursion(grammar parlex.Grammar) *Grammar {
 		set:  out.set, // indexes in out.productions are indexes in this set
 	}
 	op.set.LoadGrammar(grammar)
+	out.productions = make([]*setsymbol.Productions, op.set.Size())
 	for _, s := range nts {
 		op.cur = op.set.Symbol(s)
 		op.hasDirect = false
+		// stays a non-terminal even if no production is added
+		out.productions[op.cur.Idx()] = op.set.Productions()
+		out.order = append(out.order, op.cur.Idx())
 		for i := grammar.Productions(op.cur).Iter(); i.Next(); {
 			op.safeAdd(op.set.CastProduction(i.Production))
 		}
-- 
2.43.0

