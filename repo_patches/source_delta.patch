From 02984fbc82c9cb2103f207b4bdc31b7b74868b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:31 +0000
Subject: [PATCH 1/9] fix: isolate repeated sub-patterns before adding skip and
 loop edges

`(a*b)?` matched "a" and `x(ba*)?` matched "xa": the edges that skip or repeat
a sub-pattern were attached to nodes that the sub-pattern itself loops through.
---
 tokenizer/src/nfa.rs | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/tokenizer/src/nfa.rs b/tokenizer/src/nfa.rs
index 8890d84..cf495be 100644
--- a/tokenizer/src/nfa.rs
+++ b/tokenizer/src/nfa.rs
@@ -224,6 +224,34 @@ impl Clone for NFA {
     }
 }
 
+impl NFA {
+    /// Makes sure that no edge enters `begin` and no edge leaves `end`, so that edges skipping or repeating the whole automaton can be added safely.
+    fn isolate(mut self) -> Self {
+        let begin_ptr = Arc::as_ptr(&self.begin);
+        let begin_is_entered = self.node.iter().any(|node| {
+            let node = node.read().unwrap();
+            node.epsilon.iter().chain(node.next.values().flatten()).any(|edge| std::ptr::eq(edge.0.as_ptr(), begin_ptr))
+        });
+        let end_is_left = {
+            let end = self.end.read().unwrap();
+            !end.epsilon.is_empty() || !end.next.is_empty()
+        };
+        if begin_is_entered {
+            let begin: Arc<RwLock<NFANode>> = Arc::new(Default::default());
+            begin.write().unwrap().epsilon.insert(Edge(Arc::downgrade(&self.begin)));
+            self.node.push(Arc::clone(&begin));
+            self.begin = begin;
+        }
+        if end_is_left {
+            let end: Arc<RwLock<NFANode>> = Arc::new(Default::default());
+            self.end.write().unwrap().epsilon.insert(Edge(Arc::downgrade(&end)));
+            self.node.push(Arc::clone(&end));
+            self.end = end;
+        }
+        self
+    }
+}
+
 impl TryFrom<Hir> for NFA {
     type Error = <NFA as TryFrom<HirKind>>::Error;
 
@@ -281,7 +309,7 @@ impl TryFrom<HirKind> for NFA {
             HirKind::Anchor(_) => Err(NFAConstructError::AnchorIsNotSupported),
             HirKind::WordBoundary(_) => Err(NFAConstructError::WordBoundaryIsNotSupported),
             HirKind::Repetition(repetition) => {
-                let mut inner = NFA::try_from(repetition.hir.into_kind())?;
+                let mut inner = NFA::try_from(repetition.hir.into_kind())?.isolate();
                 match repetition.kind {
                     RepetitionKind::ZeroOrOne => {
                         inner.begin.write().unwrap().epsilon.insert(Edge(Arc::downgrade(&inner.end)));
-- 
2.43.0


From 5c2d50852b225c80af34b99b6558de1b55dfd809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:31 +0000
Subject: [PATCH 2/9] fix: never merge DFA states whose transitions differ only
 in a range end

The minimizer grouped states by a hash map key that compares ranges by their
start only, so `a[0-4]|b[0-8]` was, depending on the random hash seed, built
into a tokenizer that accepts "a7" or rejects "b7".
---
 tokenizer/src/dfa.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tokenizer/src/dfa.rs b/tokenizer/src/dfa.rs
index d6d87a2..8478f20 100644
--- a/tokenizer/src/dfa.rs
+++ b/tokenizer/src/dfa.rs
@@ -150,7 +150,9 @@ impl<'a> TokenizerDFA<'a> {
                 for node in set {
                     let node_next = &(*node).next;
                     let compressed_next = Self::compress_next(&group_map, node_next);
-                    split_group.entry(compressed_next).or_insert_with(HashSet::new).insert(node.reference());
+                    // `CharRange` compares by its start only, so the ranges themselves have to be the key.
+                    let key = compressed_next.into_iter().map(|(range, group)| (range.range, group)).collect::<Vec<_>>();
+                    split_group.entry(key).or_insert_with(HashSet::new).insert(node.reference());
                 }
                 updated |= split_group.len() > 1;
                 for (_, set) in split_group.into_iter() {
-- 
2.43.0


From 2b6b1237e8fb31e17b8880c6731217f6d3ae67b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:31 +0000
Subject: [PATCH 3/9] fix: make CharRange's Hash agree with its Eq and
 Borrow<u32>

Equal ranges (same start) hashed differently, which makes them unusable as
hash map keys.
---
 tokenizer/src/lib.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/tokenizer/src/lib.rs b/tokenizer/src/lib.rs
index 6c34149..b2038ed 100644
--- a/tokenizer/src/lib.rs
+++ b/tokenizer/src/lib.rs
@@ -2,6 +2,7 @@ use std::borrow::Borrow;
 use std::cmp::Ordering;
 use std::convert::TryFrom;
 use std::fmt::Debug;
+use std::hash::{Hash, Hasher};
 use std::ops::Range;
 
 pub use crate::tokenizer::iter::{Tokenize, TokenizeIterator};
@@ -11,7 +12,7 @@ mod dfa;
 mod nfa;
 mod tokenizer;
 
-#[derive(Eq, Hash, Clone)]
+#[derive(Eq, Clone)]
 pub struct CharRange {
     pub range: Range<u32>,
 }
@@ -43,6 +44,12 @@ impl PartialEq for CharRange {
     }
 }
 
+impl Hash for CharRange {
+    fn hash<H: Hasher>(&self, state: &mut H) {
+        self.range.start.hash(state)
+    }
+}
+
 impl PartialOrd for CharRange {
     fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
         self.range.start.partial_cmp(&other.range.start)
-- 
2.43.0


From 9eaeca4fd0a197ca21f716cda6bc3c850eddae8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:31 +0000
Subject: [PATCH 4/9] fix: do not yield empty tokens forever when a pattern
 matches the empty string

With a pattern such as `a*` the iterator never ended: it yielded the empty
token again and again without consuming anything.
---
 tokenizer/src/tokenizer/iter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tokenizer/src/tokenizer/iter.rs b/tokenizer/src/tokenizer/iter.rs
index f56756c..1998dbd 100644
--- a/tokenizer/src/tokenizer/iter.rs
+++ b/tokenizer/src/tokenizer/iter.rs
@@ -47,7 +47,7 @@ impl<I: Iterator, F: FnMut(&I::Item) -> char, T: Tokenizer<Input = I::Item>> Ite
     fn next(&mut self) -> Option<Self::Item> {
         let TokenizeIterator { iter, queue, map, tokenizer } = self;
         let mut current_node = tokenizer.begin();
-        let mut last_matched_pattern = tokenizer.accept_index(current_node);
+        let mut last_matched_pattern = None;
         let mut last_matched_length = 0;
         let mut i = 0;
         let mut items = Vec::new();
-- 
2.43.0


From 7e796ed9645246a73fb4ddc5a6b52e32864a9e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:51 +0000
Subject: [PATCH 5/9] fix: hand an empty slice to ERROR when the error is at
 the end of the input

The end of input was given position 0, so an ERROR there received the first
token of the input, or panicked with an index out of range on empty input.
---
 parser/src/iter.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/parser/src/iter.rs b/parser/src/iter.rs
index c5f7454..36bb406 100644
--- a/parser/src/iter.rs
+++ b/parser/src/iter.rs
@@ -1,7 +1,7 @@
 use std::collections::{HashSet, VecDeque};
 use std::error::Error;
 use std::fmt::{Display, Formatter};
-use std::ops::RangeInclusive;
+use std::ops::Range;
 
 use enum_index::EnumIndex;
 
@@ -54,7 +54,7 @@ impl<I: IntoIterator, N, E> Parse<N, E> for I
                     buffer.push_back((TerminalSymbol::Symbol(symbol.enum_index()), symbols.len()));
                     symbols.push(symbol);
                 } else {
-                    buffer.push_back((TerminalSymbol::EOI, 0));
+                    buffer.push_back((TerminalSymbol::EOI, symbols.len()));
                 }
             }
             let (symbol, symbol_index) = buffer.front().unwrap();
@@ -74,7 +74,7 @@ impl<I: IntoIterator, N, E> Parse<N, E> for I
                     let (state, mut rule_symbols): (Vec<_>, Vec<_>) = stack.drain(stack.len() - parser.rules[*rule].symbols.len()..).unzip();
                     let first_index: usize = rule_symbols
                         .iter()
-                        .find_map(|symbol: &SymbolInternal<_, (TerminalSymbol<_, RangeInclusive<usize>>, _)>| match symbol {
+                        .find_map(|symbol: &SymbolInternal<_, (TerminalSymbol<_, Range<usize>>, _)>| match symbol {
                             SymbolInternal::NonTerminal((_, i)) => Some(*i),
                             SymbolInternal::Terminal((TerminalSymbol::Symbol(_), i)) => Some(*i),
                             _ => None,
@@ -145,7 +145,7 @@ impl<I: IntoIterator, N, E> Parse<N, E> for I
                                     head = i;
                                 }
                                 SymbolInternal::Terminal((TerminalSymbol::Error(range), _)) => {
-                                    error_head = *range.start();
+                                    error_head = range.start;
                                 }
                                 SymbolInternal::Terminal((TerminalSymbol::EOI, _)) => {}
                             }
@@ -160,7 +160,8 @@ impl<I: IntoIterator, N, E> Parse<N, E> for I
                         buffer.pop_front();
                     }
                     if let Some(Action::Shift(s)) = parser.action_table.get(&current_state).unwrap().get(&TerminalSymbol::Error(())) {
-                        stack.push((current_state, SymbolInternal::Terminal((TerminalSymbol::Error(head.min(error_head)..=tail), 0))));
+                        let error_tail = if is_eoi { tail } else { tail + 1 };
+                        stack.push((current_state, SymbolInternal::Terminal((TerminalSymbol::Error(head.min(error_head)..error_tail), 0))));
                         current_state = *s;
                     } else {
                         unreachable!()
-- 
2.43.0


From 5f7c99bb25b165051ee4dfa6bdcf377754265888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:51 +0000
Subject: [PATCH 6/9] fix: place symbols without tokens at the lookahead token

A non-terminal reduced from nothing was placed at the end of everything read so
far, so recovery that discarded it skipped a token too many and left tokens out
of the slice handed to ERROR.
---
 parser/src/iter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/src/iter.rs b/parser/src/iter.rs
index 36bb406..88dfbce 100644
--- a/parser/src/iter.rs
+++ b/parser/src/iter.rs
@@ -79,7 +79,7 @@ impl<I: IntoIterator, N, E> Parse<N, E> for I
                             SymbolInternal::Terminal((TerminalSymbol::Symbol(_), i)) => Some(*i),
                             _ => None,
                         })
-                        .unwrap_or(symbols.len());
+                        .unwrap_or(*symbol_index);
                     let mut rule_symbols = {
                         let mut rule_symbols_ = Vec::new();
                         let all_symbols = &symbols;
-- 
2.43.0


From 66680b4051fe1b3e0c62794be62cbf7894e54096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:22 +0000
Subject: [PATCH 7/9] fix: keep tokens of a discarded ERROR in the slice of the
 ERROR that replaces it

When recovery discarded a non-terminal that itself contained an ERROR, the
tokens of that inner ERROR vanished from the slice handed to the new ERROR.
---
 parser/src/iter.rs | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/parser/src/iter.rs b/parser/src/iter.rs
index 88dfbce..002e92c 100644
--- a/parser/src/iter.rs
+++ b/parser/src/iter.rs
@@ -75,11 +75,19 @@ impl<I: IntoIterator, N, E> Parse<N, E> for I
                     let first_index: usize = rule_symbols
                         .iter()
                         .find_map(|symbol: &SymbolInternal<_, (TerminalSymbol<_, Range<usize>>, _)>| match symbol {
-                            SymbolInternal::NonTerminal((_, i)) => Some(*i),
+                            SymbolInternal::NonTerminal((_, i, _)) => Some(*i),
                             SymbolInternal::Terminal((TerminalSymbol::Symbol(_), i)) => Some(*i),
                             _ => None,
                         })
                         .unwrap_or(*symbol_index);
+                    let error_index = rule_symbols
+                        .iter()
+                        .filter_map(|symbol| match symbol {
+                            SymbolInternal::NonTerminal((_, _, i)) => Some(*i),
+                            SymbolInternal::Terminal((TerminalSymbol::Error(range), _)) => Some(range.start),
+                            _ => None,
+                        })
+                        .fold(first_index, usize::min);
                     let mut rule_symbols = {
                         let mut rule_symbols_ = Vec::new();
                         let all_symbols = &symbols;
@@ -87,7 +95,7 @@ impl<I: IntoIterator, N, E> Parse<N, E> for I
                         let mut symbols_index = 0;
                         for symbol in rule_symbols.iter_mut() {
                             let symbol = match symbol {
-                                SymbolInternal::NonTerminal((n, _)) => Symbol::NonTerminal(n),
+                                SymbolInternal::NonTerminal((n, _, _)) => Symbol::NonTerminal(n),
                                 SymbolInternal::Terminal((TerminalSymbol::Symbol(_), i)) => {
                                     let (symbol, follow) = symbols[*i - symbols_index..].split_first().unwrap();
                                     symbols = follow;
@@ -104,7 +112,7 @@ impl<I: IntoIterator, N, E> Parse<N, E> for I
                         rule_symbols_
                     };
                     current_state = state.first().copied().unwrap_or(current_state);
-                    let reduced_symbol = SymbolInternal::NonTerminal(((parser.rules[*rule].generator)(&mut rule_symbols[..]).map_err(ParseError::ErrorInReducer)?, first_index));
+                    let reduced_symbol = SymbolInternal::NonTerminal(((parser.rules[*rule].generator)(&mut rule_symbols[..]).map_err(ParseError::ErrorInReducer)?, first_index, error_index));
                     stack.push((current_state, reduced_symbol));
                     current_state = *parser.goto_table.get(&current_state).unwrap().get(&parser.rules[*rule].non_terminal).unwrap();
                     if error_recovery_state.contains(rule) {
@@ -112,7 +120,7 @@ impl<I: IntoIterator, N, E> Parse<N, E> for I
                     }
                 }
                 Some(Action::Accept) => {
-                    if let Some((_, SymbolInternal::NonTerminal((symbol, _)))) = stack.pop() {
+                    if let Some((_, SymbolInternal::NonTerminal((symbol, _, _)))) = stack.pop() {
                         return Ok(symbol);
                     } else {
                         unreachable!()
@@ -141,11 +149,15 @@ impl<I: IntoIterator, N, E> Parse<N, E> for I
                         if let Some((state, symbol)) = stack.pop() {
                             current_state = state;
                             match symbol {
-                                SymbolInternal::NonTerminal((_, i)) | SymbolInternal::Terminal((TerminalSymbol::Symbol(_), i)) => {
+                                SymbolInternal::NonTerminal((_, i, error_index)) => {
+                                    head = i;
+                                    error_head = error_head.min(error_index);
+                                }
+                                SymbolInternal::Terminal((TerminalSymbol::Symbol(_), i)) => {
                                     head = i;
                                 }
                                 SymbolInternal::Terminal((TerminalSymbol::Error(range), _)) => {
-                                    error_head = range.start;
+                                    error_head = error_head.min(range.start);
                                 }
                                 SymbolInternal::Terminal((TerminalSymbol::EOI, _)) => {}
                             }
-- 
2.43.0


From 6a7f7be5f16dadc783773d33488a299f1be4a028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:22 +0000
Subject: [PATCH 8/9] fix: do not enter ERROR from the same state forever
 without reading a token

With a rule such as `<L> ::= ERROR <L>` an unexpected token made the parser push
ERROR symbols until memory ran out.
---
 parser/src/iter.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parser/src/iter.rs b/parser/src/iter.rs
index 002e92c..5b1939b 100644
--- a/parser/src/iter.rs
+++ b/parser/src/iter.rs
@@ -133,7 +133,9 @@ impl<I: IntoIterator, N, E> Parse<N, E> for I
                     let mut head = tail;
                     let mut error_head = head;
                     loop {
-                        if !is_eoi || !backtracked {
+                        // Errors entered at this very token without reading anything; entering one twice from the same state would never end.
+                        let entered = !backtracked && stack.iter().rev().take_while(|(_, symbol)| matches!(symbol, SymbolInternal::Terminal((TerminalSymbol::Error(_), _)))).any(|(state, _)| *state == current_state);
+                        if !entered && (!is_eoi || !backtracked) {
                             if let Some(error_rules) = parser.error_rules.get(&current_state) {
                                 if error_recovery_state.is_empty() {
                                     error_recovery_state = error_rules.clone();
-- 
2.43.0


From 33242803cf11f6ba79a6dd317856df9dce56a87c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:22 +0000
Subject: [PATCH 9/9] fix: report conflicts between accepting the input and
 reducing a rule

`<E> ::= <E> | "i"` is ambiguous, but the reduction was silently overwritten by
the accept action and no warning was returned.
---
 parser/src/parser.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parser/src/parser.rs b/parser/src/parser.rs
index dd8008f..e38b567 100644
--- a/parser/src/parser.rs
+++ b/parser/src/parser.rs
@@ -249,7 +249,9 @@ fn calc_table<N, T, E>(state_list: HashMap<StateInterop, GotoListInterop>, start
         for item in state {
             if item.position == rules[item.rule].symbols.len() {
                 if item.rule == start_rule {
-                    action.insert(TerminalSymbol::EOI, Action::Accept);
+                    if let Some(Action::Reduce(reduce)) = action.insert(TerminalSymbol::EOI, Action::Accept) {
+                        warnings.push(CalcTableWarning::ReduceReduce { state: current_state.clone(), actions: [item.rule, reduce] });
+                    }
                 } else {
                     match action.get(&item.lookahead_symbol) {
                         None => {
-- 
2.43.0

