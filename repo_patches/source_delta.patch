From 9b58970d886c326f1e335aa8d5874c0e8eb1d874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:42 +0000
Subject: [PATCH 1/9] fix: do not yield empty tokens when a pattern matches the
 empty string

TokenizeIterator::next started from the acceptance of the begin state, so a
nullable pattern produced an endless stream of empty tokens wherever nothing
longer matched.
---
 tokenizer/src/tokenizer/iter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tokenizer/src/tokenizer/iter.rs b/tokenizer/src/tokenizer/iter.rs
index f56756c..1998dbd 100644
--- a/tokenizer/src/tokenizer/iter.rs
+++ b/tokenizer/src/tokenizer/iter.rs
@@ -47,7 +47,7 @@ impl<I: Iterator, F: FnMut(&I::Item) -> char, T: Tokenizer<Input = I::Item>> Ite
     fn next(&mut self) -> Option<Self::Item> {
         let TokenizeIterator { iter, queue, map, tokenizer } = self;
         let mut current_node = tokenizer.begin();
-        let mut last_matched_pattern = tokenizer.accept_index(current_node);
+        let mut last_matched_pattern = None;
         let mut last_matched_length = 0;
         let mut i = 0;
         let mut items = Vec::new();
-- 
2.43.0


From 06d0fd3f63f3eead4864ec1a1c9cd00a0468fbf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:42 +0000
Subject: [PATCH 2/9] fix: compare range ends when splitting groups in minify

The split key compared ranges by their start only, so states whose ranges
differ only in their ends were merged when their hashes collided.
---
 tokenizer/src/dfa.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tokenizer/src/dfa.rs b/tokenizer/src/dfa.rs
index d6d87a2..0d35ca8 100644
--- a/tokenizer/src/dfa.rs
+++ b/tokenizer/src/dfa.rs
@@ -149,7 +149,8 @@ impl<'a> TokenizerDFA<'a> {
                 let mut split_group = HashMap::new();
                 for node in set {
                     let node_next = &(*node).next;
-                    let compressed_next = Self::compress_next(&group_map, node_next);
+                    // CharRange compares by its start only, so the ends have to be part of the key
+                    let compressed_next = Self::compress_next(&group_map, node_next).into_iter().map(|(range, group)| (range.range.start, range.range.end, group)).collect::<Vec<_>>();
                     split_group.entry(compressed_next).or_insert_with(HashSet::new).insert(node.reference());
                 }
                 updated |= split_group.len() > 1;
-- 
2.43.0


From 0bbf82bec9173a74a60121202c5dad3f1367216f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:42 +0000
Subject: [PATCH 3/9] fix: hash CharRange consistently with its equality

Equality and Borrow<u32> look at the start only, the derived Hash also at the
end: equal ranges hashed differently.
---
 tokenizer/src/lib.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/tokenizer/src/lib.rs b/tokenizer/src/lib.rs
index 6c34149..b2038ed 100644
--- a/tokenizer/src/lib.rs
+++ b/tokenizer/src/lib.rs
@@ -2,6 +2,7 @@ use std::borrow::Borrow;
 use std::cmp::Ordering;
 use std::convert::TryFrom;
 use std::fmt::Debug;
+use std::hash::{Hash, Hasher};
 use std::ops::Range;
 
 pub use crate::tokenizer::iter::{Tokenize, TokenizeIterator};
@@ -11,7 +12,7 @@ mod dfa;
 mod nfa;
 mod tokenizer;
 
-#[derive(Eq, Hash, Clone)]
+#[derive(Eq, Clone)]
 pub struct CharRange {
     pub range: Range<u32>,
 }
@@ -43,6 +44,12 @@ impl PartialEq for CharRange {
     }
 }
 
+impl Hash for CharRange {
+    fn hash<H: Hasher>(&self, state: &mut H) {
+        self.range.start.hash(state)
+    }
+}
+
 impl PartialOrd for CharRange {
     fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
         self.range.start.partial_cmp(&other.range.start)
-- 
2.43.0


From 6a225059fbdbb7223ca90c09ad93d342766496fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:32 +0000
Subject: [PATCH 4/9] fix: keep repetitions of repetitions apart in the NFA

?, *, {0,}, {n,} and {0,m} linked the begin and end nodes of the inner
automaton directly. When the inner automaton re-enters its begin node or leaves
its end node, the added edge is reachable in the middle of a match: (a*b)?
accepted "a", (ab*)? accepted "b", (a*b){1,} accepted "ba".
---
 tokenizer/src/nfa.rs | 40 ++++++++++++++++++++++++++++++++++++++++
 1 file changed, 40 insertions(+)

diff --git a/tokenizer/src/nfa.rs b/tokenizer/src/nfa.rs
index 8890d84..d7f9117 100644
--- a/tokenizer/src/nfa.rs
+++ b/tokenizer/src/nfa.rs
@@ -224,6 +224,37 @@ impl Clone for NFA {
     }
 }
 
+impl NFA {
+    /// Gives the automaton a fresh begin node if some edge leads back to the current one.
+    fn isolate_begin(&mut self) {
+        let begin = Edge(Arc::downgrade(&self.begin));
+        let reentered = self.node.iter().any(|node| {
+            let node = node.read().unwrap();
+            node.epsilon.contains(&begin) || node.next.values().any(|edges| edges.contains(&begin))
+        });
+        if reentered {
+            let node: Arc<RwLock<NFANode>> = Arc::new(Default::default());
+            node.write().unwrap().epsilon.insert(begin);
+            self.node.push(Arc::clone(&node));
+            self.begin = node;
+        }
+    }
+
+    /// Gives the automaton a fresh end node if the current one has outgoing edges.
+    fn isolate_end(&mut self) {
+        let left = {
+            let end = self.end.read().unwrap();
+            !end.epsilon.is_empty() || !end.next.is_empty()
+        };
+        if left {
+            let node: Arc<RwLock<NFANode>> = Arc::new(Default::default());
+            self.end.write().unwrap().epsilon.insert(Edge(Arc::downgrade(&node)));
+            self.node.push(Arc::clone(&node));
+            self.end = node;
+        }
+    }
+}
+
 impl TryFrom<Hir> for NFA {
     type Error = <NFA as TryFrom<HirKind>>::Error;
 
@@ -284,10 +315,13 @@ impl TryFrom<HirKind> for NFA {
                 let mut inner = NFA::try_from(repetition.hir.into_kind())?;
                 match repetition.kind {
                     RepetitionKind::ZeroOrOne => {
+                        inner.isolate_begin();
+                        inner.isolate_end();
                         inner.begin.write().unwrap().epsilon.insert(Edge(Arc::downgrade(&inner.end)));
                         Ok(inner)
                     }
                     RepetitionKind::ZeroOrMore => {
+                        inner.isolate_begin();
                         inner.end.write().unwrap().epsilon.insert(Edge(Arc::downgrade(&inner.begin)));
                         inner.end = Arc::clone(&inner.begin);
                         Ok(inner)
@@ -319,11 +353,13 @@ impl TryFrom<HirKind> for NFA {
                         },
                         RepetitionRange::AtLeast(n) => match n {
                             0 => {
+                                inner.isolate_begin();
                                 inner.end.write().unwrap().epsilon.insert(Edge(Arc::downgrade(&inner.begin)));
                                 inner.end = Arc::clone(&inner.begin);
                                 Ok(inner)
                             }
                             n => {
+                                inner.isolate_begin();
                                 let NFA { mut node, begin, mut end } = inner.clone();
                                 for _ in 0..n - 1 {
                                     let mut nfa = inner.clone();
@@ -345,10 +381,14 @@ impl TryFrom<HirKind> for NFA {
                                 Ok(NFA { node: vec![Arc::clone(&node)], begin: Arc::clone(&node), end: node })
                             }
                             (0, 1) => {
+                                inner.isolate_begin();
+                                inner.isolate_end();
                                 inner.begin.write().unwrap().epsilon.insert(Edge(Arc::downgrade(&inner.end)));
                                 Ok(inner)
                             }
                             (0, n) => {
+                                inner.isolate_begin();
+                                inner.isolate_end();
                                 let NFA { mut node, begin, mut end } = inner.clone();
                                 for _ in 0..n - 2 {
                                     let mut nfa = inner.clone();
-- 
2.43.0


From 1c90ee89d9a72ec103df3289319991a1f87519d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:54:35 +0000
Subject: [PATCH 5/9] fix: give the end of input its own position in error
 recovery

An error found at the end of input was recorded at token 0, so the error symbol
covered the first token, and parsing an empty input panicked.
---
 parser/src/iter.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/parser/src/iter.rs b/parser/src/iter.rs
index c5f7454..069617b 100644
--- a/parser/src/iter.rs
+++ b/parser/src/iter.rs
@@ -1,7 +1,7 @@
 use std::collections::{HashSet, VecDeque};
 use std::error::Error;
 use std::fmt::{Display, Formatter};
-use std::ops::RangeInclusive;
+use std::ops::Range;
 
 use enum_index::EnumIndex;
 
@@ -54,7 +54,7 @@ impl<I: IntoIterator, N, E> Parse<N, E> for I
                     buffer.push_back((TerminalSymbol::Symbol(symbol.enum_index()), symbols.len()));
                     symbols.push(symbol);
                 } else {
-                    buffer.push_back((TerminalSymbol::EOI, 0));
+                    buffer.push_back((TerminalSymbol::EOI, symbols.len()));
                 }
             }
             let (symbol, symbol_index) = buffer.front().unwrap();
@@ -74,7 +74,7 @@ impl<I: IntoIterator, N, E> Parse<N, E> for I
                     let (state, mut rule_symbols): (Vec<_>, Vec<_>) = stack.drain(stack.len() - parser.rules[*rule].symbols.len()..).unzip();
                     let first_index: usize = rule_symbols
                         .iter()
-                        .find_map(|symbol: &SymbolInternal<_, (TerminalSymbol<_, RangeInclusive<usize>>, _)>| match symbol {
+                        .find_map(|symbol: &SymbolInternal<_, (TerminalSymbol<_, Range<usize>>, _)>| match symbol {
                             SymbolInternal::NonTerminal((_, i)) => Some(*i),
                             SymbolInternal::Terminal((TerminalSymbol::Symbol(_), i)) => Some(*i),
                             _ => None,
@@ -145,7 +145,7 @@ impl<I: IntoIterator, N, E> Parse<N, E> for I
                                     head = i;
                                 }
                                 SymbolInternal::Terminal((TerminalSymbol::Error(range), _)) => {
-                                    error_head = *range.start();
+                                    error_head = range.start;
                                 }
                                 SymbolInternal::Terminal((TerminalSymbol::EOI, _)) => {}
                             }
@@ -160,7 +160,7 @@ impl<I: IntoIterator, N, E> Parse<N, E> for I
                         buffer.pop_front();
                     }
                     if let Some(Action::Shift(s)) = parser.action_table.get(&current_state).unwrap().get(&TerminalSymbol::Error(())) {
-                        stack.push((current_state, SymbolInternal::Terminal((TerminalSymbol::Error(head.min(error_head)..=tail), 0))));
+                        stack.push((current_state, SymbolInternal::Terminal((TerminalSymbol::Error(head.min(error_head)..(tail + 1).min(symbols.len())), 0))));
                         current_state = *s;
                     } else {
                         unreachable!()
-- 
2.43.0


From 63a231bb77e3659a9a257332206f9d93e40d82c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:54:41 +0000
Subject: [PATCH 6/9] fix: record where empty and error-led rules begin

A reduced rule with no symbols was recorded as beginning at the end of the tokens read
so far rather than at the token ahead, and one beginning with an error symbol forgot the
tokens of that error, so discarding it in a later recovery put tokens back in the wrong
place or left skipped tokens out of the new error.
---
 parser/src/iter.rs | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/parser/src/iter.rs b/parser/src/iter.rs
index 069617b..5fb18ba 100644
--- a/parser/src/iter.rs
+++ b/parser/src/iter.rs
@@ -75,11 +75,16 @@ impl<I: IntoIterator, N, E> Parse<N, E> for I
                     let first_index: usize = rule_symbols
                         .iter()
                         .find_map(|symbol: &SymbolInternal<_, (TerminalSymbol<_, Range<usize>>, _)>| match symbol {
-                            SymbolInternal::NonTerminal((_, i)) => Some(*i),
+                            SymbolInternal::NonTerminal((_, _, i)) => Some(*i),
                             SymbolInternal::Terminal((TerminalSymbol::Symbol(_), i)) => Some(*i),
                             _ => None,
                         })
-                        .unwrap_or(symbols.len());
+                        .unwrap_or(*symbol_index);
+                    let start_index = match rule_symbols.first() {
+                        Some(SymbolInternal::NonTerminal((_, start, _))) => *start,
+                        Some(SymbolInternal::Terminal((TerminalSymbol::Error(range), _))) => range.start,
+                        _ => first_index,
+                    };
                     let mut rule_symbols = {
                         let mut rule_symbols_ = Vec::new();
                         let all_symbols = &symbols;
@@ -87,7 +92,7 @@ impl<I: IntoIterator, N, E> Parse<N, E> for I
                         let mut symbols_index = 0;
                         for symbol in rule_symbols.iter_mut() {
                             let symbol = match symbol {
-                                SymbolInternal::NonTerminal((n, _)) => Symbol::NonTerminal(n),
+                                SymbolInternal::NonTerminal((n, _, _)) => Symbol::NonTerminal(n),
                                 SymbolInternal::Terminal((TerminalSymbol::Symbol(_), i)) => {
                                     let (symbol, follow) = symbols[*i - symbols_index..].split_first().unwrap();
                                     symbols = follow;
@@ -104,7 +109,7 @@ impl<I: IntoIterator, N, E> Parse<N, E> for I
                         rule_symbols_
                     };
                     current_state = state.first().copied().unwrap_or(current_state);
-                    let reduced_symbol = SymbolInternal::NonTerminal(((parser.rules[*rule].generator)(&mut rule_symbols[..]).map_err(ParseError::ErrorInReducer)?, first_index));
+                    let reduced_symbol = SymbolInternal::NonTerminal(((parser.rules[*rule].generator)(&mut rule_symbols[..]).map_err(ParseError::ErrorInReducer)?, start_index, first_index));
                     stack.push((current_state, reduced_symbol));
                     current_state = *parser.goto_table.get(&current_state).unwrap().get(&parser.rules[*rule].non_terminal).unwrap();
                     if error_recovery_state.contains(rule) {
@@ -112,7 +117,7 @@ impl<I: IntoIterator, N, E> Parse<N, E> for I
                     }
                 }
                 Some(Action::Accept) => {
-                    if let Some((_, SymbolInternal::NonTerminal((symbol, _)))) = stack.pop() {
+                    if let Some((_, SymbolInternal::NonTerminal((symbol, _, _)))) = stack.pop() {
                         return Ok(symbol);
                     } else {
                         unreachable!()
@@ -141,7 +146,11 @@ impl<I: IntoIterator, N, E> Parse<N, E> for I
                         if let Some((state, symbol)) = stack.pop() {
                             current_state = state;
                             match symbol {
-                                SymbolInternal::NonTerminal((_, i)) | SymbolInternal::Terminal((TerminalSymbol::Symbol(_), i)) => {
+                                SymbolInternal::NonTerminal((_, start, i)) => {
+                                    head = i;
+                                    error_head = error_head.min(start);
+                                }
+                                SymbolInternal::Terminal((TerminalSymbol::Symbol(_), i)) => {
                                     head = i;
                                 }
                                 SymbolInternal::Terminal((TerminalSymbol::Error(range), _)) => {
-- 
2.43.0


From 1eccf61f1ecd6f0405833d1c47ca08a791b2e1df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:55:44 +0000
Subject: [PATCH 7/9] fix: do not shift error symbols forever on a token no
 rule can take

With a rule such as A -> error A, an unexpected token made recovery shift one error symbol
after another without consuming anything.
---
 parser/src/iter.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parser/src/iter.rs b/parser/src/iter.rs
index 5fb18ba..a9eff7d 100644
--- a/parser/src/iter.rs
+++ b/parser/src/iter.rs
@@ -126,11 +126,13 @@ impl<I: IntoIterator, N, E> Parse<N, E> for I
                 None => {
                     let is_eoi = matches!(symbol, TerminalSymbol::EOI);
                     let mut backtracked = false;
+                    // an error symbol was already shifted here for this token: shifting another would never end
+                    let mut repeated = stack.iter().rev().take_while(|(_, symbol)| matches!(symbol, SymbolInternal::Terminal((TerminalSymbol::Error(_), _)))).any(|(state, _)| *state == current_state);
                     let tail = *symbol_index;
                     let mut head = tail;
                     let mut error_head = head;
                     loop {
-                        if !is_eoi || !backtracked {
+                        if !repeated && (!is_eoi || !backtracked) {
                             if let Some(error_rules) = parser.error_rules.get(&current_state) {
                                 if error_recovery_state.is_empty() {
                                     error_recovery_state = error_rules.clone();
@@ -142,6 +144,7 @@ impl<I: IntoIterator, N, E> Parse<N, E> for I
                                 }
                             }
                         }
+                        repeated = false;
                         backtracked = true;
                         if let Some((state, symbol)) = stack.pop() {
                             current_state = state;
-- 
2.43.0


From 96eacdcecd87b6913a0a0a5417935a204bb86ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:55:57 +0000
Subject: [PATCH 8/9] fix: report the conflict between accepting and reducing

A grammar such as A -> A | x silently lost the reduction at the end of input.
---
 parser/src/parser.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parser/src/parser.rs b/parser/src/parser.rs
index dd8008f..5c0f90a 100644
--- a/parser/src/parser.rs
+++ b/parser/src/parser.rs
@@ -249,7 +249,9 @@ fn calc_table<N, T, E>(state_list: HashMap<StateInterop, GotoListInterop>, start
         for item in state {
             if item.position == rules[item.rule].symbols.len() {
                 if item.rule == start_rule {
-                    action.insert(TerminalSymbol::EOI, Action::Accept);
+                    if let Some(Action::Reduce(reduce)) = action.insert(TerminalSymbol::EOI, Action::Accept) {
+                        warnings.push(CalcTableWarning::ReduceReduce { state: current_state.clone(), actions: [reduce, item.rule] });
+                    }
                 } else {
                     match action.get(&item.lookahead_symbol) {
                         None => {
-- 
2.43.0


From 3c39fc5996c73de615d53bd00b02ff4cc9044b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:25:15 +0000
Subject: [PATCH 9/9] fix: let parser! accept grammars without tokens

---
 parser_generator/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser_generator/src/lib.rs b/parser_generator/src/lib.rs
index 88ab46e..6c45327 100644
--- a/parser_generator/src/lib.rs
+++ b/parser_generator/src/lib.rs
@@ -470,8 +470,8 @@ pub fn parser(input: TokenStream) -> TokenStream {
     let symbols = symbols.items.iter().map(|SymbolItem { value, .. }| value); //.map(|symbol|quote!{ #symbol_type_name::#symbol });
     let result = quote! {
         #visibility fn #function_name() -> parser::LR1Parser<#symbol_type_name, #token_type_name, #error>{
-            let tokens = [#(parser::enum_index::EnumIndex::enum_index(&(#token_type_name::#tokens))),*];
-            let symbols = [#(parser::enum_index::EnumIndex::enum_index(&(#symbol_type_name::#symbols))),*];
+            let tokens: &[usize] = &[#(parser::enum_index::EnumIndex::enum_index(&(#token_type_name::#tokens))),*];
+            let symbols: &[usize] = &[#(parser::enum_index::EnumIndex::enum_index(&(#symbol_type_name::#symbols))),*];
             let action_table: std::collections::HashMap<usize, std::collections::HashMap<parser::TerminalSymbol<usize, ()>, parser::Action<usize, usize>>> = #action_table_constructor;
             let goto_table: std::collections::HashMap<usize, std::collections::HashMap<usize, usize>> = #goto_table_constructor;
             let error_rules: std::collections::HashMap<usize, std::collections::HashSet<usize>> = #error_rules_constructor;
-- 
2.43.0

