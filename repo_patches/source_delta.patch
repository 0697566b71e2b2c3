From 5d9dbcfb04bb40ccf66a633e04ccfc7bb9cc8e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:46:16 +0000
Subject: [PATCH 1/8] fix: dropping both halves of a split reader no longer
 spins once one half had fallen behind

clear_buffer() moved the usize::max_value() marker of a dropped reader along with the
real positions, so the marker stopped being recognised and dropping the second reader
looped ~2^64 times.
---
 src/split_reader.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/split_reader.rs b/src/split_reader.rs
index ce96077..e784941 100644
--- a/src/split_reader.rs
+++ b/src/split_reader.rs
@@ -73,7 +73,10 @@ impl<'a, Symbol: Clone> SplitSymbolReaderBuffer<'a, Symbol> {
                 }
 
                 for pos in self.positions.iter_mut() {
-                    *pos -= lowest_pos;
+                    // Readers that have been dropped have no position to move
+                    if *pos < usize::max_value() {
+                        *pos -= lowest_pos;
+                    }
                 }
             }
         }
-- 
2.43.0


From 1e09893aaf9f156840bff575722d4b64b645b1f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:46:16 +0000
Subject: [PATCH 2/8] fix: Tape::rewind refuses to move before the cut even
 when the tape is not at its end

The limit was the size of the whole buffer rather than the number of symbols before the
read position, so a second rewind could pass the cut and read stale buffer entries.
---
 src/tape.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/tape.rs b/src/tape.rs
index afa621e..56bc3f2 100644
--- a/src/tape.rs
+++ b/src/tape.rs
@@ -127,8 +127,15 @@ impl<Symbol: Clone+Sized, SourceReader: SymbolReader<Symbol>> Tape<Symbol, Sourc
     /// Moves backwards by num_symbols
     ///
     pub fn rewind(&mut self, num_symbols: usize) {
-        // Do nothing if we're over the maximum length of the buffer
-        if num_symbols > self.buffer_size() {
+        // Number of symbols between the start of the tape and the current position
+        let symbols_before = if self.first_symbol_index > self.read_index {
+            (self.read_index + self.buffer.len()) - self.first_symbol_index
+        } else {
+            self.read_index - self.first_symbol_index
+        };
+
+        // Can't go back any further than the start of the tape
+        if num_symbols > symbols_before {
             panic!("Can't rewind beyond the start of the tape");
         }
 
-- 
2.43.0


From 0c25e2d3319d5d1877b3c3ccb0b6a570ed96d4b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:46:16 +0000
Subject: [PATCH 3/8] fix: find_overlapping_ranges returns every overlapping
 range of an overlapping map

Only the range directly before the insertion point was considered, so a long range
followed by shorter ones was missed.
---
 src/overlapping_symbols.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/overlapping_symbols.rs b/src/overlapping_symbols.rs
index fc7b91b..a5ad30f 100644
--- a/src/overlapping_symbols.rs
+++ b/src/overlapping_symbols.rs
@@ -108,12 +108,9 @@ impl<Symbol: Ord+Clone+Countable> SymbolMap<Symbol> {
             Err(insert_position) => insert_position
         };
 
-        // Move backwards if the previous position overlaps this one
-        if pos > 0 && self.ranges[pos-1].highest >= range.lowest {
-            pos -= 1;
-        }
+        // Any of the earlier ranges can reach as far as this one (they're only ordered by where they start)
+        result.extend(self.ranges[..pos].iter().filter(|earlier| earlier.highest >= range.lowest));
 
-        // TODO: can we construct a set of ranges such that one is missed here? Think maybe we can
         while pos < self.ranges.len() && self.ranges[pos].lowest <= range.highest {
             result.push(&self.ranges[pos]);
             pos += 1;
-- 
2.43.0


From a564ca38b7d9c448c9e849507aa5cddb3ca1fae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:46:16 +0000
Subject: [PATCH 4/8] fix: char::next/prev step over the surrogate gap

'\\u{d7ff}'.next() was '\\0' and '\\u{e000}'.prev() was '\\u{ffff}', so overlapping ranges
that meet at the gap made the compiler panic or produce wrong ranges.
---
 src/countable.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/countable.rs b/src/countable.rs
index e3a6b21..ff9eafe 100644
--- a/src/countable.rs
+++ b/src/countable.rs
@@ -86,8 +86,9 @@ impl Countable for i64 {
 }
 
 impl Countable for char { 
-    fn next(&self) -> Self { char::from_u32((*self as u32)+1).unwrap_or('\u{0000}') }
-    fn prev(&self) -> Self { char::from_u32((*self as u32)-1).unwrap_or('\u{ffff}') }
+    // (The surrogates between d7ff and e000 are not characters)
+    fn next(&self) -> Self { if *self == '\u{d7ff}' { '\u{e000}' } else { char::from_u32((*self as u32)+1).unwrap_or('\u{0000}') } }
+    fn prev(&self) -> Self { if *self == '\u{e000}' { '\u{d7ff}' } else { char::from_u32((*self as u32)-1).unwrap_or('\u{ffff}') } }
 }
 
 #[cfg(test)]
-- 
2.43.0


From 0f7a31460a0e2ea4297fb8c3c3a10152deabe3ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:46:36 +0000
Subject: [PATCH 5/8] fix: a DFA state always gets the lowest of its output
 symbols

When an NDFA state is joined to more than one accepting state, the compiler was given an
arbitrary one of their output symbols (it depended on the hash order, so it changed from
run to run).
---
 src/dfa_compiler.rs  |  2 +-
 src/ndfa.rs          |  7 +++++++
 src/state_machine.rs | 20 ++++++++++++++++++++
 3 files changed, 28 insertions(+), 1 deletion(-)

diff --git a/src/dfa_compiler.rs b/src/dfa_compiler.rs
index 87d65be..314418e 100644
--- a/src/dfa_compiler.rs
+++ b/src/dfa_compiler.rs
@@ -199,7 +199,7 @@ impl<InputSymbol: Ord+Clone, OutputSymbol: Ord+Clone, DfaType, Ndfa: StateMachin
                     transitions.push((symbol, DfaState::create(vec![state])));
                 }
 
-                if let Some(source_output) = self.ndfa.output_symbol_for_state(*source_state) {
+                for source_output in self.ndfa.output_symbols_for_state(*source_state) {
                     output.push(source_output.clone());
                 }
             }
diff --git a/src/ndfa.rs b/src/ndfa.rs
index 8c67231..fccd9bd 100644
--- a/src/ndfa.rs
+++ b/src/ndfa.rs
@@ -195,6 +195,13 @@ impl<InputSymbol: Clone, OutputSymbol> StateMachine<InputSymbol, OutputSymbol> f
             _ => result
         }
     }
+
+    ///
+    /// Retrieves the output symbols for a particular state and everything that is joined to it
+    ///
+    fn output_symbols_for_state(&self, state: StateId) -> Vec<&OutputSymbol> {
+        self.get_join_closure(state).iter().filter_map(|joined| self.output_symbols.get(joined)).collect()
+    }
 }
 
 impl<InputSymbol : Clone, OutputSymbol> MutableStateMachine<InputSymbol, OutputSymbol> for Ndfa<InputSymbol, OutputSymbol> {
diff --git a/src/state_machine.rs b/src/state_machine.rs
index 7deaaa6..ef18845 100644
--- a/src/state_machine.rs
+++ b/src/state_machine.rs
@@ -53,6 +53,16 @@ pub trait StateMachine<InputSymbol, OutputSymbol> {
     /// If a state is an accepting state, then this returns the output symbol that should be produced if this is the longest match
     ///
     fn output_symbol_for_state(&self, state: StateId) -> Option<&OutputSymbol>;
+
+    ///
+    /// Returns every output symbol that applies to a state
+    ///
+    /// There can be more than one in a nondeterministic state machine: for example when a state is joined to several accepting
+    /// states.
+    ///
+    fn output_symbols_for_state(&self, state: StateId) -> Vec<&OutputSymbol> {
+        self.output_symbol_for_state(state).into_iter().collect()
+    }
 }
 
 ///
@@ -117,6 +127,11 @@ impl<InputSymbol, OutputSymbol> StateMachine<InputSymbol, OutputSymbol> for Rc<S
     fn output_symbol_for_state(&self, state: StateId) -> Option<&OutputSymbol> {
         (**self).output_symbol_for_state(state)
     }
+
+    #[inline]
+    fn output_symbols_for_state(&self, state: StateId) -> Vec<&OutputSymbol> {
+        (**self).output_symbols_for_state(state)
+    }
 }
 
 ///
@@ -137,4 +152,9 @@ impl<'a, InputSymbol, OutputSymbol> StateMachine<InputSymbol, OutputSymbol> for
     fn output_symbol_for_state(&self, state: StateId) -> Option<&OutputSymbol> {
         (**self).output_symbol_for_state(state)
     }
+
+    #[inline]
+    fn output_symbols_for_state(&self, state: StateId) -> Vec<&OutputSymbol> {
+        (**self).output_symbols_for_state(state)
+    }
 }
-- 
2.43.0


From f60384da7593670d64e99220450fb19f7b6b0eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:46:36 +0000
Subject: [PATCH 6/8] fix: empty patterns in a TokenMatcher no longer overwrite
 each other's output symbol

They all end on state 0, so the last one added won rather than the lowest.
---
 src/tokenizer.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/tokenizer.rs b/src/tokenizer.rs
index 253b69e..207ab72 100644
--- a/src/tokenizer.rs
+++ b/src/tokenizer.rs
@@ -67,8 +67,10 @@ impl<InputSymbol: Clone+Ord+Countable+'static, OutputSymbol: Clone+Ord+'static>
             // Compile each pattern starting at state 0
             let end_state = pattern.compile(&mut ndfa, 0);
 
-            // Set the output for this pattern
-            ndfa.set_output_symbol(end_state, output.clone());
+            // Set the output for this pattern (in a state of its own: an empty pattern ends on the start state that they all share)
+            let accept_state = ndfa.count_states();
+            ndfa.join_states(end_state, accept_state);
+            ndfa.set_output_symbol(accept_state, output.clone());
         }
 
         // Clear out any overlapping ranges so we can build a valid DFA
-- 
2.43.0


From cf1a00ce805d93be8f6e7f5e37dd2f6ef6d2cf08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:46 +0000
Subject: [PATCH 7/8] fix: a DFA with output symbols that look like nothing
 when serialized (such as ()) keeps its accepting states

---
 src/symbol_range_dfa.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/symbol_range_dfa.rs b/src/symbol_range_dfa.rs
index 1e8c023..3215537 100644
--- a/src/symbol_range_dfa.rs
+++ b/src/symbol_range_dfa.rs
@@ -42,9 +42,9 @@ pub struct SymbolRangeDfa<InputSymbol: Ord, OutputSymbol> {
     transitions: Vec<(SymbolRange<InputSymbol>, StateId)>,
 
     //
-    // The accepting symbol for each state
+    // The accepting symbol for each state (in a tuple, as formats like JSON can't otherwise tell Some(()) from None once serialized)
     //
-    accept: Vec<Option<OutputSymbol>>
+    accept: Vec<Option<(OutputSymbol,)>>
 }
 
 ///
@@ -53,7 +53,7 @@ pub struct SymbolRangeDfa<InputSymbol: Ord, OutputSymbol> {
 pub struct SymbolRangeDfaBuilder<InputSymbol: Ord+Countable, OutputSymbol> {
     states: Vec<usize>,
     transitions: Vec<(SymbolRange<InputSymbol>, StateId)>,
-    accept: Vec<Option<OutputSymbol>>
+    accept: Vec<Option<(OutputSymbol,)>>
 }
 
 impl<InputSymbol: Ord+Countable, OutputSymbol> SymbolRangeDfaBuilder<InputSymbol, OutputSymbol> {
@@ -95,7 +95,7 @@ impl<InputSymbol: Ord+Countable+Clone, OutputSymbol> DfaBuilder<SymbolRange<Inpu
 
     fn accept(&mut self, symbol: OutputSymbol) {
         self.accept.pop();
-        self.accept.push(Some(symbol));
+        self.accept.push(Some((symbol,)));
     }
 
     fn build(self) -> SymbolRangeDfa<InputSymbol, OutputSymbol> {
@@ -143,7 +143,7 @@ impl<InputSymbol: Ord+Clone, OutputSymbol> StateMachine<SymbolRange<InputSymbol>
     /// If a state is an accepting state, then this returns the output symbol that should be produced if this is the longest match
     ///
     fn output_symbol_for_state(&self, state: StateId) -> Option<&OutputSymbol> {
-        self.accept[state as usize].as_ref()
+        self.accept[state as usize].as_ref().map(|&(ref symbol,)| symbol)
     }
 }
 
@@ -171,7 +171,7 @@ impl<InputSymbol: Ord, OutputSymbol> SymbolRangeDfa<InputSymbol, OutputSymbol> {
     ///
     pub fn start<'a>(&'a self) -> MatchAction<'a, OutputSymbol, SymbolRangeState<'a, InputSymbol, OutputSymbol>> {
         // TODO: if state 0 is accepting, then this will erroneously not move straight to the accepting state
-        if let Some(ref outputsymbol) = self.accept[0] {
+        if let Some((ref outputsymbol,)) = self.accept[0] {
             More(SymbolRangeState { state: 0, count: 0, accept: Some((0, outputsymbol)), state_machine: self })
         } else {
             More(SymbolRangeState { state: 0, count: 0, accept: None, state_machine: self })
@@ -208,7 +208,7 @@ impl<'a, InputSymbol: Ord+'a, OutputSymbol: 'a> MatchingState<'a, InputSymbol, O
                 let new_count = self.count+1;
 
                 // If the new state is an accepting state, then remember it in case we reach a rejecting state later
-                let new_accept = if let Some(ref output) = self.state_machine.accept[new_state as usize] {
+                let new_accept = if let Some((ref output,)) = self.state_machine.accept[new_state as usize] {
                     Some((new_count, output))
                 } else {
                     self.accept
-- 
2.43.0


From 3f040b6df71d84a6f649a6e9b310526f81b4844c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:22 +0000
Subject: [PATCH 8/8] fix: skipping input in a tokenizer doesn't keep what was
 skipped

Only finding a token cut the tape, so a tokenizer over a long source with nothing to match kept all of it
---
 src/tokenizer.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/tokenizer.rs b/src/tokenizer.rs
index 207ab72..a4c436e 100644
--- a/src/tokenizer.rs
+++ b/src/tokenizer.rs
@@ -151,7 +151,12 @@ impl<'a, InputSymbol: Clone+Ord+Countable, OutputSymbol: Clone+Ord+'static, Read
     /// Skips an input symbol (returning the symbol that was skipped)
     ///
     pub fn skip_input(&mut self) -> Option<InputSymbol> {
-        self.tape.next_symbol()
+        let skipped = self.tape.next_symbol();
+
+        // Won't try to match anything before this position
+        self.tape.cut();
+
+        skipped
     }
 
     ///
-- 
2.43.0

