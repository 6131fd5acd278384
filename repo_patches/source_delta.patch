From 7ff5ad390a20ac5c277ed674901b48bae450e05f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:40 +0000
Subject: [PATCH 01/41] fix: escaped skipped a token when its parser failed
 after peeking

The input was not reset to where `parser` started before looking for the
escape token, so a token that `parser` had rejected was dropped. A consumed
escape token is also recorded as committed even if `escape_parser` consumes
nothing.
---
 src/parser/repeat.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/parser/repeat.rs b/src/parser/repeat.rs
index 27543c3..7fce332 100644
--- a/src/parser/repeat.rs
+++ b/src/parser/repeat.rs
@@ -1394,24 +1394,24 @@ where
     fn parse_lazy(&mut self, input: &mut Input) -> ParseResult<Self::Output, Input::Error> {
         let mut committed = Commit::Peek(());
         loop {
+            let checkpoint = input.checkpoint();
             match self.parser.parse_lazy(input) {
                 PeekOk(_) => {}
                 CommitOk(_) => {
                     committed = Commit::Commit(());
                 }
                 PeekErr(_) => {
-                    let checkpoint = input.checkpoint();
+                    // `parser` may have advanced the input before failing
+                    ctry!(input.reset(checkpoint.clone()).committed());
                     match uncons(input) {
                         CommitOk(ref c) | PeekOk(ref c) if *c == self.escape => {
+                            committed = Commit::Commit(());
                             match self.escape_parser.parse_committed_mode(
                                 FirstMode,
                                 input,
                                 &mut Default::default(),
                             ) {
-                                PeekOk(_) => {}
-                                CommitOk(_) => {
-                                    committed = Commit::Commit(());
-                                }
+                                PeekOk(_) | CommitOk(_) => {}
                                 CommitErr(err) => return CommitErr(err),
                                 PeekErr(err) => {
                                     return CommitErr(err.error);
-- 
2.43.0


From 8abfaeabecc2ccdf91fb24940d2d9958e903583a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:02 +0000
Subject: [PATCH 02/41] fix: chainr1 dropped an operator which was not followed
 by an operand

When the right operand failed the input was reset to after the operator
instead of before it, so the operator was silently consumed. A consumed
operator now commits the parser, like it does in chainl1.
---
 src/parser/repeat.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/parser/repeat.rs b/src/parser/repeat.rs
index 7fce332..9ac54d4 100644
--- a/src/parser/repeat.rs
+++ b/src/parser/repeat.rs
@@ -1084,25 +1084,25 @@ where
         let (mut l, mut committed) = ctry!(self.0.parse_lazy(input));
         loop {
             let before = input.checkpoint();
-            let op = match self.1.parse_lazy(input).into() {
-                Ok((x, rest)) => {
-                    committed = committed.merge(rest);
-                    x
-                }
+            let (op, op_committed) = match self.1.parse_lazy(input).into() {
+                Ok((op, op_committed)) => (op, op_committed),
                 Err(Commit::Commit(err)) => return CommitErr(err.error),
                 Err(Commit::Peek(_)) => {
                     ctry!(input.reset(before).committed());
                     break;
                 }
             };
-            let before = input.checkpoint();
-            match self.parse_lazy(input).into() {
+            match self.parse_stream(input).into() {
                 Ok((r, rest)) => {
                     l = op(l, r);
-                    committed = committed.merge(rest);
+                    committed = committed.merge(op_committed).merge(rest);
                 }
                 Err(Commit::Commit(err)) => return CommitErr(err.error),
-                Err(Commit::Peek(_)) => {
+                Err(Commit::Peek(err)) => {
+                    // An operator which has been consumed must be followed by an operand
+                    if !op_committed.is_peek() {
+                        return CommitErr(err.error);
+                    }
                     ctry!(input.reset(before).committed());
                     break;
                 }
-- 
2.43.0


From 75b0bad3b0fc4ec1ef63d86d897ac3bee89142c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:58 +0000
Subject: [PATCH 03/41] fix: function parsers lost input that was consumed
 before a partial stream ran out

FnParser, EnvParser and the function types keep no partial state, so input
which they consumed before failing at the end of the available input was
removed from the stream and never parsed. Reset the input, as parse_lazy
already does for other parsers without a state of their own.
---
 src/parser/function.rs |  9 +++++----
 src/parser/mod.rs      | 39 ++++++++++++++++++++++++++-------------
 2 files changed, 31 insertions(+), 17 deletions(-)

diff --git a/src/parser/function.rs b/src/parser/function.rs
index 4d93b4a..34a3098 100644
--- a/src/parser/function.rs
+++ b/src/parser/function.rs
@@ -3,6 +3,7 @@
 use crate::{
     error::{ParseResult, StdParseResult},
     lib::marker::PhantomData,
+    parser::parse_stateless,
     stream::Stream,
     Parser,
 };
@@ -15,7 +16,7 @@ impl<'a, Input: Stream, O> Parser<Input>
 
     #[inline]
     fn parse_lazy(&mut self, input: &mut Input) -> ParseResult<O, Input::Error> {
-        self(input).into()
+        parse_stateless(input, |input| self(input).into())
     }
 }
 
@@ -76,7 +77,7 @@ where
 
     #[inline]
     fn parse_lazy(&mut self, input: &mut Input) -> ParseResult<O, Input::Error> {
-        (self.0)(input).into()
+        parse_stateless(input, |input| (self.0)(input).into())
     }
 }
 
@@ -89,7 +90,7 @@ where
 
     #[inline]
     fn parse_lazy(&mut self, input: &mut Input) -> ParseResult<O, Input::Error> {
-        self(input).into()
+        parse_stateless(input, |input| self(input).into())
     }
 }
 
@@ -125,7 +126,7 @@ where
 
     #[inline]
     fn parse_lazy(&mut self, input: &mut Input) -> ParseResult<O, Input::Error> {
-        (self.parser)(self.env.clone(), input).into()
+        parse_stateless(input, |input| (self.parser)(self.env.clone(), input).into())
     }
 }
 
diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 24e880b..16b7262 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -31,6 +31,30 @@ use self::{
 use alloc::boxed::Box;
 
 /// Internal API. May break without a semver bump
+/// Runs `parse` which does not keep any state that would let it resume where it ran out of input.
+///
+/// On a partial stream the input is reset to before `parse` on errors that committed data, as
+/// `parse` must then start from the beginning when there is more input.
+#[inline]
+pub(crate) fn parse_stateless<Input, O>(
+    input: &mut Input,
+    parse: impl FnOnce(&mut Input) -> ParseResult<O, <Input as StreamOnce>::Error>,
+) -> ParseResult<O, <Input as StreamOnce>::Error>
+where
+    Input: ?Sized + Stream,
+{
+    if input.is_partial() {
+        let before = input.checkpoint();
+        let result = parse(input);
+        if let CommitErr(_) = result {
+            ctry!(input.reset(before).committed());
+        }
+        result
+    } else {
+        parse(input)
+    }
+}
+
 #[macro_export]
 #[doc(hidden)]
 macro_rules! parse_mode {
@@ -181,20 +205,9 @@ pub trait Parser<Input: Stream> {
         &mut self,
         input: &mut Input,
     ) -> ParseResult<Self::Output, <Input as StreamOnce>::Error> {
-        if input.is_partial() {
-            // If a partial parser were called from a non-partial parser (as it is here) we must
-            // reset the input to before the partial parser were called on errors that committed
-            // data as that parser's partial state was just temporary and it will not be able to
-            // resume itself
-            let before = input.checkpoint();
-            let result = self.parse_first(input, &mut Default::default());
-            if let CommitErr(_) = result {
-                ctry!(input.reset(before).committed());
-            }
-            result
-        } else {
+        parse_stateless(input, |input| {
             self.parse_first(input, &mut Default::default())
-        }
+        })
     }
 
     /// Adds the first error that would normally be returned by this parser if it failed with an
-- 
2.43.0


From cf0e6d73439a12e5dae364f78714528748d7c963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:59 +0000
Subject: [PATCH 04/41] fix: tokens and tokens_cmp lost the tokens matched
 before a partial stream ran out

They do not keep any partial state so the input must be reset when more of
it is needed. `string("abc")` never matched if its input arrived as "a" and
then "bc".
---
 src/parser/token.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/parser/token.rs b/src/parser/token.rs
index fe41421..04f3286 100644
--- a/src/parser/token.rs
+++ b/src/parser/token.rs
@@ -239,6 +239,7 @@ where
     #[inline]
     fn parse_lazy(&mut self, input: &mut Input) -> ParseResult<T, Input::Error> {
         let start = input.position();
+        let before = input.checkpoint();
         let mut committed = false;
         for c in self.tokens.clone() {
             match crate::stream::uncons(input) {
@@ -266,6 +267,8 @@ where
                     };
                 }
                 CommitErr(mut error) => {
+                    // More input is needed, all of the tokens are compared again once it arrives
+                    ctry!(input.reset(before).committed());
                     error.set_position(start);
                     return CommitErr(error);
                 }
@@ -343,6 +346,7 @@ where
     #[inline]
     fn parse_lazy(&mut self, input: &mut Input) -> ParseResult<T, Input::Error> {
         let start = input.position();
+        let before = input.checkpoint();
         let mut committed = false;
         for c in self.tokens.clone() {
             match crate::stream::uncons(input) {
@@ -369,6 +373,8 @@ where
                     };
                 }
                 CommitErr(mut error) => {
+                    // More input is needed, all of the tokens are compared again once it arrives
+                    ctry!(input.reset(before).committed());
                     error.set_position(start);
                     return CommitErr(error);
                 }
-- 
2.43.0


From 6cc648e6edf97917d808c40e57e1abecee2a5f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:01 +0000
Subject: [PATCH 05/41] fix: parser! parsers without a PartialState lost input
 when a partial stream ran out

The state of the inner parser is temporary if no PartialState is declared,
so input which it consumed must be kept in the stream. Affects `count` and
`length_prefix` as well as user defined parsers.
---
 src/lib.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 04faeda..8a44bf1 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -402,10 +402,9 @@ macro_rules! parser {
 #[macro_export]
 macro_rules! combine_parse_partial {
     ((()) $mode:ident $input:ident $state:ident $parser:block) => {{
-        let _ = $state;
-        let mut state = Default::default();
-        let state = &mut state;
-        $parser.parse_mode($mode, $input, state)
+        // Without a state there is nothing which could be resumed
+        let _ = ($mode, $state);
+        $parser.parse_lazy($input)
     }};
     (($ignored:ty) $mode:ident $input:ident $state:ident $parser:block) => {
         $parser.parse_mode($mode, $input, $state)
-- 
2.43.0


From f917cca7167beb2279f02aa7f3faf608b3670028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:04 +0000
Subject: [PATCH 06/41] fix: chainr1 and escaped lost input when a partial
 stream ran out

Neither keeps a usable partial state so, as with other such parsers, the
input has to be reset when it ends before the parser does.
---
 src/parser/repeat.rs | 47 +++++++++++++++++++++++++++++++++-----------
 1 file changed, 36 insertions(+), 11 deletions(-)

diff --git a/src/parser/repeat.rs b/src/parser/repeat.rs
index 9ac54d4..7acdb1b 100644
--- a/src/parser/repeat.rs
+++ b/src/parser/repeat.rs
@@ -11,6 +11,7 @@ use crate::{
         choice::{optional, Optional, Or},
         combinator::{ignore, Ignore},
         function::{parser, FnParser},
+        parse_stateless,
         sequence::With,
         token::{value, Value},
         FirstMode, ParseMode,
@@ -1080,6 +1081,21 @@ where
     type PartialState = ();
     #[inline]
     fn parse_lazy(&mut self, input: &mut Input) -> ParseResult<P::Output, Input::Error> {
+        parse_stateless(input, |input| self.parse_chain(input))
+    }
+    fn add_error(&mut self, errors: &mut Tracked<<Input as StreamOnce>::Error>) {
+        self.0.add_error(errors)
+    }
+}
+
+impl<P, Op> Chainr1<P, Op> {
+    fn parse_chain<Input>(&mut self, input: &mut Input) -> ParseResult<P::Output, Input::Error>
+    where
+        Input: Stream,
+        P: Parser<Input>,
+        Op: Parser<Input>,
+        Op::Output: FnOnce(P::Output, P::Output) -> P::Output,
+    {
         // FIXME FastResult
         let (mut l, mut committed) = ctry!(self.0.parse_lazy(input));
         loop {
@@ -1110,9 +1126,6 @@ where
         }
         Ok((l, committed)).into()
     }
-    fn add_error(&mut self, errors: &mut Tracked<<Input as StreamOnce>::Error>) {
-        self.0.add_error(errors)
-    }
 }
 
 /// Parses `p` one or more times separated by `op`. The value returned is the one produced by the
@@ -1392,6 +1405,26 @@ where
     type PartialState = EscapedState<P::PartialState, Q::PartialState>;
 
     fn parse_lazy(&mut self, input: &mut Input) -> ParseResult<Self::Output, Input::Error> {
+        parse_stateless(input, |input| self.parse_escaped(input))
+    }
+
+    fn add_error(&mut self, errors: &mut Tracked<<Input as StreamOnce>::Error>) {
+        use crate::error;
+
+        self.parser.add_error(errors);
+
+        errors.error.add_expected(error::Token(self.escape.clone()));
+    }
+}
+
+impl<P, Q, T> Escaped<P, Q, T> {
+    fn parse_escaped<Input>(&mut self, input: &mut Input) -> ParseResult<(), Input::Error>
+    where
+        Input: Stream<Token = T>,
+        P: Parser<Input>,
+        T: PartialEq,
+        Q: Parser<Input>,
+    {
         let mut committed = Commit::Peek(());
         loop {
             let checkpoint = input.checkpoint();
@@ -1435,14 +1468,6 @@ where
             }
         }
     }
-
-    fn add_error(&mut self, errors: &mut Tracked<<Input as StreamOnce>::Error>) {
-        use crate::error;
-
-        self.parser.add_error(errors);
-
-        errors.error.add_expected(error::Token(self.escape.clone()));
-    }
 }
 
 /// Parses an escaped string by first applying `parser` which accept the normal characters which do
-- 
2.43.0


From 49615e2cb780c8bb6613794005e8217b1a85d551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:14 +0000
Subject: [PATCH 07/41] fix: sequences forgot what had been parsed when they
 were resumed

A tuple did not remember across a partial parse that its earlier parsers had
committed, so a later failure was reported as if nothing had been consumed
and e.g. `many((a, b))` succeeded and dropped the input of `a`. The values of
a failed sequence were also left in the state and could be picked up by a
later parse.
---
 src/parser/sequence.rs | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/parser/sequence.rs b/src/parser/sequence.rs
index 8e0ecc9..9cb92c1 100644
--- a/src/parser/sequence.rs
+++ b/src/parser/sequence.rs
@@ -94,6 +94,7 @@ macro_rules! tuple_parser {
             )*
             #[allow(dead_code)]
             offset: u8,
+            first_empty_parser: usize,
             _marker: PhantomData <( $h, $( $id),* )>,
         }
 
@@ -164,16 +165,22 @@ macro_rules! tuple_parser {
                 MODE: ParseMode,
             {
                 let (ref mut $h, $(ref mut $id),*) = *self;
-                let mut first_empty_parser = 0;
+                // When resuming, the parsers which already succeeded may have committed
+                let mut first_empty_parser = if mode.is_first() { 0 } else { state.first_empty_parser };
                 #[allow(unused_mut)]
                 let mut current_parser = 0;
 
                 #[allow(unused_macros)]
                 macro_rules! add_errors {
                     ($err: ident, $offset: expr) => {
-                        $partial_state::add_errors(
-                            input, $err, first_empty_parser, $offset, $h, $($id),*
-                        )
+                        {
+                            let offset = $offset;
+                            // Do not leave any values behind for the next time the parser is used
+                            *state = Default::default();
+                            $partial_state::add_errors(
+                                input, $err, first_empty_parser, offset, $h, $($id),*
+                            )
+                        }
                     }
                 }
 
@@ -199,8 +206,8 @@ macro_rules! tuple_parser {
                 }
 
                 $(
+                    current_parser += 1;
                     if mode.is_first() || state.$id.value.is_none() {
-                        current_parser += 1;
                         let before = input.checkpoint();
                         let temp = match $id.parse_mode(mode, input, &mut state.$id.state) {
                             CommitOk(x) => {
@@ -217,7 +224,10 @@ macro_rules! tuple_parser {
                                 }
                                 return add_errors!(err, state.offset)
                             }
-                            CommitErr(err) => return CommitErr(err),
+                            CommitErr(err) => {
+                                state.first_empty_parser = first_empty_parser;
+                                return CommitErr(err);
+                            }
                             PeekOk(x) => {
                                 x
                             }
@@ -234,6 +244,7 @@ macro_rules! tuple_parser {
 
                 // SAFETY: requires both $h and $id to be set, see previous SAFETY comments
                 let value = unsafe { (state.$h.unwrap_value(), $(state.$id.unwrap_value()),*) };
+                state.first_empty_parser = 0;
                 if first_empty_parser != 0 {
                     CommitOk(value)
                 } else {
-- 
2.43.0


From b518da144e48a686c196101f8ae02f24c4e28f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:44 +0000
Subject: [PATCH 08/41] fix: repetitions forgot that they had committed when
 they were resumed

`many`, `many1` and `count_min_max` only looked at what was parsed since the
last time a partial parse was resumed to decide whether they committed.
`count_min_max` also left the elements of a failed parse in its state.
---
 src/parser/repeat.rs | 36 ++++++++++++++++++++++++++++++++----
 1 file changed, 32 insertions(+), 4 deletions(-)

diff --git a/src/parser/repeat.rs b/src/parser/repeat.rs
index 7acdb1b..3349c93 100644
--- a/src/parser/repeat.rs
+++ b/src/parser/repeat.rs
@@ -124,7 +124,7 @@ where
     F: Extend<P::Output> + Default,
 {
     type Output = F;
-    type PartialState = (usize, F, P::PartialState);
+    type PartialState = (usize, F, bool, P::PartialState);
 
     parse_mode!(Input);
     #[inline]
@@ -137,20 +137,28 @@ where
     where
         M: ParseMode,
     {
-        let (count, elements, child_state) = state;
+        let (count, elements, committed_state, child_state) = state;
 
         let mut iter = self.parser.by_ref().partial_iter(mode, input, child_state);
+        iter.resume_commit(committed_state);
         let remaining_min = self.min.saturating_sub(*count);
         let remaining_max = self.max - *count;
         elements.extend(suggest_size_hint(
             iter.by_ref().take(remaining_max).inspect(|_| *count += 1),
             (remaining_min, Some(remaining_max)),
         ));
+        iter.store_commit(committed_state);
         if *count < self.min {
             let err = StreamError::message_format(format_args!(
                 "expected {} more elements",
                 self.min - *count
             ));
+            if let State::CommitErr(_) = iter.state {
+            } else {
+                // Do not leave the elements behind for the next time the parser is used
+                *count = 0;
+                *elements = F::default();
+            }
             iter.fail(err)
         } else {
             iter.into_result_fast(elements).map(|x| {
@@ -266,6 +274,23 @@ where
             mode,
         }
     }
+
+    /// Restores whether an earlier, partial parse committed
+    fn resume_commit(&mut self, committed_state: &mut bool)
+    where
+        M: ParseMode,
+    {
+        self.committed = !self.mode.is_first() && *committed_state;
+    }
+
+    /// Stores whether the iterator has committed in case the parse is to be resumed later
+    fn store_commit(&self, committed_state: &mut bool) {
+        *committed_state = match self.state {
+            State::CommitErr(_) => self.committed,
+            State::Ok | State::PeekErr(_) => false,
+        };
+    }
+
     /// Converts the iterator to a `ParseResult`, returning `Ok` if the parsing so far has be done
     /// without any errors which committed data.
     pub fn into_result<O>(self, value: O) -> StdParseResult<O, Input> {
@@ -385,7 +410,7 @@ where
     F: Extend<P::Output> + Default,
 {
     type Output = F;
-    type PartialState = (F, P::PartialState);
+    type PartialState = (F, bool, P::PartialState);
 
     parse_mode!(Input);
     #[inline]
@@ -399,10 +424,12 @@ where
         M: ParseMode,
     {
         // TODO
-        let (ref mut elements, ref mut child_state) = *state;
+        let (ref mut elements, ref mut committed_state, ref mut child_state) = *state;
 
         let mut iter = (&mut self.0).partial_iter(mode, input, child_state);
+        iter.resume_commit(committed_state);
         elements.extend(iter.by_ref());
+        iter.store_commit(committed_state);
         iter.into_result_fast(elements)
     }
 
@@ -493,6 +520,7 @@ where
             mode,
         };
         elements.extend(iter.by_ref());
+        iter.store_commit(committed_state);
 
         iter.into_result_fast(elements).map(|x| {
             *parsed_one = false;
-- 
2.43.0


From 5a54d4678bef0d19b2745f405b4ae6c1020f8e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:44 +0000
Subject: [PATCH 09/41] fix: sep_by and sep_by1 parsed their first element
 again when they were resumed

`parsed_one` was never set so a partial parse which was resumed after the
first element expected another element where a separator was due.
---
 src/parser/repeat.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parser/repeat.rs b/src/parser/repeat.rs
index 3349c93..9b8c5a9 100644
--- a/src/parser/repeat.rs
+++ b/src/parser/repeat.rs
@@ -753,6 +753,7 @@ where
                     ctry!(self
                         .parser
                         .parse_mode(mode, input, &mut child_state.B.state));
+                *parsed_one = Some(rest);
                 elements.extend(Some(first));
                 rest
             }
@@ -764,6 +765,10 @@ where
 
             elements.extend(iter.by_ref());
 
+            if iter.committed {
+                *parsed_one = Some(Commit::Commit(()));
+            }
+
             iter.into_result_fast(elements).map(|x| {
                 *parsed_one = None;
                 x
-- 
2.43.0


From a6b4ce26be7fb9188819c37dbc37b92eb0aea7a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:45 +0000
Subject: [PATCH 10/41] fix: iterate left the elements of a failed parse in its
 state

If the parser was tried again, after it failed without committing, it would
return those elements as well.
---
 src/parser/repeat.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/parser/repeat.rs b/src/parser/repeat.rs
index 9b8c5a9..bd4b153 100644
--- a/src/parser/repeat.rs
+++ b/src/parser/repeat.rs
@@ -1636,7 +1636,13 @@ where
         })();
 
         if let Err((item, err)) = result {
-            *next_item = Some(item);
+            if let PeekErr(_) = err {
+                // Do not leave the elements behind for the next time the parser is used
+                *opt_iter = None;
+                *buf = F::default();
+            } else {
+                *next_item = Some(item);
+            }
             return err;
         }
 
-- 
2.43.0


From e8cd564c0baf1e8a146c6e9b42390a6e8ef986a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:48 +0000
Subject: [PATCH 11/41] fix: choice over arrays and slices committed to an
 alternative that consumed nothing

If the first alternatives ran out of input without consuming any, the later
ones were never tried when the parse was resumed. Handle this in the same way
as choice over tuples does. Both also kept resuming an alternative after it
had failed.
---
 src/parser/choice.rs | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/src/parser/choice.rs b/src/parser/choice.rs
index ad976a7..24052ce 100644
--- a/src/parser/choice.rs
+++ b/src/parser/choice.rs
@@ -7,6 +7,7 @@ use crate::{
         ParseResult::{self, *},
         ResultExt, StreamError, Tracked,
     },
+    lib::mem,
     parser::ParseMode,
     ErrorOffset, Parser, Stream, StreamOnce,
 };
@@ -271,8 +272,10 @@ macro_rules! tuple_choice_parser_inner {
                                     }
                                     _ => unreachable!()
                                 };
-                                if result.is_ok() {
-                                    *state = self::$partial_state::Peek;
+                                match result {
+                                    CommitErr(_) => (),
+                                    // Finished, so start over the next time
+                                    _ => *state = self::$partial_state::Peek,
                                 }
                                 result
                             }
@@ -395,16 +398,18 @@ where
 {
     let mut prev_err = None;
     let mut last_parser_having_non_1_offset = 0;
+    let before_position = input.position();
     let before = input.checkpoint();
 
     let (ref mut index_state, ref mut child_state) = *state;
     if !mode.is_first() && *index_state != 0 {
-        return self_[*index_state - 1]
-            .parse_partial(input, child_state)
-            .map(|x| {
-                *index_state = 0;
-                x
-            });
+        let result = self_[*index_state - 1].parse_partial(input, child_state);
+        match result {
+            CommitErr(_) => (),
+            // Finished, so start over the next time
+            _ => *index_state = 0,
+        }
+        return result;
     }
 
     for i in 0..self_.len() {
@@ -412,7 +417,15 @@ where
 
         match self_[i].parse_mode(mode, input, child_state) {
             committed_err @ CommitErr(_) => {
-                *index_state = i + 1;
+                // If we get `CommitErr` but the input is the same this is a partial parse we
+                // cannot commit to so leave the state as it was to retry all the parsers on the
+                // next call to `parse_partial` (unless positions can not tell us if it is the same)
+                if input.position() != before_position || mem::size_of::<Input::Position>() == 0 {
+                    *index_state = i + 1;
+                } else {
+                    *index_state = 0;
+                    *child_state = Default::default();
+                }
                 return committed_err;
             }
             PeekErr(err) => {
-- 
2.43.0


From 7789145ed9678a608fdf547d414bf4ec17c19c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:47 +0000
Subject: [PATCH 12/41] fix: take_until_range treated a character boundary
 error as the end of the input

If the range would have ended inside of a character the position was
remembered as the place where the input ran out and, on partial streams, the
character boundary error was returned instead of asking for more input. The
resume position is also no longer kept after the search has failed, which
made other parsers sharing the state (`choice([..])`) skip input.
---
 src/parser/range.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/parser/range.rs b/src/parser/range.rs
index 46353eb..f5c2492 100644
--- a/src/parser/range.rs
+++ b/src/parser/range.rs
@@ -480,7 +480,9 @@ where
                     // fail as only one `:` is present at this parse attempt. But when we later resume
                     // with more input we must start parsing again at the first time we errored so we
                     // can see the entire `::`
-                    if first_stream_error.is_none() {
+                    // Errors which are not caused by the end of the input (`range` ending inside of
+                    // a character) only mean that there is no match at this place
+                    if first_stream_error.is_none() && first_error.is_unexpected_end_of_input() {
                         first_stream_error = Some((first_error, input.distance(&before)));
                     }
 
@@ -488,12 +490,19 @@ where
                     ctry!(input.reset(look_ahead_input).committed());
 
                     // See if we can advance anyway
-                    if input.uncons().is_err() {
-                        let (first_error, first_error_distance) = first_stream_error.unwrap();
+                    if let Err(err) = input.uncons() {
+                        let (first_error, first_error_distance) = match first_stream_error {
+                            Some(x) => x,
+                            None => (err, input.distance(&before)),
+                        };
 
                         // Reset the stream
                         ctry!(input.reset(before).committed());
-                        *to_consume = first_error_distance;
+                        *to_consume = if input.is_partial() {
+                            first_error_distance
+                        } else {
+                            0
+                        };
 
                         // Return the original error if uncons failed
                         return wrap_stream_error(input, first_error);
-- 
2.43.0


From 21f7b75fcb948d65e5153b9c512f1ea58d5d7325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:48 +0000
Subject: [PATCH 13/41] fix: take_fn forgot what it had searched when it was
 resumed

The offset returned by the searcher is relative to the range it was given,
which starts after what an earlier, partial parse searched.
---
 src/parser/range.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/parser/range.rs b/src/parser/range.rs
index f5c2492..ae07583 100644
--- a/src/parser/range.rs
+++ b/src/parser/range.rs
@@ -590,6 +590,7 @@ where
         } else {
             let _ = input.uncons_range(*offset);
         }
+        let searched = *offset;
 
         match (self.searcher)(input.range()).into() {
             TakeRange::Found(i) => {
@@ -601,7 +602,7 @@ where
                 result
             }
             TakeRange::NotFound(next_offset) => {
-                *offset = next_offset;
+                *offset = searched + next_offset;
 
                 let range = input.range();
                 let _ = input.uncons_range(range.len());
@@ -609,7 +610,7 @@ where
                 ctry!(input.reset(checkpoint).committed());
 
                 let err = Input::Error::from_error(position, StreamError::end_of_input());
-                if !input.is_partial() && range.is_empty() {
+                if !input.is_partial() && range.is_empty() && searched == 0 {
                     PeekErr(err.into())
                 } else {
                     CommitErr(err)
-- 
2.43.0


From 77baf96eeae227e05c4a2ef49b783512ab4560d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:46 +0000
Subject: [PATCH 14/41] fix: recognize left its partial state behind when its
 parser failed

---
 src/parser/combinator.rs | 5 ++++-
 src/parser/range.rs      | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/parser/combinator.rs b/src/parser/combinator.rs
index 97bae9a..6873cf9 100644
--- a/src/parser/combinator.rs
+++ b/src/parser/combinator.rs
@@ -491,7 +491,10 @@ impl<F, P> Recognize<F, P> {
                 }
                 CommitErr(err)
             }
-            PeekErr(err) => PeekErr(err),
+            PeekErr(err) => {
+                *elements = F::default();
+                PeekErr(err)
+            }
         }
     }
 }
diff --git a/src/parser/range.rs b/src/parser/range.rs
index ae07583..dfc9fcf 100644
--- a/src/parser/range.rs
+++ b/src/parser/range.rs
@@ -178,7 +178,10 @@ where
 
         let value = match self.0.parse_mode(mode, input, child_state) {
             CommitOk(x) | PeekOk(x) => x,
-            PeekErr(err) => return PeekErr(err),
+            PeekErr(err) => {
+                *distance_state = 0;
+                return PeekErr(err);
+            }
             CommitErr(err) => {
                 *distance_state = input.distance(&before);
                 ctry!(input.reset(before).committed());
-- 
2.43.0


From 359a560413871a9c22876cbb550852a23422b3b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:48 +0000
Subject: [PATCH 15/41] fix: not_followed_by succeeded if its parser ran out of
 partial input

Whether the parser succeeds is not known until there is more input. The
partial state of a parser which failed after committing was also kept even
though the input is reset.
---
 src/parser/combinator.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/parser/combinator.rs b/src/parser/combinator.rs
index 6873cf9..89e82bb 100644
--- a/src/parser/combinator.rs
+++ b/src/parser/combinator.rs
@@ -44,7 +44,17 @@ where
         ctry!(input.reset(checkpoint).committed());
         match result {
             CommitOk(_) | PeekOk(_) => PeekErr(Input::Error::empty(input.position()).into()),
-            CommitErr(_) | PeekErr(_) => PeekOk(()),
+            CommitErr(err) => {
+                // The input has been reset so `parser` must start from the beginning the next time
+                *state = Default::default();
+                if input.is_partial() && err.is_unexpected_end_of_input() {
+                    // `parser` may still succeed when there is more input
+                    CommitErr(err)
+                } else {
+                    PeekOk(())
+                }
+            }
+            PeekErr(_) => PeekOk(()),
         }
     }
 
-- 
2.43.0


From 7ae9da18d24d90ef8ce3f451f2ade14049fdde38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:49 +0000
Subject: [PATCH 16/41] fix: attempt could not backtrack over input from before
 it was resumed

Input which was consumed by the parser was removed from a partial stream when
it ran out, so when the parser failed after it was resumed the alternatives
were tried in the middle of that input. Keep it in the stream, remembering how
much of it has been parsed. The state of a parser which failed is also
discarded so that it does not affect the next parse.
---
 src/parser/combinator.rs | 54 ++++++++++++++++++++++++++++++++++++++--
 1 file changed, 52 insertions(+), 2 deletions(-)

diff --git a/src/parser/combinator.rs b/src/parser/combinator.rs
index 89e82bb..d1c1c1a 100644
--- a/src/parser/combinator.rs
+++ b/src/parser/combinator.rs
@@ -18,6 +18,48 @@ use alloc::{boxed::Box, string::String, vec::Vec};
 #[cfg(feature = "alloc")]
 use crate::lib::any::Any;
 
+/// Resets `input` to `before` and stores how many tokens were parsed since then in `parsed`, so that
+/// a partial parser can be resumed without losing the ability to backtrack to `before`.
+pub(crate) fn rewind_parsed<Input, S>(
+    input: &mut Input,
+    before: Input::Checkpoint,
+    parsed: &mut usize,
+    state: &mut S,
+) where
+    Input: Stream,
+    S: Default,
+{
+    let end = input.position();
+    *parsed = 0;
+    if input.reset(before.clone()).is_err() {
+        // The stream can't backtrack, continue from where it is
+        return;
+    }
+    if mem::size_of::<Input::Position>() == 0 {
+        // Without positions we can not tell how far we got so start over instead
+        *state = S::default();
+        return;
+    }
+    while input.position() != end && input.uncons().is_ok() {
+        *parsed += 1;
+    }
+    let _ = input.reset(before);
+}
+
+/// Advances `input` past the tokens that were parsed before `rewind_parsed`.
+pub(crate) fn skip_parsed<M, Input>(mode: M, input: &mut Input, parsed: &mut usize)
+where
+    M: ParseMode,
+    Input: Stream,
+{
+    let parsed = mem::replace(parsed, 0);
+    if !mode.is_first() {
+        for _ in 0..parsed {
+            let _ = input.uncons();
+        }
+    }
+}
+
 #[derive(Copy, Clone)]
 pub struct NotFollowedBy<P>(P);
 impl<Input, O, P> Parser<Input> for NotFollowedBy<P>
@@ -104,7 +146,7 @@ where
     P: Parser<Input, Output = O>,
 {
     type Output = O;
-    type PartialState = P::PartialState;
+    type PartialState = (usize, P::PartialState);
 
     #[inline]
     fn parse_stream(&mut self, input: &mut Input) -> ParseResult<O, <Input as StreamOnce>::Error> {
@@ -135,12 +177,20 @@ where
     where
         M: ParseMode,
     {
-        match self.0.parse_committed_mode(mode, input, state) {
+        let (ref mut parsed, ref mut child_state) = *state;
+
+        let before = input.checkpoint();
+        skip_parsed(mode, input, parsed);
+        match self.0.parse_committed_mode(mode, input, child_state) {
             v @ CommitOk(_) | v @ PeekOk(_) | v @ PeekErr(_) => v,
             CommitErr(err) => {
                 if input.is_partial() && err.is_unexpected_end_of_input() {
+                    // Keep the input so that it is still there to be reset to if `parser` fails
+                    // after it has been resumed
+                    rewind_parsed(input, before, parsed, child_state);
                     CommitErr(err)
                 } else {
+                    *child_state = Default::default();
                     PeekErr(err.into())
                 }
             }
-- 
2.43.0


From 6105b5edd43a82472c699da1948dc198ff5ffe5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:21 +0000
Subject: [PATCH 17/41] fix: take_until and repeat_until resumed `end` at the
 wrong place

The input was reset to where `end` started but the state of `end` was kept, so
`end` was resumed in the middle while its first tokens were parsed again.
`take_until(attempt((token(':'), token(';'))))` missed a terminator which was
split over two chunks. They also kept partial state, such as the output, after
failing without committing, and forgot across a resume that they committed.
---
 src/parser/repeat.rs | 84 +++++++++++++++++++++++++++++++++-----------
 1 file changed, 63 insertions(+), 21 deletions(-)

diff --git a/src/parser/repeat.rs b/src/parser/repeat.rs
index bd4b153..f5f96cf 100644
--- a/src/parser/repeat.rs
+++ b/src/parser/repeat.rs
@@ -9,7 +9,7 @@ use crate::{
     lib::{borrow::BorrowMut, cmp, marker::PhantomData, mem},
     parser::{
         choice::{optional, Optional, Or},
-        combinator::{ignore, Ignore},
+        combinator::{ignore, rewind_parsed, skip_parsed, Ignore},
         function::{parser, FnParser},
         parse_stateless,
         sequence::With,
@@ -1197,39 +1197,55 @@ where
     P: Parser<Input>,
 {
     type Output = F;
-    type PartialState = (F, P::PartialState);
+    type PartialState = (F, bool, usize, P::PartialState);
 
     parse_mode!(Input);
     #[inline]
     fn parse_mode_impl<M>(
         &mut self,
-        mode: M,
+        mut mode: M,
         input: &mut Input,
         state: &mut Self::PartialState,
     ) -> ParseResult<Self::Output, Input::Error>
     where
         M: ParseMode,
     {
-        let (ref mut output, ref mut end_state) = *state;
+        let (ref mut output, ref mut committed, ref mut parsed, ref mut end_state) = *state;
 
-        let mut committed = Commit::Peek(());
         loop {
             let before = input.checkpoint();
+            skip_parsed(mode, input, parsed);
             match self.end.parse_mode(mode, input, end_state).into() {
                 Ok((_, rest)) => {
                     ctry!(input.reset(before).committed());
-                    return match committed.merge(rest) {
-                        Commit::Commit(()) => CommitOk(mem::take(output)),
-                        Commit::Peek(()) => PeekOk(mem::take(output)),
+                    let committed = mem::replace(committed, false) || !rest.is_peek();
+                    return if committed {
+                        CommitOk(mem::take(output))
+                    } else {
+                        PeekOk(mem::take(output))
                     };
                 }
                 Err(Commit::Peek(_)) => {
                     ctry!(input.reset(before).committed());
-                    output.extend(Some(ctry!(uncons(input)).0));
-                    committed = Commit::Commit(());
+                    mode.set_first();
+                    match uncons(input) {
+                        CommitOk(token) | PeekOk(token) => output.extend(Some(token)),
+                        PeekErr(err) => {
+                            // Do not leave the output behind for the next time the parser is used
+                            *output = F::default();
+                            *committed = false;
+                            return PeekErr(err);
+                        }
+                        CommitErr(err) => return CommitErr(err),
+                    }
+                    *committed = true;
                 }
                 Err(Commit::Commit(e)) => {
-                    ctry!(input.reset(before).committed());
+                    if input.is_partial() && e.error.is_unexpected_end_of_input() {
+                        rewind_parsed(input, before, parsed, end_state);
+                    } else {
+                        ctry!(input.reset(before).committed());
+                    }
                     return CommitErr(e.error);
                 }
             };
@@ -1321,7 +1337,14 @@ where
     E: Parser<Input>,
 {
     type Output = F;
-    type PartialState = (F, bool, P::PartialState, E::PartialState);
+    type PartialState = (
+        F,
+        bool,
+        bool,
+        usize,
+        P::PartialState,
+        E::PartialState,
+    );
 
     parse_mode!(Input);
     #[inline]
@@ -1334,23 +1357,38 @@ where
     where
         M: ParseMode,
     {
-        let (output, is_parse, parse_state, end_state) = state;
+        let (output, is_parse, committed, parsed, parse_state, end_state) = state;
 
-        let mut committed = Commit::Peek(());
         loop {
             if *is_parse {
-                let (token, c) = ctry!(self.parser.parse_mode(mode, input, parse_state));
-                output.extend(Some(token));
-                committed = committed.merge(c);
+                match self.parser.parse_mode(mode, input, parse_state) {
+                    CommitOk(token) => {
+                        output.extend(Some(token));
+                        *committed = true;
+                    }
+                    PeekOk(token) => output.extend(Some(token)),
+                    PeekErr(err) => {
+                        // Do not leave the output behind for the next time the parser is used
+                        *output = F::default();
+                        *is_parse = false;
+                        *committed = false;
+                        return PeekErr(err);
+                    }
+                    CommitErr(err) => return CommitErr(err),
+                }
+                mode.set_first();
                 *is_parse = false;
             } else {
                 let before = input.checkpoint();
+                skip_parsed(mode, input, parsed);
                 match self.end.parse_mode(mode, input, end_state).into() {
                     Ok((_, rest)) => {
                         ctry!(input.reset(before).committed());
-                        return match committed.merge(rest) {
-                            Commit::Commit(()) => CommitOk(mem::take(output)),
-                            Commit::Peek(()) => PeekOk(mem::take(output)),
+                        let committed = mem::replace(committed, false) || !rest.is_peek();
+                        return if committed {
+                            CommitOk(mem::take(output))
+                        } else {
+                            PeekOk(mem::take(output))
                         };
                     }
                     Err(Commit::Peek(_)) => {
@@ -1359,7 +1397,11 @@ where
                         *is_parse = true;
                     }
                     Err(Commit::Commit(e)) => {
-                        ctry!(input.reset(before).committed());
+                        if input.is_partial() && e.error.is_unexpected_end_of_input() {
+                            rewind_parsed(input, before, parsed, end_state);
+                        } else {
+                            ctry!(input.reset(before).committed());
+                        }
                         return CommitErr(e.error);
                     }
                 }
-- 
2.43.0


From 55765f99e4196ae4e59f66026a4ae0481da37059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:00 +0000
Subject: [PATCH 18/41] fix: failures at the end of a partial stream were
 reported as the end of the input

A parser which fails without consuming anything at the end of the available
input has an error even if more input arrives, so resuming its parents (which
forget their state after such an error) loses what they had parsed.
---
 src/parser/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 16b7262..f15f36c 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -174,7 +174,7 @@ pub trait Parser<Input: Stream> {
             if let Ok(t) = input.uncons() {
                 ctry!(input.reset(before).committed());
                 error.error.add_unexpected(Token(t));
-            } else {
+            } else if !input.is_partial() {
                 error.error.add(StreamErrorFor::<Input>::end_of_input());
             }
             self.add_error(error);
@@ -232,7 +232,7 @@ pub trait Parser<Input: Stream> {
             if let Ok(t) = input.uncons() {
                 ctry!(input.reset(before).committed());
                 error.error.add_unexpected(Token(t));
-            } else {
+            } else if !input.is_partial() {
                 error.error.add(StreamErrorFor::<Input>::end_of_input());
             }
             self.add_error(error);
@@ -1151,7 +1151,7 @@ pub trait ParseMode: Copy {
             if let Ok(t) = input.uncons() {
                 ctry!(input.reset(before).committed());
                 error.error.add_unexpected(Token(t));
-            } else {
+            } else if !input.is_partial() {
                 error.error.add(StreamErrorFor::<Input>::end_of_input());
             }
             parser.add_error(error);
-- 
2.43.0


From b47c7936f92e1d2aca4f1ab8d2b2998bd2558060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:34 +0000
Subject: [PATCH 19/41] fix: and_then committed to failures at the end of a
 partial stream

Only errors that more input may resolve should do so, any other failure leaves
the alternatives to be tried.
---
 src/parser/combinator.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parser/combinator.rs b/src/parser/combinator.rs
index d1c1c1a..3776180 100644
--- a/src/parser/combinator.rs
+++ b/src/parser/combinator.rs
@@ -442,7 +442,10 @@ where
                 Err(err) => {
                     let err = <Input as StreamOnce>::Error::from_error(position, err.into());
 
-                    if input.is_partial() && input_at_eof(input) {
+                    if input.is_partial()
+                        && err.is_unexpected_end_of_input()
+                        && input_at_eof(input)
+                    {
                         ctry!(input.reset(checkpoint).committed());
                         CommitErr(err)
                     } else {
-- 
2.43.0


From 9e36d02a67e0f48fe8f0c60d27d8dc41c8c2d42d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:34 +0000
Subject: [PATCH 20/41] fix: take_while left its partial state behind on the
 last part of the input

---
 src/parser/range.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser/range.rs b/src/parser/range.rs
index dfc9fcf..b6264c9 100644
--- a/src/parser/range.rs
+++ b/src/parser/range.rs
@@ -114,6 +114,8 @@ where
     let before = input.checkpoint();
 
     if !input.is_partial() {
+        // The input may have been partial until now
+        *distance_state = 0;
         first(input, state)
     } else if mode.is_first() || *distance_state == 0 {
         let result = first(input, state);
-- 
2.43.0


From 6f3bba646f09319972354c8b8701d3ee24371327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:01 +0000
Subject: [PATCH 21/41] fix: eof took the end of the available input for the
 end of a partial stream

---
 src/parser/token.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/parser/token.rs b/src/parser/token.rs
index 04f3286..3751bdb 100644
--- a/src/parser/token.rs
+++ b/src/parser/token.rs
@@ -7,7 +7,7 @@ use crate::{
         ResultExt, StreamError, Tracked,
     },
     lib::marker::PhantomData,
-    stream::{uncons, Stream, StreamOnce},
+    stream::{uncons, wrap_stream_error, Stream, StreamOnce},
     Parser,
 };
 
@@ -666,7 +666,14 @@ where
     fn parse_lazy(&mut self, input: &mut Input) -> ParseResult<(), Input::Error> {
         let before = input.checkpoint();
         match input.uncons() {
-            Err(ref err) if err.is_unexpected_end_of_input() => PeekOk(()),
+            Err(err) if err.is_unexpected_end_of_input() => {
+                if input.is_partial() {
+                    // Only the end of the input which is available so far
+                    wrap_stream_error(input, err)
+                } else {
+                    PeekOk(())
+                }
+            }
             _ => {
                 ctry!(input.reset(before).committed());
                 PeekErr(<Input as StreamOnce>::Error::empty(input.position()).into())
-- 
2.43.0


From 14835b84e288bf408a80f4eb5a81b33a810935c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:40 +0000
Subject: [PATCH 22/41] fix: stream errors which more input cannot resolve were
 fatal in partial streams

---
 src/stream/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/stream/mod.rs b/src/stream/mod.rs
index a395612..96941cc 100644
--- a/src/stream/mod.rs
+++ b/src/stream/mod.rs
@@ -250,8 +250,10 @@ pub fn wrap_stream_error<T, Input>(
 where
     Input: ?Sized + StreamOnce + Positioned,
 {
+    // More input only makes a difference if it is the end of the available input that was reached
+    let may_resume = input.is_partial() && err.is_unexpected_end_of_input();
     let err = Input::Error::from_error(input.position(), err);
-    if input.is_partial() {
+    if may_resume {
         CommitErr(err)
     } else {
         PeekErr(err.into())
-- 
2.43.0


From 054f239a9ee0a3bbd3689cadb38d81d48ca3e750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:02 +0000
Subject: [PATCH 23/41] fix: expected/message on a parser hides an unexpected
 end of input

UnexpectedParse and StringStreamError kept the end of input over every
other error in add, but set_expected overwrote it, so that
token('a').expected("x") reported no end of input on an empty input.
---
 src/error.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index 5670b25..3ed01fb 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -685,7 +685,7 @@ where
         F: FnOnce(&mut Tracked<Self>),
     {
         f(self_);
-        self_.error = info;
+        ParseError::<Item, Range, Position>::add(&mut self_.error, info);
     }
 
     fn is_unexpected_end_of_input(&self) -> bool {
@@ -873,7 +873,7 @@ where
         F: FnOnce(&mut Tracked<Self>),
     {
         f(self_);
-        self_.error = info;
+        ParseError::<Item, Range, Position>::add(&mut self_.error, info);
     }
 
     fn is_unexpected_end_of_input(&self) -> bool {
-- 
2.43.0


From 4f51ff51619268507e065e090f49d2eab759791d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:25 +0000
Subject: [PATCH 24/41] fix: decode! does not accept a bufferless decoder

__before_parse passed a reference to its own copy of the reference to the
reader on, which only Buffer (any R: Read) accepts; Decoder::new_bufferless
with BufReader, which its documentation asks for, did not compile.
---
 src/stream/decoder.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/stream/decoder.rs b/src/stream/decoder.rs
index ad034f8..12d4fdb 100644
--- a/src/stream/decoder.rs
+++ b/src/stream/decoder.rs
@@ -3,10 +3,7 @@ use crate::{
     stream::buf_reader::{Buffer, Bufferless, CombineBuffer},
 };
 
-use std::{
-    fmt,
-    io::{self, Read},
-};
+use std::{fmt, io};
 
 #[cfg(feature = "pin-project-lite")]
 use std::pin::Pin;
@@ -139,12 +136,11 @@ where
     C: ,
 {
     #[doc(hidden)]
-    pub fn __before_parse<R>(&mut self, mut reader: R) -> io::Result<()>
+    pub fn __before_parse<R>(&mut self, reader: &mut R) -> io::Result<()>
     where
-        R: Read,
         C: crate::stream::buf_reader::CombineSyncRead<R>,
     {
-        if self.buffer.extend_buf_sync(&mut reader)? == 0 {
+        if self.buffer.extend_buf_sync(reader)? == 0 {
             self.end_of_input = true;
         }
 
-- 
2.43.0


From d6d5bab50537b7ecb592d0de491c49558a2edee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:26 +0000
Subject: [PATCH 25/41] fix: decode_futures_03! does not accept a bufferless
 decoder

The reader had to implement AsyncRead itself, which BufReader, the reader a
bufferless decoder needs, does not; the other decode macros have no such bound.
---
 src/stream/decoder.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/stream/decoder.rs b/src/stream/decoder.rs
index 12d4fdb..c1cb5c5 100644
--- a/src/stream/decoder.rs
+++ b/src/stream/decoder.rs
@@ -210,7 +210,6 @@ impl<S, P, C> Decoder<S, P, C> {
     #[doc(hidden)]
     pub async fn __before_parse_async<R>(&mut self, reader: Pin<&mut R>) -> io::Result<()>
     where
-        R: futures_io_03::AsyncRead,
         C: crate::stream::buf_reader::CombineAsyncRead<R>,
     {
         let copied = self.buffer.extend_buf(reader).await?;
-- 
2.43.0


From 62032498e58beff9769ea3428387a32becc96f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:27 +0000
Subject: [PATCH 26/41] fix: the short form of decode_futures_03! does not
 expand

It passed a $(,)? on and a stream constructor with the wrong number of
arguments; the other decode macros had been corrected already.
---
 src/stream/mod.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/stream/mod.rs b/src/stream/mod.rs
index 96941cc..d805249 100644
--- a/src/stream/mod.rs
+++ b/src/stream/mod.rs
@@ -1506,11 +1506,10 @@ macro_rules! decode {
 #[cfg_attr(docsrs, doc(cfg(feature = "futures-io-03")))]
 #[macro_export]
 macro_rules! decode_futures_03 {
-    ($decoder: expr, $read: expr, $parser: expr) => {
-        $crate::decode_futures_03!($decoder, $read, $parser, |x| x $(,)?)
+    ($decoder: expr, $read: expr, $parser: expr $(,)?) => {
+        $crate::decode_futures_03!($decoder, $read, $parser, |input, _position| input)
     };
 
-
     ($decoder: expr, $read: expr, $parser: expr, $input_stream: expr $(,)?) => {
         $crate::decode_futures_03!($decoder, $read, $parser, $input_stream, |x| x)
     };
-- 
2.43.0


From 84c359868aefad1b97722ed6915bb5dcfcf72f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:41 +0000
Subject: [PATCH 27/41] fix: take_until_bytes lost its place in partial strings

The offset at which to resume the search counts bytes; when it fell inside of
a character of a str nothing was skipped, but the offset was still added to
the length of the result.
---
 src/parser/range.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/parser/range.rs b/src/parser/range.rs
index b6264c9..eeb29da 100644
--- a/src/parser/range.rs
+++ b/src/parser/range.rs
@@ -592,8 +592,11 @@ where
 
         if mode.is_first() {
             *offset = 0;
-        } else {
-            let _ = input.uncons_range(*offset);
+        } else if input.uncons_range(*offset).is_err() {
+            // The searcher gave an offset at which no range can end (inside of a character), search
+            // from the start
+            ctry!(input.reset(checkpoint.clone()).committed());
+            *offset = 0;
         }
         let searched = *offset;
 
-- 
2.43.0


From fc17d19607bebe75c357191a7fc90d7bea1fc371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:55 +0000
Subject: [PATCH 28/41] fix: count_min_max does not tell what it found instead
 of a missing element

Once it had committed the error contained neither the unexpected token nor what
the repeated parser expected. With a maximum of 0 nothing is expected.
---
 src/parser/repeat.rs | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/src/parser/repeat.rs b/src/parser/repeat.rs
index f5f96cf..948a79c 100644
--- a/src/parser/repeat.rs
+++ b/src/parser/repeat.rs
@@ -169,7 +169,14 @@ where
     }
 
     fn add_error(&mut self, error: &mut Tracked<<Input as StreamOnce>::Error>) {
-        self.parser.add_error(error)
+        // Nothing is accepted if no elements are
+        if self.max != 0 {
+            self.parser.add_error(error)
+        }
+    }
+
+    fn parser_count(&self) -> ErrorOffset {
+        self.parser.parser_count()
     }
 }
 
@@ -254,7 +261,7 @@ where
 
 enum State<E> {
     Ok,
-    PeekErr(E),
+    PeekErr(Tracked<E>),
     CommitErr(E),
 }
 
@@ -328,7 +335,7 @@ where
     }
 
     fn fail<T>(
-        self,
+        mut self,
         err: <<Input as StreamOnce>::Error as ParseError<
             <Input as StreamOnce>::Token,
             <Input as StreamOnce>::Range,
@@ -346,11 +353,17 @@ where
             }
             State::PeekErr(mut e) => {
                 let err = <Input as StreamOnce>::Error::from_error(self.input.position(), err);
-                e = e.merge(err);
+                e.error = e.error.merge(err);
                 if self.committed {
-                    CommitErr(e)
+                    // No parent adds to a committed error so tell what was found and what the
+                    // parser expected instead here
+                    if let Ok(t) = self.input.uncons() {
+                        e.error.add(StreamError::unexpected_token(t));
+                    }
+                    self.parser.add_error(&mut e);
+                    CommitErr(e.error)
                 } else {
-                    PeekErr(e.into())
+                    PeekErr(e)
                 }
             }
             State::CommitErr(mut e) => {
@@ -388,7 +401,7 @@ where
             PeekErr(e) => {
                 self.state = match self.input.reset(before) {
                     Err(err) => State::CommitErr(err),
-                    Ok(_) => State::PeekErr(e.error),
+                    Ok(_) => State::PeekErr(e),
                 };
                 None
             }
-- 
2.43.0


From dec92b275e0c3ca6fe77da88e3ce604c4fe1be95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:55 +0000
Subject: [PATCH 29/41] fix: errors of nested sequences name the wrong parsers
 as expected

The parser which returned the error was lost when nothing had been committed,
and parsers which took more (or less) of the offset than their parser_count made
the search for it stop too early or too late.
---
 src/parser/sequence.rs | 95 +++++++++++++++++++++++++-----------------
 1 file changed, 57 insertions(+), 38 deletions(-)

diff --git a/src/parser/sequence.rs b/src/parser/sequence.rs
index 9cb92c1..67fbf33 100644
--- a/src/parser/sequence.rs
+++ b/src/parser/sequence.rs
@@ -6,7 +6,7 @@ use crate::{
         ParseResult::{self, *},
         StreamError, Tracked,
     },
-    lib::marker::PhantomData,
+    lib::{marker::PhantomData, mem},
     parser::{
         combinator::{ignore, Ignore, Map},
         ParseMode,
@@ -14,12 +14,6 @@ use crate::{
     ErrorOffset, Parser, Stream, StreamOnce,
 };
 
-macro_rules! count {
-    () => { 0 };
-    ($f: ident) => { 1 };
-    ($f: ident, $($rest: ident),+) => { 1 + count!($($rest),*) };
-}
-
 #[doc(hidden)]
 pub struct SequenceState<T, U> {
     pub value: Option<T>,
@@ -52,6 +46,37 @@ macro_rules! last_ident {
     ($id: ident, $($rest: ident),+) => { last_ident!($($rest),+) };
 }
 
+/// The offset with which parsers that succeeded without committing add all of their errors
+const ALL: ErrorOffset = ErrorOffset(u8::MAX);
+
+/// Adds every error of a parser which succeeded without committing. Returns whether the parser
+/// ended with a choice, which takes a part of the offset.
+fn add_all_errors<Input>(err: &mut Tracked<Input::Error>, parser: &mut impl Parser<Input>) -> bool
+where
+    Input: Stream,
+{
+    let offset = mem::replace(&mut err.offset, ALL);
+    Parser::add_error(parser, err);
+    mem::replace(&mut err.offset, offset) != ALL
+}
+
+/// Adds the errors of a parser in a sequence where no parser committed. Returns `false` once the
+/// parser which returned the error has been reached.
+fn add_peek_error<Input>(err: &mut Tracked<Input::Error>, parser: &mut impl Parser<Input>) -> bool
+where
+    Input: Stream,
+{
+    let count = Parser::parser_count(parser).0;
+    let found = if err.offset.0 <= count {
+        Parser::add_error(parser, err);
+        true
+    } else {
+        add_all_errors(err, parser) && err.offset.0 - count <= 1
+    };
+    err.offset = ErrorOffset(if found { 0 } else { err.offset.0 - count });
+    !found
+}
+
 fn add_sequence_error<Input>(
     i: &mut usize,
     first_empty_parser: usize,
@@ -71,11 +96,10 @@ where
             // parser that actually returned the error), use the returned
             // offset for that parser.
             err.offset = inner_offset;
-        }
-        Parser::add_error(parser, err);
-        if err.offset <= ErrorOffset(1) {
+            Parser::add_error(parser, err);
             return false;
         }
+        add_all_errors(err, parser);
     }
     err.offset = ErrorOffset(err.offset.0.saturating_sub(Parser::parser_count(parser).0));
 
@@ -190,7 +214,10 @@ macro_rules! tuple_parser {
                             first_empty_parser = current_parser + 1;
                             x
                         }
-                        PeekErr(err) => return PeekErr(err),
+                        PeekErr(mut err) => {
+                            err.offset.0 = err.offset.0.min($h.parser_count().0.max(1));
+                            return PeekErr(err);
+                        }
                         CommitErr(err) => return CommitErr(err),
                         PeekOk(x) => {
                             x
@@ -222,7 +249,15 @@ macro_rules! tuple_parser {
                                         PeekErr(err.into())
                                     };
                                 }
-                                return add_errors!(err, state.offset)
+                                let offset = if first_empty_parser != 0 {
+                                    state.offset
+                                } else {
+                                    // No parser has committed so our parent needs to know which
+                                    // parser inside of `$id` the error comes from
+                                    let inner = err.offset.0.min($id.parser_count().0).max(1);
+                                    state.offset.saturating_add(inner - 1)
+                                };
+                                return add_errors!(err, offset)
                             }
                             CommitErr(err) => {
                                 state.first_empty_parser = first_empty_parser;
@@ -255,43 +290,27 @@ macro_rules! tuple_parser {
             #[inline]
             fn parser_count(&self) -> ErrorOffset {
                 let (ref $h, $(ref $id),*) = *self;
-                ErrorOffset($h.parser_count().0 $( + $id.parser_count().0)*)
+                ErrorOffset($h.parser_count().0 $(.saturating_add($id.parser_count().0))*)
             }
 
             #[inline]
             fn add_error(&mut self, errors: &mut Tracked<<Input as StreamOnce>::Error>) {
                 let (ref mut $h, $(ref mut $id),*) = *self;
-                let prev = errors.offset;
-                $h.add_error(errors);
-                if errors.offset <= ErrorOffset(1) {
-                    errors.offset = ErrorOffset(
-                        errors.offset.0.saturating_sub(1)
-                    );
+                if errors.offset == ALL {
+                    $h.add_error(errors);
+                    $(
+                        errors.offset = ALL;
+                        $id.add_error(errors);
+                    )*
                     return;
                 }
-                if errors.offset == prev {
-                    errors.offset = ErrorOffset(errors.offset.0.saturating_sub($h.parser_count().0));
+                if !add_peek_error(errors, $h) {
+                    return;
                 }
-
-                #[allow(dead_code)]
-                const LAST: usize = count!($($id),*);
-                #[allow(unused_mut, unused_variables)]
-                let mut i = 0;
                 $(
-                    i += 1;
-                    let prev = errors.offset;
-                    $id.add_error(errors);
-                    if errors.offset <= ErrorOffset(1) {
-                        errors.offset = ErrorOffset(
-                            errors.offset.0.saturating_sub(1)
-                        );
+                    if !add_peek_error(errors, $id) {
                         return;
                     }
-                    if i != LAST && errors.offset == prev {
-                        errors.offset = ErrorOffset(
-                            errors.offset.0.saturating_sub($id.parser_count().0)
-                        );
-                    }
                 )*
             }
 
-- 
2.43.0


From 048d24135073981b81a7d7110dbcb56144b93f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:45 +0000
Subject: [PATCH 30/41] fix: choice loses the errors of its plain alternatives
 next to those of a sequence

Once one of the alternatives was a sequence which failed after its first parser
only the errors of such alternatives were added.
---
 src/parser/choice.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/parser/choice.rs b/src/parser/choice.rs
index 24052ce..2fde75a 100644
--- a/src/parser/choice.rs
+++ b/src/parser/choice.rs
@@ -155,13 +155,15 @@ macro_rules! do_choice {
         // If the offset == 0 on the other hand (which should be the common case) then
         // we can delay the addition of the error since we know for certain that only
         // the first parser in the sequence were tried
-        $(
-            if $error.offset != ErrorOffset(1) {
+        // When that happens for one of them the errors of all of them are added, as our parents
+        // can not add any afterwards
+        if $($error.offset != ErrorOffset(1))||+ {
+            $(
                 error.offset = $error.offset;
                 $parser.add_error(&mut error);
-                error.offset = ErrorOffset(0);
-            }
-        )+
+            )+
+            error.offset = ErrorOffset(0);
+        }
         PeekErr(error)
     } };
     (
-- 
2.43.0


From 62ea7a583dde6b3e302c1870b4f70f3eabda5b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:02 +0000
Subject: [PATCH 31/41] fix: the last parser to commit takes the offset from
 those after it in error reports

---
 src/parser/sequence.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser/sequence.rs b/src/parser/sequence.rs
index 67fbf33..4236c0c 100644
--- a/src/parser/sequence.rs
+++ b/src/parser/sequence.rs
@@ -88,7 +88,9 @@ where
     Input: Stream,
 {
     if *i + 1 == first_empty_parser {
+        let offset = err.offset;
         Parser::add_committed_expected_error(parser, err);
+        err.offset = offset;
     }
     if *i >= first_empty_parser {
         if err.offset <= ErrorOffset(1) {
-- 
2.43.0


From a1e4b71b82f5b8d007a19ed8dffb19174f5c1bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:36 +0000
Subject: [PATCH 32/41] fix: merging errors without positions forgets that the
 input ended

---
 src/error.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/error.rs b/src/error.rs
index 3ed01fb..93b2aad 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -679,6 +679,13 @@ where
         };
     }
 
+    #[inline]
+    fn merge(mut self, other: Self) -> Self {
+        // There is no position to compare so both errors are kept to the extent that they can be
+        ParseError::<Item, Range, Position>::add(&mut self, other);
+        self
+    }
+
     #[inline]
     fn set_expected<F>(self_: &mut Tracked<Self>, info: Self::StreamError, f: F)
     where
@@ -867,6 +874,13 @@ where
         };
     }
 
+    #[inline]
+    fn merge(mut self, other: Self) -> Self {
+        // There is no position to compare so both errors are kept to the extent that they can be
+        ParseError::<Item, Range, Position>::add(&mut self, other);
+        self
+    }
+
     #[inline]
     fn set_expected<F>(self_: &mut Tracked<Self>, info: Self::StreamError, f: F)
     where
-- 
2.43.0


From 48f74a92bfbabbdb42bc5f5e97d8ced6a0851425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:36 +0000
Subject: [PATCH 33/41] fix: read::Error hides the end of the input and errors
 of the reader, and panics when asked for its position

---
 src/stream/read.rs | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/stream/read.rs b/src/stream/read.rs
index 6fa13b0..c614f50 100644
--- a/src/stream/read.rs
+++ b/src/stream/read.rs
@@ -121,15 +121,27 @@ where
         err
     }
 
+    #[inline]
+    fn position(&self) -> Position {
+        Position::default()
+    }
+
     #[inline]
     fn set_position(&mut self, _position: Position) {}
 
+    #[inline]
+    fn merge(mut self, other: Self) -> Self {
+        // There is no position to compare so both errors are kept to the extent that they can be
+        ParseError::<Item, Range, Position>::add(&mut self, other);
+        self
+    }
+
     #[inline]
     fn add(&mut self, err: Self::StreamError) {
-        *self = match (&*self, err) {
-            (Error::EndOfInput, _) => Error::EndOfInput,
-            (_, err) => err,
-        };
+        // Do not let an uninformative error hide that the input ended or could not be read
+        if let Error::Unexpected = *self {
+            *self = err;
+        }
     }
 
     #[inline]
@@ -138,7 +150,7 @@ where
         F: FnOnce(&mut Tracked<Self>),
     {
         f(self_);
-        self_.error = info;
+        ParseError::<Item, Range, Position>::add(&mut self_.error, info);
     }
 
     fn is_unexpected_end_of_input(&self) -> bool {
-- 
2.43.0


From 4e3017b338a16364ed99e1b89e2041d1fba05078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:36 +0000
Subject: [PATCH 34/41] fix: conversions of easy errors turn messages into
 expectations and lose the end of the input

---
 src/stream/easy.rs | 38 ++++++++++++++++++++++++++------------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/src/stream/easy.rs b/src/stream/easy.rs
index 0a54182..7cc3d44 100644
--- a/src/stream/easy.rs
+++ b/src/stream/easy.rs
@@ -193,6 +193,9 @@ impl<R> From<u8> for Info<u8, R> {
     }
 }
 
+/// The text of the `end_of_input` error
+const END_OF_INPUT: &str = "end of input";
+
 /// Enum used to store information about an error that has occurred during parsing.
 #[derive(Debug)]
 pub enum Error<T, R> {
@@ -292,6 +295,8 @@ where
             Error::Unexpected(info) => match info {
                 Info::Token(x) => T::unexpected_token(x),
                 Info::Range(x) => T::unexpected_range(x),
+                Info::Static(END_OF_INPUT) => T::end_of_input(),
+                Info::Owned(ref x) if x == END_OF_INPUT => T::end_of_input(),
                 Info::Static(x) => T::unexpected_static_message(x),
                 Info::Owned(x) => T::unexpected_format(x),
             },
@@ -302,10 +307,10 @@ where
                 Info::Owned(x) => T::expected_format(x),
             },
             Error::Message(info) => match info {
-                Info::Token(x) => T::expected_token(x),
-                Info::Range(x) => T::expected_range(x),
-                Info::Static(x) => T::expected_static_message(x),
-                Info::Owned(x) => T::expected_format(x),
+                Info::Token(x) => T::message_token(x),
+                Info::Range(x) => T::message_range(x),
+                Info::Static(x) => T::message_static_message(x),
+                Info::Owned(x) => T::message_format(x),
             },
             Error::Other(err) => T::message_format(err),
         }
@@ -392,6 +397,8 @@ impl<Item, Range> crate::error::StreamErrorInto<Item, Range> for Error<Item, Ran
             Error::Unexpected(info) => match info {
                 Info::Token(x) => T::unexpected_token(x.into()),
                 Info::Range(x) => T::unexpected_range(x.into()),
+                Info::Static(END_OF_INPUT) => T::end_of_input(),
+                Info::Owned(ref x) if x == END_OF_INPUT => T::end_of_input(),
                 Info::Static(x) => T::unexpected_static_message(x),
                 Info::Owned(x) => T::unexpected_format(x),
             },
@@ -402,10 +409,10 @@ impl<Item, Range> crate::error::StreamErrorInto<Item, Range> for Error<Item, Ran
                 Info::Owned(x) => T::expected_format(x),
             },
             Error::Message(info) => match info {
-                Info::Token(x) => T::expected_token(x.into()),
-                Info::Range(x) => T::expected_range(x.into()),
-                Info::Static(x) => T::expected_static_message(x),
-                Info::Owned(x) => T::expected_format(x),
+                Info::Token(x) => T::message_token(x.into()),
+                Info::Range(x) => T::message_range(x.into()),
+                Info::Static(x) => T::message_static_message(x),
+                Info::Owned(x) => T::message_format(x),
             },
             Error::Other(err) => T::message_format(err),
         }
@@ -487,12 +494,19 @@ where
     }
 
     #[inline]
-    fn into_other<T>(mut self) -> T
+    fn into_other<T>(self) -> T
     where
         T: crate::error::ParseError<Item, Range, Position>,
     {
-        match self.errors.pop() {
-            Some(err) => T::from_error(self.position, StreamError::into_other(err)),
+        let mut errors = self.errors.into_iter();
+        match errors.next() {
+            Some(err) => {
+                let mut error = T::from_error(self.position, StreamError::into_other(err));
+                for err in errors {
+                    error.add(StreamError::into_other(err));
+                }
+                error
+            }
             None => T::empty(self.position),
         }
     }
@@ -551,7 +565,7 @@ where
 impl<T, R> Error<T, R> {
     /// Returns the `end_of_input` error.
     pub fn end_of_input() -> Error<T, R> {
-        Error::Unexpected("end of input".into())
+        Error::Unexpected(END_OF_INPUT.into())
     }
 
     /// Formats a slice of errors in a human readable way.
-- 
2.43.0


From d68715d41fbc7d3840fd64ea8573927dcb322ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:37 +0000
Subject: [PATCH 35/41] fix: do not trust a replaced ReadBuf in the tokio 0.3
 reads

A reader may replace the ReadBuf it is given by another one, the filled part of
which then says nothing about the buffer that is advanced: the bytes returned
would be uninitialized memory (tokio-util checks the same for tokio 1).
---
 src/stream/buf_reader.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/stream/buf_reader.rs b/src/stream/buf_reader.rs
index 7969609..084b951 100644
--- a/src/stream/buf_reader.rs
+++ b/src/stream/buf_reader.rs
@@ -288,12 +288,14 @@ fn tokio_03_read_buf(
     }
 
     let mut buf = tokio_03_to_read_buf(bs);
+    let ptr = buf.filled().as_ptr();
     ready!(read.poll_read(cx, &mut buf))?;
-    unsafe {
-        let n = buf.filled().len();
-        bs.advance_mut(n);
-        Poll::Ready(Ok(n))
-    }
+    // Ensure that the reader did not replace the buffer by another one
+    assert_eq!(ptr, buf.filled().as_ptr());
+    let n = buf.filled().len();
+    // SAFETY: `buf` is still the buffer of `bs`, of which the reader initialized the first `n` bytes
+    unsafe { bs.advance_mut(n) };
+    Poll::Ready(Ok(n))
 }
 
 #[cfg(feature = "tokio")]
-- 
2.43.0


From 45d90169a62e80f180e31a484c8cb7bd207a336f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:45 +0000
Subject: [PATCH 36/41] fix: take_fn overflows when its function tells it to
 skip very far

---
 src/parser/range.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/range.rs b/src/parser/range.rs
index eeb29da..f521617 100644
--- a/src/parser/range.rs
+++ b/src/parser/range.rs
@@ -603,14 +603,14 @@ where
         match (self.searcher)(input.range()).into() {
             TakeRange::Found(i) => {
                 ctry!(input.reset(checkpoint).committed());
-                let result = uncons_range(input, *offset + i);
+                let result = uncons_range(input, offset.saturating_add(i));
                 if result.is_ok() {
                     *offset = 0;
                 }
                 result
             }
             TakeRange::NotFound(next_offset) => {
-                *offset = searched + next_offset;
+                *offset = searched.saturating_add(next_offset);
 
                 let range = input.range();
                 let _ = input.uncons_range(range.len());
-- 
2.43.0


From 86601dd278c7a8ea1003c2feb87ee017b786a4cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:30 +0000
Subject: [PATCH 37/41] fix: Either and Spanned keep the expectations of the
 parser they wrap

---
 src/parser/combinator.rs | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/parser/combinator.rs b/src/parser/combinator.rs
index 3776180..8b85f8b 100644
--- a/src/parser/combinator.rs
+++ b/src/parser/combinator.rs
@@ -9,7 +9,7 @@ use crate::{
     lib::{fmt, marker::PhantomData, mem, str},
     parser::ParseMode,
     stream::{input_at_eof, span::Span, ResetStream, Stream, StreamErrorFor, StreamOnce},
-    Parser,
+    ErrorOffset, Parser,
 };
 
 #[cfg(feature = "alloc")]
@@ -693,6 +693,24 @@ where
             Either::Right(ref mut x) => x.add_error(error),
         }
     }
+
+    #[inline]
+    fn add_committed_expected_error(
+        &mut self,
+        error: &mut Tracked<<Input as StreamOnce>::Error>,
+    ) {
+        match *self {
+            Either::Left(ref mut x) => x.add_committed_expected_error(error),
+            Either::Right(ref mut x) => x.add_committed_expected_error(error),
+        }
+    }
+
+    fn parser_count(&self) -> ErrorOffset {
+        match *self {
+            Either::Left(ref x) => x.parser_count(),
+            Either::Right(ref x) => x.parser_count(),
+        }
+    }
 }
 
 pub struct NoPartial<P>(P);
@@ -1633,7 +1651,7 @@ where
         })
     }
 
-    forward_parser!(Input, add_error, add_committed_expected_error, 0);
+    forward_parser!(Input, add_error add_committed_expected_error parser_count, 0);
 }
 
 /// Equivalent to [`p.spanned()`].
-- 
2.43.0


From 56d8f63be898f27fb2fad52582ffe900d5cb5c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:45 +0000
Subject: [PATCH 38/41] fix: lazy keeps the error of a parser that is committed

---
 src/parser/combinator.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/combinator.rs b/src/parser/combinator.rs
index 8b85f8b..28bb467 100644
--- a/src/parser/combinator.rs
+++ b/src/parser/combinator.rs
@@ -1161,7 +1161,7 @@ where
     where
         M: ParseMode,
     {
-        (self.0)().parse_mode(mode, input, state)
+        (self.0)().parse_committed_mode(mode, input, state)
     }
 
     fn parse_mode_impl<M>(
-- 
2.43.0


From f3b9f1214d8d08cea2827fa7a01134758a008cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:49 +0000
Subject: [PATCH 39/41] fix: parser! parsers lose or cannot resume states which
 contain closures

The parser was built in a function which is generic over the mode, so that its
closures, and with them the type of its state, differed between the first
attempt and its resumption. any_partial_state then panicked.
---
 src/lib.rs | 40 ++++++++++++++++++++++++++++++++++------
 1 file changed, 34 insertions(+), 6 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 8a44bf1..b10dc71 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -401,13 +401,13 @@ macro_rules! parser {
 #[doc(hidden)]
 #[macro_export]
 macro_rules! combine_parse_partial {
-    ((()) $mode:ident $input:ident $state:ident $parser:block) => {{
+    ((()) $first:ident $input:ident $state:ident $parser:block) => {{
         // Without a state there is nothing which could be resumed
-        let _ = ($mode, $state);
+        let _ = ($first, $state);
         $parser.parse_lazy($input)
     }};
-    (($ignored:ty) $mode:ident $input:ident $state:ident $parser:block) => {
-        $parser.parse_mode($mode, $input, $state)
+    (($ignored:ty) $first:ident $input:ident $state:ident $parser:block) => {
+        $parser.parse_mode($crate::parser::PartialMode { first: $first }, $input, $state)
     };
 }
 
@@ -466,8 +466,7 @@ macro_rules! combine_parser_impl {
                 ) -> $crate::error::ParseResult<$output_type, <$input_type as $crate::stream::StreamOnce>::Error>
             where M: $crate::parser::ParseMode
             {
-                let $type_name { $( $arg: ref mut $arg,)* .. } = *self;
-                $crate::combine_parse_partial!(($($partial_state)*) mode input state $parser)
+                self.combine_parse($crate::parser::ParseMode::is_first(mode), input, state)
             }
 
             #[inline]
@@ -500,6 +499,35 @@ macro_rules! combine_parser_impl {
             }
         }
 
+        #[allow(non_shorthand_field_patterns)]
+        impl<$($type_params)*> $type_name<$($type_params)*>
+            where <$input_type as $crate::stream::StreamOnce>::Error:
+                    $crate::error::ParseError<
+                        <$input_type as $crate::stream::StreamOnce>::Token,
+                        <$input_type as $crate::stream::StreamOnce>::Range,
+                        <$input_type as $crate::stream::StreamOnce>::Position
+                        >,
+                $input_type: $crate::stream::Stream,
+                $($where_clause)*
+        {
+            // Must not be generic over the mode. The state may contain closures of the parser and if those
+            // had another type in each mode then a state stored by one of them could not be resumed by the other
+            #[inline]
+            fn combine_parse(
+                &mut self,
+                first: bool,
+                input: &mut $input_type,
+                state: &mut <Self as $crate::Parser<$input_type>>::PartialState,
+                ) -> $crate::error::ParseResult<$output_type, <$input_type as $crate::stream::StreamOnce>::Error>
+            {
+                #[allow(unused_imports)]
+                use $crate::Parser as _;
+
+                let $type_name { $( $arg: ref mut $arg,)* .. } = *self;
+                $crate::combine_parse_partial!(($($partial_state)*) first input state $parser)
+            }
+        }
+
         $(#[$attr])*
         #[inline]
         $fn_vis fn $name< $($type_params)* >(
-- 
2.43.0


From c99a7e388842e9d3871ee5623e09aae48893f2c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:07 +0000
Subject: [PATCH 40/41] fix: dispatch! loses the expectations of the parser it
 selected

---
 src/parser/choice.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/parser/choice.rs b/src/parser/choice.rs
index 2fde75a..d49458a 100644
--- a/src/parser/choice.rs
+++ b/src/parser/choice.rs
@@ -788,6 +788,22 @@ macro_rules! dispatch_parser_impl {
                     )*
                 }
             }
+
+            fn add_committed_expected_error(&mut self, error: &mut $crate::error::Tracked<<Input as $crate::StreamOnce>::Error>) {
+                match self {
+                    $(
+                    $parser_name::$id($id) => $id.add_committed_expected_error(error),
+                    )*
+                }
+            }
+
+            fn parser_count(&self) -> $crate::ErrorOffset {
+                match self {
+                    $(
+                    $parser_name::$id($id) => $id.parser_count(),
+                    )*
+                }
+            }
         }
     }
 }
-- 
2.43.0


From 6de45b9a206a457732f81a3f2f3c863dc2d5f0e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:18 +0000
Subject: [PATCH 41/41] fix: factory did not ask for a new parser once it was
 done in partial parsing

---
 src/parser/combinator.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/parser/combinator.rs b/src/parser/combinator.rs
index 28bb467..a493cbf 100644
--- a/src/parser/combinator.rs
+++ b/src/parser/combinator.rs
@@ -1202,8 +1202,9 @@ where
     Lazy(p)
 }
 
+// The `bool` is `true` when the parser is done, that is there is nothing to resume
 #[derive(Copy, Clone)]
-pub struct Factory<P, R>(P, Option<R>);
+pub struct Factory<P, R>(P, Option<R>, bool);
 
 impl<P, R> Factory<P, R> {
     fn parser<Input>(&mut self, input: &mut Input) -> &mut R
@@ -1240,10 +1241,17 @@ where
     {
         // Always ask for a new parser except if we are in a partial call being resumed as we want
         // to resume the same parser then
-        if mode.is_first() {
+        if mode.is_first() || self.2 {
             self.1 = None;
         }
-        self.parser(input).parse_mode_impl(mode, input, state)
+        let result = self.parser(input).parse_mode_impl(mode, input, state);
+        let more_input_needed = match &result {
+            CommitOk(_) | PeekOk(_) => false,
+            CommitErr(err) => err.is_unexpected_end_of_input(),
+            PeekErr(err) => err.error.is_unexpected_end_of_input(),
+        };
+        self.2 = !(more_input_needed && input.is_partial());
+        result
     }
 
     fn add_error(&mut self, errors: &mut Tracked<<Input as StreamOnce>::Error>) {
@@ -1281,7 +1289,7 @@ where
     P: FnMut(&mut Input) -> R,
     R: Parser<Input>,
 {
-    Factory(p, None)
+    Factory(p, None, true)
 }
 
 mod internal {
-- 
2.43.0

