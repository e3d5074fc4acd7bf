From 3374cf366e81fdb3c847c2738a0b2a33eb49521c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:55 +0000
Subject: [PATCH 01/18] fix: restore the position when a match fails after its
 skip or before/after part

A failed try_mat on a PolicyCtx kept what the skip pattern had consumed, and a
failed try_mat_policy kept what the before part (or the pattern, when the after
part failed) had consumed. Restore the position on every error.
---
 src/ctx/policy.rs | 27 +++++++++++++++++++++------
 src/ctx/regex.rs  | 15 +++++++++++----
 2 files changed, 32 insertions(+), 10 deletions(-)

diff --git a/src/ctx/policy.rs b/src/ctx/policy.rs
index 46e18d6..c44403e 100644
--- a/src/ctx/policy.rs
+++ b/src/ctx/policy.rs
@@ -1,4 +1,5 @@
 use super::Context;
+use super::CtxGuard;
 use super::PolicyMatch;
 use super::Regex;
 use super::Span;
@@ -155,8 +156,16 @@ where
     where
         Pat: Regex<PolicyCtx<I, R>> + ?Sized,
     {
-        self.regex.try_parse(&mut self.inner)?;
-        pat.try_parse(self)
+        let offset = self.offset();
+        let ret = match self.regex.try_parse(&mut self.inner) {
+            Ok(_) => pat.try_parse(self),
+            Err(err) => Err(err),
+        };
+
+        // a failed match must not keep what the policy has consumed
+        ret.inspect_err(|_| {
+            self.set_offset(offset);
+        })
     }
 }
 
@@ -176,11 +185,17 @@ where
         B: Regex<PolicyCtx<I, R>> + ?Sized,
         A: Regex<PolicyCtx<I, R>> + ?Sized,
     {
-        before.try_parse(self)?;
-        let ret = pat.try_parse(self)?;
+        let mut ctx = CtxGuard::new(self);
+        let ret = before.try_parse(ctx.ctx());
+
+        ctx.process_ret(ret)?;
+
+        let ret = pat.try_parse(ctx.ctx());
+        let span = ctx.process_ret(ret)?;
+        let ret = after.try_parse(ctx.ctx());
 
-        after.try_parse(self)?;
-        Ok(ret)
+        ctx.process_ret(ret)?;
+        Ok(span)
     }
 }
 
diff --git a/src/ctx/regex.rs b/src/ctx/regex.rs
index 1340a71..5062203 100644
--- a/src/ctx/regex.rs
+++ b/src/ctx/regex.rs
@@ -1,6 +1,7 @@
 use core::str::CharIndices;
 
 use super::Context;
+use super::CtxGuard;
 use super::PolicyCtx;
 use super::PolicyMatch;
 use super::Regex;
@@ -459,11 +460,17 @@ where
         B: Regex<RegexCtx<'a, T>> + ?Sized,
         A: Regex<RegexCtx<'a, T>> + ?Sized,
     {
-        before.try_parse(self)?;
-        let ret = pat.try_parse(self)?;
+        let mut ctx = CtxGuard::new(self);
+        let ret = before.try_parse(ctx.ctx());
 
-        after.try_parse(self)?;
-        Ok(ret)
+        ctx.process_ret(ret)?;
+
+        let ret = pat.try_parse(ctx.ctx());
+        let span = ctx.process_ret(ret)?;
+        let ret = after.try_parse(ctx.ctx());
+
+        ctx.process_ret(ret)?;
+        Ok(span)
     }
 }
 
-- 
2.43.0


From 1c025984639af4797eb1af797a8f4dd07cb2edd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:25 +0000
Subject: [PATCH 02/18] fix: leave the position at the end of the longest match
 in vectors, arrays and slices

handler_ltm kept whatever position the alternative tried last had left, on
success and on failure, and the constructing version never let an alternative
that matches nothing win. Select by end position and continue from there.
---
 src/ctor.rs  | 4 +++-
 src/regex.rs | 6 +++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/ctor.rs b/src/ctor.rs
index 79fa4b4..b25b324 100644
--- a/src/ctor.rs
+++ b/src/ctor.rs
@@ -962,12 +962,14 @@ where
 
             // construct value
             if let Ok(val) = t2p(item).construct(ctx, h)
-                && ctx.offset() > end
+                && (ret.is_none() || ctx.offset() > end)
             {
                 end = ctx.offset();
                 ret = Some((val, item));
             }
         }
+        // continue from the end of the longest match, or from where we started
+        ctx.set_offset(end);
         ret.map(|v| r2r(v.0, v.1)).ok_or(err)
     }
 }
diff --git a/src/regex.rs b/src/regex.rs
index 14bad7a..d2beb95 100644
--- a/src/regex.rs
+++ b/src/regex.rs
@@ -809,6 +809,7 @@ where
     move |slice: &[T], ctx: &mut C| {
         let beg = ctx.offset();
         let mut longest = None;
+        let mut end = beg;
 
         for item in slice.iter() {
             // reset offset for every regex
@@ -816,11 +817,14 @@ where
 
             // match regex
             if let Ok(span) = ctx.try_mat(t2p(item))
-                && longest.map(|v: Span| v.len() < span.len()).unwrap_or(true)
+                && (longest.is_none() || ctx.offset() > end)
             {
+                end = ctx.offset();
                 longest = Some(span);
             }
         }
+        // continue from the end of the longest match, or from where we started
+        ctx.set_offset(end);
         longest.ok_or(err)
     }
 }
-- 
2.43.0


From b8489da8f84ed45b19dc3bd1662458a5488c6ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:17 +0000
Subject: [PATCH 03/18] fix: end longest matching where the winner ended when
 text was skipped

LongestTokenMatch computed its end position as start + span length, which is
wrong when the context skipped text before the winner.
---
 src/ctor/longest.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/ctor/longest.rs b/src/ctor/longest.rs
index 406d815..a10c799 100644
--- a/src/ctor/longest.rs
+++ b/src/ctor/longest.rs
@@ -242,21 +242,30 @@ where
         debug_regex_beg!("LongestTokenMatch", offset);
 
         let l = debug_regex_stage!("LongestTokenMatch", "l", ctx.try_mat(&self.left));
+        let off_l = ctx.offset();
 
         // reset offset
         ctx.set_offset(offset);
 
         let r = debug_regex_stage!("LongestTokenMatch", "r", ctx.try_mat(&self.right));
+        let off_r = ctx.offset();
 
         // pick longer one
         let ret = match (l, r) {
-            (Ok(l), Ok(r)) => Ok(if l.len() >= r.len() { l } else { r }),
-            (Ok(l), Err(_)) => Ok(l),
-            (Err(_), Ok(r)) => Ok(r),
+            (Ok(l), Ok(r)) => Ok(if off_l >= off_r {
+                (off_l, l)
+            } else {
+                (off_r, r)
+            }),
+            (Ok(l), Err(_)) => Ok((off_l, l)),
+            (Err(_), Ok(r)) => Ok((off_r, r)),
             (Err(_), Err(r)) => Err(r),
         };
 
-        ctx.set_offset(offset + ret.map(|v| v.len()).unwrap_or_default());
+        ctx.set_offset(ret.as_ref().map(|v| v.0).unwrap_or(offset));
+
+        let ret = ret.map(|v| v.1);
+
         debug_regex_reval!("LongestTokenMatch", ret)
     }
 }
-- 
2.43.0


From 67e0165ccb4a4a6b420af52b46e0c6088fde4546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:27 +0000
Subject: [PATCH 04/18] fix: stop repeat2 and sep2 at their maximum

The loops ran one item past the maximum: construction then panicked with an
index out of bounds, and matching with repeat2 failed.
---
 src/ctor/repeat2.rs | 4 ++--
 src/ctor/sep.rs     | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ctor/repeat2.rs b/src/ctor/repeat2.rs
index 4a6c75f..30915cb 100644
--- a/src/ctor/repeat2.rs
+++ b/src/ctor/repeat2.rs
@@ -165,7 +165,7 @@ where
         let range = M..=N;
 
         crate::debug_ctor_beg!("Repeat2", &range, offset);
-        while cnt <= N {
+        while cnt < N {
             if let Ok(val) = self.pat.construct(ctx, handler) {
                 vals[cnt] = Some(val);
                 cnt += 1;
@@ -200,7 +200,7 @@ where
         let range = M..=N;
 
         crate::debug_regex_beg!("Repeat2", &range, offset);
-        while cnt <= N {
+        while cnt < N {
             if let Ok(p_span) = ctx.try_mat(&self.pat) {
                 total.add_assign(p_span);
                 cnt += 1;
diff --git a/src/ctor/sep.rs b/src/ctor/sep.rs
index 09cf563..8a469e5 100644
--- a/src/ctor/sep.rs
+++ b/src/ctor/sep.rs
@@ -789,7 +789,7 @@ where
         let range = M..=N;
 
         debug_ctor_beg!("Separate2", &range, offset);
-        while cnt <= N {
+        while cnt < N {
             if let Ok(val) = self.pat.construct(ctx, func) {
                 let s_span = ctx.try_mat(&self.sep);
 
@@ -832,7 +832,7 @@ where
         let range = M..=N;
 
         debug_regex_beg!("Separate2", &range, offset);
-        while cnt <= N {
+        while cnt < N {
             if let Ok(p_span) = ctx.try_mat(&self.pat) {
                 let s_span = ctx.try_mat(&self.sep);
 
-- 
2.43.0


From 1f9eb029e058c57c0fc48879ce70cd025b5732e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:53 +0000
Subject: [PATCH 05/18] fix: a failed repetition or list item must not consume
 input

When an item of repeat, repeat2, collect, sep, sep2 or sep_collect matched but
its handler or mapping function failed, the item was left out of the values
but its text stayed consumed.
---
 src/ctor/collect.rs | 16 ++++++++++++---
 src/ctor/repeat.rs  |  4 ++++
 src/ctor/repeat2.rs |  4 ++++
 src/ctor/sep.rs     | 50 ++++++++++++++++++++++++++++++---------------
 4 files changed, 54 insertions(+), 20 deletions(-)

diff --git a/src/ctor/collect.rs b/src/ctor/collect.rs
index 38cf065..e175ccc 100644
--- a/src/ctor/collect.rs
+++ b/src/ctor/collect.rs
@@ -169,9 +169,19 @@ where
         let val = {
             crate::debug_ctor_beg!("Collect", offset);
             V::from_iter(core::iter::from_fn(|| {
-                self.pat.construct(ctx, func).ok().inspect(|_| {
-                    cnt += 1;
-                })
+                let beg = ctx.offset();
+
+                match self.pat.construct(ctx, func) {
+                    Ok(val) => {
+                        cnt += 1;
+                        Some(val)
+                    }
+                    Err(_) => {
+                        // the failed item must not consume anything
+                        ctx.set_offset(beg);
+                        None
+                    }
+                }
             }))
         };
         let ret = if cnt >= self.min {
diff --git a/src/ctor/repeat.rs b/src/ctor/repeat.rs
index 66f6021..2e4cab0 100644
--- a/src/ctor/repeat.rs
+++ b/src/ctor/repeat.rs
@@ -218,10 +218,14 @@ where
 
         crate::debug_ctor_beg!("Repeat", self.range, offset);
         while self.is_contain(cnt) {
+            let beg = ctx.offset();
+
             if let Ok(val) = self.pat.construct(ctx, handler) {
                 vals.push(val);
                 cnt += 1;
             } else {
+                // the failed item must not consume anything
+                ctx.set_offset(beg);
                 break;
             }
         }
diff --git a/src/ctor/repeat2.rs b/src/ctor/repeat2.rs
index 30915cb..744f0cb 100644
--- a/src/ctor/repeat2.rs
+++ b/src/ctor/repeat2.rs
@@ -166,10 +166,14 @@ where
 
         crate::debug_ctor_beg!("Repeat2", &range, offset);
         while cnt < N {
+            let beg = ctx.offset();
+
             if let Ok(val) = self.pat.construct(ctx, handler) {
                 vals[cnt] = Some(val);
                 cnt += 1;
             } else {
+                // the failed item must not consume anything
+                ctx.set_offset(beg);
                 break;
             }
         }
diff --git a/src/ctor/sep.rs b/src/ctor/sep.rs
index 8a469e5..8178a4b 100644
--- a/src/ctor/sep.rs
+++ b/src/ctor/sep.rs
@@ -508,7 +508,13 @@ mod alloc_sep {
             let range: CRange<usize> = (self.min..).into();
 
             debug_ctor_beg!("Separate", range, offset);
-            while let Ok(val) = self.pat.construct(ctx, func) {
+            loop {
+                let beg = ctx.offset();
+                let Ok(val) = self.pat.construct(ctx, func) else {
+                    // the failed element must not consume anything
+                    ctx.set_offset(beg);
+                    break;
+                };
                 let s_span = ctx.try_mat(&self.sep);
 
                 if s_span.is_ok() || self.skip {
@@ -790,6 +796,8 @@ where
 
         debug_ctor_beg!("Separate2", &range, offset);
         while cnt < N {
+            let beg = ctx.offset();
+
             if let Ok(val) = self.pat.construct(ctx, func) {
                 let s_span = ctx.try_mat(&self.sep);
 
@@ -801,6 +809,8 @@ where
                     break;
                 }
             } else {
+                // the failed element must not consume anything
+                ctx.set_offset(beg);
                 break;
             }
         }
@@ -1099,23 +1109,29 @@ where
         let ret = {
             debug_ctor_beg!("SepCollect", range, offset);
             V::from_iter(core::iter::from_fn(|| {
-                self.pat.construct(ctx, func).ok().and_then(|ret| {
-                    let s_span = ctx.try_mat(&self.sep);
-
-                    if !end {
-                        if s_span.is_err() {
-                            end = true;
-                        }
-                        // The current value is captured only
-                        // when the current delimiter matches successfully
-                        // or the skip flag is true.
-                        if s_span.is_ok() || self.skip {
-                            cnt += 1;
-                            return Some(ret);
-                        }
-                    }
+                if end {
+                    return None;
+                }
+                let beg = ctx.offset();
+                let Ok(val) = self.pat.construct(ctx, func) else {
+                    // the failed element must not consume anything
+                    ctx.set_offset(beg);
+                    return None;
+                };
+                let s_span = ctx.try_mat(&self.sep);
+
+                if s_span.is_err() {
+                    end = true;
+                }
+                // The current value is captured only
+                // when the current delimiter matches successfully
+                // or the skip flag is true.
+                if s_span.is_ok() || self.skip {
+                    cnt += 1;
+                    Some(val)
+                } else {
                     None
-                })
+                }
             }))
         };
         let ret = if cnt >= self.min {
-- 
2.43.0


From 54294983f9a08e17405f7a9083278ce661346a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:30 +0000
Subject: [PATCH 06/18] fix: do not consume a list element that is dropped for
 lack of its separator

With skip(false) the last element without a separator is not part of the
result, but its text was consumed anyway.
---
 src/ctor/sep.rs | 38 ++++++++++++++++++++++++++++++++++++--
 1 file changed, 36 insertions(+), 2 deletions(-)

diff --git a/src/ctor/sep.rs b/src/ctor/sep.rs
index 8178a4b..6bd72c9 100644
--- a/src/ctor/sep.rs
+++ b/src/ctor/sep.rs
@@ -521,6 +521,10 @@ mod alloc_sep {
                     vals.push(val);
                 }
                 if s_span.is_err() {
+                    if !self.skip {
+                        // the element is not counted without its separator
+                        ctx.set_offset(beg);
+                    }
                     break;
                 }
             }
@@ -552,7 +556,11 @@ mod alloc_sep {
             let range: CRange<usize> = (self.min..).into();
 
             debug_regex_beg!("Separate", range, offset);
-            while let Ok(p_span) = ctx.try_mat(&self.pat) {
+            loop {
+                let beg = ctx.offset();
+                let Ok(p_span) = ctx.try_mat(&self.pat) else {
+                    break;
+                };
                 let s_span = ctx.try_mat(&self.sep);
 
                 if s_span.is_ok() || self.skip {
@@ -563,6 +571,10 @@ mod alloc_sep {
                     }
                 }
                 if s_span.is_err() {
+                    if !self.skip {
+                        // the element is not counted without its separator
+                        ctx.set_offset(beg);
+                    }
                     break;
                 }
             }
@@ -806,6 +818,10 @@ where
                     cnt += 1;
                 }
                 if s_span.is_err() {
+                    if !self.skip {
+                        // the element is not counted without its separator
+                        ctx.set_offset(beg);
+                    }
                     break;
                 }
             } else {
@@ -843,6 +859,8 @@ where
 
         debug_regex_beg!("Separate2", &range, offset);
         while cnt < N {
+            let beg = ctx.offset();
+
             if let Ok(p_span) = ctx.try_mat(&self.pat) {
                 let s_span = ctx.try_mat(&self.sep);
 
@@ -854,6 +872,10 @@ where
                     }
                 }
                 if s_span.is_err() {
+                    if !self.skip {
+                        // the element is not counted without its separator
+                        ctx.set_offset(beg);
+                    }
                     break;
                 }
             } else {
@@ -1121,6 +1143,10 @@ where
                 let s_span = ctx.try_mat(&self.sep);
 
                 if s_span.is_err() {
+                    if !self.skip {
+                        // the element is not counted without its separator
+                        ctx.set_offset(beg);
+                    }
                     end = true;
                 }
                 // The current value is captured only
@@ -1162,7 +1188,11 @@ where
         let range: CRange<usize> = (self.min..).into();
 
         debug_regex_beg!("SepCollect", range, offset);
-        while let Ok(p_span) = ctx.try_mat(&self.pat) {
+        loop {
+            let beg = ctx.offset();
+            let Ok(p_span) = ctx.try_mat(&self.pat) else {
+                break;
+            };
             let s_span = ctx.try_mat(&self.sep);
 
             if s_span.is_ok() || self.skip {
@@ -1173,6 +1203,10 @@ where
                 }
             }
             if s_span.is_err() {
+                if !self.skip {
+                    // the element is not counted without its separator
+                    ctx.set_offset(beg);
+                }
                 break;
             }
         }
-- 
2.43.0


From 27e49fd048efff256fab78ee153e1e7778891310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:39 +0000
Subject: [PATCH 07/18] fix: restore the position when a run-time parser
 builder returns an error

into_regex_builder and DynamicCtorThenBuilder rolled back when the built parser
failed, but not when the builder function itself returned an error.
---
 src/ctor/dthen.rs    | 5 ++++-
 src/regex/builder.rs | 3 ++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ctor/dthen.rs b/src/ctor/dthen.rs
index e426248..bce1568 100644
--- a/src/ctor/dthen.rs
+++ b/src/ctor/dthen.rs
@@ -231,7 +231,10 @@ where
             debug_ctor_stage!(
                 "DynamicCtorThenBuilder",
                 "right",
-                (self.func)(ctx.ctx(), &l)?.construct(ctx.ctx(), func)
+                match (self.func)(ctx.ctx(), &l) {
+                    Ok(pat) => pat.construct(ctx.ctx(), func),
+                    Err(err) => Err(err),
+                }
             )
         };
         let r = ctx.process_ret(r)?;
diff --git a/src/regex/builder.rs b/src/regex/builder.rs
index f57ee5a..84e068f 100644
--- a/src/regex/builder.rs
+++ b/src/regex/builder.rs
@@ -50,7 +50,8 @@ where
         let span = ctx.try_mat(&pat)?;
         // build new regex base on result, let the user control ctx
         // continue match from end of previous span
-        let new_pat = (func)(ctx.ctx(), &span)?;
+        let new_pat = (func)(ctx.ctx(), &span);
+        let new_pat = ctx.process_ret(new_pat)?;
         // match again
         let ret = ctx.try_mat(&new_pat);
 
-- 
2.43.0


From d9d69709e5d99e740190fdd4216044212fd10636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:34 +0000
Subject: [PATCH 08/18] fix: restore the position when a handler or mapper
 fails after the match

ctor_*, map_handler, map_span and map reported the error but left the position
after the matched text.
---
 src/ctx.rs | 31 ++++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/src/ctx.rs b/src/ctx.rs
index cf7c4ed..5bc5765 100644
--- a/src/ctx.rs
+++ b/src/ctx.rs
@@ -296,7 +296,10 @@ where
         P: Ctor<Self, O, H>,
         H: Handler<Self>,
     {
-        pat.construct(self, &mut handler)
+        let mut ctx = CtxGuard::new(self);
+        let ret = pat.construct(ctx.ctx(), &mut handler);
+
+        ctx.process_ret(ret)
     }
 
     /// Constructs a value using a constructor pattern and a closure handler.
@@ -390,7 +393,13 @@ where
         P: Regex<Self>,
         M: FallibleMap<Span, O>,
     {
-        mapper.try_map(self.map_handler(pat, extract::<Span>())?)
+        let mut ctx = CtxGuard::new(self);
+        let ret = ctx
+            .ctx()
+            .map_handler(pat, extract::<Span>())
+            .and_then(|span| mapper.try_map(span));
+
+        ctx.process_ret(ret)
     }
 
     /// Matches a pattern, extracts the matched substring, and maps it.
@@ -424,9 +433,15 @@ where
         P: Regex<Self>,
         M: FallibleMap<Self::Orig<'a>, O>,
     {
-        mapper.try_map(self.map_handler(pat, |ctx: &Self, span: &Span| {
-            ctx.orig_sub(span.beg, span.len)
-        })?)
+        let mut ctx = CtxGuard::new(self);
+        let ret = ctx
+            .ctx()
+            .map_handler(pat, |ctx: &Self, span: &Span| {
+                ctx.orig_sub(span.beg, span.len)
+            })
+            .and_then(|orig| mapper.try_map(orig));
+
+        ctx.process_ret(ret)
     }
 }
 
@@ -439,9 +454,11 @@ where
         P: Regex<Self>,
         H: Handler<Self, Out = O>,
     {
-        let ret = self.try_mat(pat)?;
+        let mut ctx = CtxGuard::new(self);
+        let span = ctx.try_mat(pat)?;
+        let ret = handler.invoke(ctx.ctx(), &span).map_err(Into::into);
 
-        handler.invoke(self, &ret).map_err(Into::into)
+        ctx.process_ret(ret)
     }
 }
 
-- 
2.43.0


From 142b91d237f4af1aa08dac1ebe9c6b9603743b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:07 +0000
Subject: [PATCH 09/18] fix: do not move past the end of the input when a
 search fails there

On a skipping context an attempt that matches nothing can end at the end of the
input; find and find_all then still advanced by one, leaving a position outside
the input.
---
 src/ctx.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/ctx.rs b/src/ctx.rs
index 5bc5765..b10de8e 100644
--- a/src/ctx.rs
+++ b/src/ctx.rs
@@ -518,7 +518,10 @@ pub trait MatchMulti<'a>: Sized + Match<'a> {
         let func = |ctx: &mut Self, val: Result<Span, Error>| match val {
             Ok(val) if !val.is_empty() => Some(val),
             _ => {
-                ctx.inc(1);
+                // a skipping context may already be at the end of the input
+                if ctx.offset() < ctx.len() {
+                    ctx.inc(1);
+                }
                 None
             }
         };
@@ -598,7 +601,10 @@ pub trait MatchMulti<'a>: Sized + Match<'a> {
         let func = |ctx: &mut Self, val: Result<Span, Error>| match val {
             Ok(val) if !val.is_empty() => Some(val),
             _ => {
-                ctx.inc(1);
+                // a skipping context may already be at the end of the input
+                if ctx.offset() < ctx.len() {
+                    ctx.inc(1);
+                }
                 None
             }
         };
-- 
2.43.0


From 6204e1f2853252dc2a1f7050cdeb75449b1b4e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:07 +0000
Subject: [PATCH 10/18] fix: iterate over every captured span of a group and
 stay within it

IteratorBySpan and IteratorByOptionSpan moved their cursor past the end when
polled after the last span, so size_hint underflowed. The iterators of
ArrayStorer stopped at the first empty slot although slots can be set in any
order.
---
 src/iter/span.rs | 33 +++++++++++++++++----------------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/src/iter/span.rs b/src/iter/span.rs
index 8e85228..66081c9 100644
--- a/src/iter/span.rs
+++ b/src/iter/span.rs
@@ -36,10 +36,10 @@ where
     type Item = &'a <T as IndexBySpan>::Output;
 
     fn next(&mut self) -> Option<Self::Item> {
-        let cur = self.cur;
+        let span = self.spans.get(self.cur)?;
 
         self.cur += 1;
-        self.spans.get(cur).and_then(|v| self.value.get_by_span(v))
+        self.value.get_by_span(span)
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
@@ -105,17 +105,18 @@ where
     type Item = &'a <T as IndexBySpan>::Output;
 
     fn next(&mut self) -> Option<Self::Item> {
-        let cur = self.cur;
-
-        self.cur += 1;
-        self.spans
-            .get(cur)
-            .and_then(|v| v.as_ref())
-            .and_then(|v| self.value.get_by_span(v))
+        // slots can be set in any order, skip the empty ones
+        while let Some(span) = self.spans.get(self.cur) {
+            self.cur += 1;
+            if let Some(span) = span {
+                return self.value.get_by_span(span);
+            }
+        }
+        None
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        let size = self.spans.len() - self.cur;
+        let size = self.spans.iter().skip(self.cur).flatten().count();
 
         (size, Some(size))
     }
@@ -140,13 +141,13 @@ impl Iterator for OptionSpanIterator<'_> {
     type Item = Span;
 
     fn next(&mut self) -> Option<Self::Item> {
-        let offset = self.offset;
-
-        if offset < self.spans.len() {
+        // slots can be set in any order, skip the empty ones
+        while let Some(span) = self.spans.get(self.offset) {
             self.offset += 1;
-            self.spans.get(offset).and_then(|v| v.as_ref()).copied()
-        } else {
-            None
+            if span.is_some() {
+                return *span;
+            }
         }
+        None
     }
 }
-- 
2.43.0


From ba61201b6800f190f49c88b32e99e548d3d68257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:21 +0000
Subject: [PATCH 11/18] fix: do not lock a thread-safe recursive parser while
 it is parsing

rec_parser_sync held the mutex around the whole parse, so the first recursion
of the parser into itself dead-locked. The slot is written exactly once: keep it
in a OnceLock, which is read without locking.
---
 src/ctor.rs      | 7 +++++++
 src/lib.rs       | 1 +
 src/regex.rs     | 7 +++++++
 src/regex/rec.rs | 9 +++++----
 4 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/ctor.rs b/src/ctor.rs
index b25b324..efa7cc4 100644
--- a/src/ctor.rs
+++ b/src/ctor.rs
@@ -281,6 +281,13 @@ impl_forward_ctor!(
     crate::std::Mutex<I>
 );
 
+#[cfg(feature = "std")]
+impl_forward_ctor!(
+    self_,
+    self_.get().ok_or(Error::Option)?,
+    crate::std::OnceLock<I>
+);
+
 impl<C, O, I, H> Ctor<C, O, H> for Cell<I>
 where
     I: Ctor<C, O, H> + Copy,
diff --git a/src/lib.rs b/src/lib.rs
index 5e61f0d..ab24393 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -35,6 +35,7 @@ pub(crate) mod std {
     #[allow(unused)]
     pub use std::collections::HashSet;
     pub use std::sync::Mutex;
+    pub use std::sync::OnceLock;
 }
 
 #[cfg(any(feature = "log", feature = "tracing"))]
diff --git a/src/regex.rs b/src/regex.rs
index d2beb95..e86bb2d 100644
--- a/src/regex.rs
+++ b/src/regex.rs
@@ -234,6 +234,13 @@ impl_forward_regex!(
     crate::std::Mutex<P>
 );
 
+#[cfg(feature = "std")]
+impl_forward_regex!(
+    self_,
+    self_.get().ok_or(Error::Option)?,
+    crate::std::OnceLock<P>
+);
+
 impl<P, C> Regex<C> for Cell<P>
 where
     P: Regex<C> + Copy,
diff --git a/src/regex/rec.rs b/src/regex/rec.rs
index 11fbc75..149d53f 100644
--- a/src/regex/rec.rs
+++ b/src/regex/rec.rs
@@ -8,10 +8,10 @@ mod rec_sync {
     use crate::ctor::Handler;
     use crate::ctx::Context;
     use crate::ctx::Match;
-    use crate::std::Mutex;
+    use crate::std::OnceLock;
 
     pub type RecursiveCtorSync<'b, C, O, H> =
-        Arc<Mutex<Option<Adapter<C, Box<dyn Ctor<C, O, H> + Send + Sync + 'b>>>>>;
+        Arc<OnceLock<Adapter<C, Box<dyn Ctor<C, O, H> + Send + Sync + 'b>>>>;
 
     ///
     /// This function will construct a [RecursiveCtorSync] for recursive parsing,
@@ -50,11 +50,12 @@ mod rec_sync {
         H: Handler<C>,
         I: Ctor<C, O, H> + Send + Sync + 'b,
     {
-        let r_ctor: RecursiveCtorSync<'b, C, O, H> = Arc::new(Mutex::new(None));
+        let r_ctor: RecursiveCtorSync<'b, C, O, H> = Arc::new(OnceLock::new());
         let r_ctor_clone = r_ctor.clone();
         let ctor = handler(r_ctor_clone);
 
-        *r_ctor.lock().unwrap() = Some(Adapter::dyn_box_sync(ctor));
+        // the slot is only ever set here, no lock is held while parsing
+        let _ = r_ctor.set(Adapter::dyn_box_sync(ctor));
         r_ctor
     }
 
-- 
2.43.0


From f3e97a80d56b12390c9e6e02124482387ea82c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:55 +0000
Subject: [PATCH 12/18] fix: make the checks of a thread-safe prefix unit
 atomic

PrefixSync loaded, judged and stored its counter and its flag separately, so
concurrent checks could be counted twice or not at all, underflow the counter,
or clear a recorded failure. Keep both in one variable and update it with
compare-exchange.
---
 src/neu/prefix.rs | 56 +++++++++++++++++++++++++----------------------
 1 file changed, 30 insertions(+), 26 deletions(-)

diff --git a/src/neu/prefix.rs b/src/neu/prefix.rs
index 079978f..439d412 100644
--- a/src/neu/prefix.rs
+++ b/src/neu/prefix.rs
@@ -1,7 +1,6 @@
 use core::cell::Cell;
 use core::fmt::Debug;
 use core::marker::PhantomData;
-use core::sync::atomic::AtomicBool;
 use core::sync::atomic::AtomicUsize;
 use core::sync::atomic::Ordering::Relaxed;
 
@@ -259,6 +258,9 @@ where
     Prefix::new(prefix, n, unit)
 }
 
+/// Marks a [`PrefixSync`] whose prefix check has failed.
+const STOPPED: usize = usize::MAX;
+
 pub struct PrefixSync<U, P, T>
 where
     U: Neu<T>,
@@ -266,8 +268,9 @@ where
 {
     prefix: P,
     unit: U,
-    count: AtomicUsize,
-    value: AtomicBool,
+    // remaining prefix checks, or `STOPPED` after a prefix check has failed;
+    // one variable, so that every check is one atomic step
+    state: AtomicUsize,
     marker: PhantomData<T>,
 }
 
@@ -280,8 +283,7 @@ where
         f.debug_struct("PrefixSync")
             .field("prefix", &self.prefix)
             .field("unit", &self.unit)
-            .field("count", &self.count)
-            .field("value", &self.value)
+            .field("state", &self.state)
             .finish()
     }
 }
@@ -295,8 +297,7 @@ where
         Self {
             prefix: Default::default(),
             unit: Default::default(),
-            count: Default::default(),
-            value: Default::default(),
+            state: AtomicUsize::new(STOPPED),
             marker: Default::default(),
         }
     }
@@ -311,8 +312,7 @@ where
         Self {
             prefix: self.prefix.clone(),
             unit: self.unit.clone(),
-            value: AtomicBool::new(self.value.load(Relaxed)),
-            count: AtomicUsize::new(self.count.load(Relaxed)),
+            state: AtomicUsize::new(self.state.load(Relaxed)),
             marker: self.marker,
         }
     }
@@ -327,8 +327,7 @@ where
         Self {
             prefix,
             unit,
-            count: AtomicUsize::new(count),
-            value: AtomicBool::new(true),
+            state: AtomicUsize::new(if count == STOPPED { count - 1 } else { count }),
             marker: PhantomData,
         }
     }
@@ -368,25 +367,30 @@ where
 {
     #[inline(always)]
     fn is_match(&self, other: &T) -> bool {
-        let mut value = self.value.load(Relaxed);
-
-        if value {
-            let count = self.count.load(Relaxed);
-
-            if count == 0 {
-                value = self.unit.is_match(other) && value;
+        let mut judged = None;
+        let mut state = self.state.load(Relaxed);
 
-                crate::trace_retval!("PrefixSync", other, value);
-            } else {
-                value = self.prefix.is_match(other) && value;
+        loop {
+            if state == STOPPED {
+                return false;
+            }
+            if state == 0 {
+                let value = self.unit.is_match(other);
 
-                crate::trace_retval!("PrefixSync", count, other, value);
-                self.value.store(value, Relaxed);
-                self.count.store(count - 1, Relaxed);
+                return crate::trace_retval!("PrefixSync", other, value);
+            }
+            let value = *judged.get_or_insert_with(|| self.prefix.is_match(other));
+            let next = if value { state - 1 } else { STOPPED };
+
+            match self
+                .state
+                .compare_exchange_weak(state, next, Relaxed, Relaxed)
+            {
+                Ok(count) => return crate::trace_retval!("PrefixSync", count, other, value),
+                // another check came first, decide again
+                Err(current) => state = current,
             }
         }
-
-        value
     }
 
     fn min_length(&self) -> usize {
-- 
2.43.0


From 09297e08429ce29f1a13f5677e29f63ba365f20a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:54 +0000
Subject: [PATCH 13/18] fix: a negated unit can accept shorter elements than
 the unit itself
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

Not reported the min_length of the unit it negates, so for instance
'é'.not().times(1..3) refused a remaining input of one byte that it matches.
---
 src/neu/op_not.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/neu/op_not.rs b/src/neu/op_not.rs
index 4d67f0d..e5e1f28 100644
--- a/src/neu/op_not.rs
+++ b/src/neu/op_not.rs
@@ -108,9 +108,8 @@ where
         crate::trace_retval!("Not", other, ret)
     }
 
-    fn min_length(&self) -> usize {
-        self.unit.min_length()
-    }
+    // what the negation accepts can be shorter than what the unit accepts,
+    // so `min_length` is the default one
 }
 
 ///
-- 
2.43.0


From 137901cc2daf19696635ccd551ea5af1b6612175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:12 +0000
Subject: [PATCH 14/18] Add a scheduling seam for deterministic simulation (cfg
 neure_sim)

Off by default: without --cfg neure_sim nothing changes.
---
 src/lib.rs        |   8 ++
 src/neu/prefix.rs |   3 +
 src/sim.rs        | 285 ++++++++++++++++++++++++++++++++++++++++++++++
 3 files changed, 296 insertions(+)
 create mode 100644 src/sim.rs

diff --git a/src/lib.rs b/src/lib.rs
index ab24393..3b1bb56 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,5 +1,6 @@
 #![doc = include_str!("../README.md")]
 #![no_std]
+#![allow(unexpected_cfgs)]
 pub mod ctor;
 pub mod ctx;
 pub mod err;
@@ -9,6 +10,10 @@ pub mod neu;
 pub mod regex;
 pub mod span;
 
+#[cfg(all(neure_sim, feature = "std"))]
+#[doc(hidden)]
+pub mod sim;
+
 pub(crate) mod log;
 pub(crate) mod r#macro;
 pub(crate) use log::*;
@@ -30,10 +35,13 @@ pub(crate) mod alloc {
 pub(crate) mod std {
     extern crate std;
 
+    #[cfg(neure_sim)]
+    pub use crate::sim::Mutex;
     #[allow(unused)]
     pub use std::collections::BTreeSet;
     #[allow(unused)]
     pub use std::collections::HashSet;
+    #[cfg(not(neure_sim))]
     pub use std::sync::Mutex;
     pub use std::sync::OnceLock;
 }
diff --git a/src/neu/prefix.rs b/src/neu/prefix.rs
index 439d412..737623f 100644
--- a/src/neu/prefix.rs
+++ b/src/neu/prefix.rs
@@ -1,12 +1,15 @@
 use core::cell::Cell;
 use core::fmt::Debug;
 use core::marker::PhantomData;
+#[cfg(not(neure_sim))]
 use core::sync::atomic::AtomicUsize;
 use core::sync::atomic::Ordering::Relaxed;
 
 use super::Neu;
 
 use crate::MayDebug;
+#[cfg(neure_sim)]
+use crate::sim::AtomicUsize;
 
 pub struct Prefix<U, P, T>
 where
diff --git a/src/sim.rs b/src/sim.rs
new file mode 100644
index 0000000..0fe21ec
--- /dev/null
+++ b/src/sim.rs
@@ -0,0 +1,285 @@
+//! Scheduling seam for deterministic simulation.
+//!
+//! Only compiled with `--cfg neure_sim`. The lock and the atomics that the crate
+//! uses are then replaced by the wrappers below: they behave like the ones they
+//! wrap, but report every operation to a registered function first, which can
+//! decide what runs next. Without a registered function nothing is reported.
+
+extern crate std;
+
+use core::fmt::Debug;
+use core::ops::Deref;
+use core::ops::DerefMut;
+use core::sync::atomic::Ordering;
+use std::sync::LockResult;
+use std::sync::OnceLock;
+use std::sync::PoisonError;
+use std::sync::TryLockError;
+use std::sync::TryLockResult;
+
+/// The operation that is reported.
+#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
+pub enum Point {
+    /// A lock is about to be taken.
+    Lock,
+
+    /// A lock could not be taken, it will be tried again when the function returns.
+    Blocked,
+
+    /// A lock has been released.
+    Unlock,
+
+    /// An atomic variable is about to be read.
+    Load,
+
+    /// An atomic variable is about to be written or updated.
+    Store,
+}
+
+/// The registered function gets the operation and the address of the lock or variable.
+/// For [`Point::Blocked`] it returns false to wait for the lock outside of the simulation.
+pub type Hook = fn(Point, usize) -> bool;
+
+static HOOK: OnceLock<Hook> = OnceLock::new();
+
+/// Registers the function, once per process.
+pub fn set_hook(hook: Hook) -> bool {
+    HOOK.set(hook).is_ok()
+}
+
+fn reach<T: ?Sized>(point: Point, addr: *const T) -> bool {
+    match HOOK.get() {
+        Some(hook) => hook(point, addr as *const () as usize),
+        None => false,
+    }
+}
+
+#[derive(Default)]
+pub struct Mutex<T: ?Sized> {
+    inner: std::sync::Mutex<T>,
+}
+
+pub struct MutexGuard<'a, T: ?Sized> {
+    inner: Option<std::sync::MutexGuard<'a, T>>,
+    mutex: &'a Mutex<T>,
+}
+
+impl<T> Mutex<T> {
+    pub const fn new(val: T) -> Self {
+        Self {
+            inner: std::sync::Mutex::new(val),
+        }
+    }
+
+    pub fn into_inner(self) -> LockResult<T> {
+        self.inner.into_inner()
+    }
+}
+
+impl<T> From<T> for Mutex<T> {
+    fn from(val: T) -> Self {
+        Self::new(val)
+    }
+}
+
+impl<T: ?Sized> Mutex<T> {
+    fn guard<'a>(&'a self, inner: std::sync::MutexGuard<'a, T>) -> MutexGuard<'a, T> {
+        MutexGuard {
+            inner: Some(inner),
+            mutex: self,
+        }
+    }
+
+    fn result<'a>(
+        &'a self,
+        ret: LockResult<std::sync::MutexGuard<'a, T>>,
+    ) -> LockResult<MutexGuard<'a, T>> {
+        match ret {
+            Ok(guard) => Ok(self.guard(guard)),
+            Err(err) => Err(PoisonError::new(self.guard(err.into_inner()))),
+        }
+    }
+
+    pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
+        reach(Point::Lock, self);
+        loop {
+            match self.inner.try_lock() {
+                Ok(guard) => return self.result(Ok(guard)),
+                Err(TryLockError::Poisoned(err)) => return self.result(Err(err)),
+                Err(TryLockError::WouldBlock) => {
+                    if !reach(Point::Blocked, self) {
+                        return self.result(self.inner.lock());
+                    }
+                }
+            }
+        }
+    }
+
+    pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
+        reach(Point::Lock, self);
+        match self.inner.try_lock() {
+            Ok(guard) => Ok(self.guard(guard)),
+            Err(TryLockError::Poisoned(err)) => Err(TryLockError::Poisoned(PoisonError::new(
+                self.guard(err.into_inner()),
+            ))),
+            Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
+        }
+    }
+
+    pub fn is_poisoned(&self) -> bool {
+        self.inner.is_poisoned()
+    }
+
+    pub fn clear_poison(&self) {
+        self.inner.clear_poison()
+    }
+
+    pub fn get_mut(&mut self) -> LockResult<&mut T> {
+        self.inner.get_mut()
+    }
+}
+
+impl<T: ?Sized + Debug> Debug for Mutex<T> {
+    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
+        self.inner.fmt(f)
+    }
+}
+
+impl<T: ?Sized> Deref for MutexGuard<'_, T> {
+    type Target = T;
+
+    fn deref(&self) -> &T {
+        self.inner.as_ref().unwrap()
+    }
+}
+
+impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
+    fn deref_mut(&mut self) -> &mut T {
+        self.inner.as_mut().unwrap()
+    }
+}
+
+impl<T: ?Sized + Debug> Debug for MutexGuard<'_, T> {
+    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
+        self.inner.fmt(f)
+    }
+}
+
+impl<T: ?Sized> Drop for MutexGuard<'_, T> {
+    fn drop(&mut self) {
+        self.inner.take();
+        reach(Point::Unlock, self.mutex);
+    }
+}
+
+macro_rules! sim_atomic {
+    ($name:ident, $type:ty, [$($op:ident)*]) => {
+        #[derive(Default)]
+        pub struct $name {
+            inner: core::sync::atomic::$name,
+        }
+
+        impl Debug for $name {
+            fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
+                self.inner.fmt(f)
+            }
+        }
+
+        impl From<$type> for $name {
+            fn from(val: $type) -> Self {
+                Self::new(val)
+            }
+        }
+
+        impl $name {
+            pub const fn new(val: $type) -> Self {
+                Self {
+                    inner: core::sync::atomic::$name::new(val),
+                }
+            }
+
+            pub fn get_mut(&mut self) -> &mut $type {
+                self.inner.get_mut()
+            }
+
+            pub fn into_inner(self) -> $type {
+                self.inner.into_inner()
+            }
+
+            pub fn load(&self, order: Ordering) -> $type {
+                reach(Point::Load, self);
+                self.inner.load(order)
+            }
+
+            pub fn store(&self, val: $type, order: Ordering) {
+                reach(Point::Store, self);
+                self.inner.store(val, order)
+            }
+
+            pub fn swap(&self, val: $type, order: Ordering) -> $type {
+                reach(Point::Store, self);
+                self.inner.swap(val, order)
+            }
+
+            pub fn compare_exchange(
+                &self,
+                current: $type,
+                new: $type,
+                success: Ordering,
+                failure: Ordering,
+            ) -> Result<$type, $type> {
+                reach(Point::Store, self);
+                self.inner.compare_exchange(current, new, success, failure)
+            }
+
+            pub fn compare_exchange_weak(
+                &self,
+                current: $type,
+                new: $type,
+                success: Ordering,
+                failure: Ordering,
+            ) -> Result<$type, $type> {
+                self.compare_exchange(current, new, success, failure)
+            }
+
+            pub fn fetch_update<F>(
+                &self,
+                set_order: Ordering,
+                fetch_order: Ordering,
+                mut f: F,
+            ) -> Result<$type, $type>
+            where
+                F: FnMut($type) -> Option<$type>,
+            {
+                let mut prev = self.load(fetch_order);
+
+                while let Some(next) = f(prev) {
+                    match self.compare_exchange(prev, next, set_order, fetch_order) {
+                        Ok(val) => return Ok(val),
+                        Err(val) => prev = val,
+                    }
+                }
+                Err(prev)
+            }
+
+            $(
+                pub fn $op(&self, val: $type, order: Ordering) -> $type {
+                    reach(Point::Store, self);
+                    self.inner.$op(val, order)
+                }
+            )*
+        }
+    };
+}
+
+sim_atomic!(
+    AtomicUsize,
+    usize,
+    [fetch_add fetch_sub fetch_and fetch_or fetch_xor fetch_nand fetch_max fetch_min]
+);
+
+sim_atomic!(
+    AtomicBool,
+    bool,
+    [fetch_and fetch_or fetch_xor fetch_nand]
+);
-- 
2.43.0


From ef26b5e6697de0e91089096a7a611afac88b7849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:17 +0000
Subject: [PATCH 15/18] fix: let clone_at keep the whole input, positioned at
 the offset

The clone only saw the tail of the input with its position reset to zero, so a
pattern used as a per-element condition (re_cond) judged anchors and positions
differently from the same pattern matched at that place.
---
 src/ctx/regex.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/ctx/regex.rs b/src/ctx/regex.rs
index 5062203..690a212 100644
--- a/src/ctx/regex.rs
+++ b/src/ctx/regex.rs
@@ -380,7 +380,12 @@ impl<'a> Context<'a> for RegexCtx<'a, [u8]> {
     }
 
     fn clone_at(&self, offset: usize) -> Result<Self, Error> {
-        self.orig_at(offset).map(RegexCtx::new)
+        // same data, so that anchors and spans mean the same in the clone
+        self.orig_at(offset)?;
+        Ok(Self {
+            dat: self.dat,
+            offset,
+        })
     }
 }
 
@@ -432,7 +437,12 @@ impl<'a> Context<'a> for RegexCtx<'a, str> {
     }
 
     fn clone_at(&self, offset: usize) -> Result<Self, Error> {
-        self.orig_at(offset).map(RegexCtx::new)
+        // same data, so that anchors and spans mean the same in the clone
+        self.orig_at(offset)?;
+        Ok(Self {
+            dat: self.dat,
+            offset,
+        })
     }
 }
 
-- 
2.43.0


From f70800660f0af25badbdde533965fb3b63c4c969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:28 +0000
Subject: [PATCH 16/18] fix: advance a failed search by a whole character
 instead of a byte
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

A pattern tried in the middle of a character could match there (for example
not("é").then(consume_all())), which yields a span that is not text.
---
 src/ctx.rs | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/src/ctx.rs b/src/ctx.rs
index b10de8e..d374a02 100644
--- a/src/ctx.rs
+++ b/src/ctx.rs
@@ -10,6 +10,7 @@ use crate::ctor::Handler;
 use crate::ctor::extract;
 use crate::err::Error;
 use crate::map::FallibleMap;
+use crate::neu::calc_length;
 use crate::regex::Regex;
 use crate::span::Span;
 
@@ -518,10 +519,7 @@ pub trait MatchMulti<'a>: Sized + Match<'a> {
         let func = |ctx: &mut Self, val: Result<Span, Error>| match val {
             Ok(val) if !val.is_empty() => Some(val),
             _ => {
-                // a skipping context may already be at the end of the input
-                if ctx.offset() < ctx.len() {
-                    ctx.inc(1);
-                }
+                inc_item(ctx);
                 None
             }
         };
@@ -601,10 +599,7 @@ pub trait MatchMulti<'a>: Sized + Match<'a> {
         let func = |ctx: &mut Self, val: Result<Span, Error>| match val {
             Ok(val) if !val.is_empty() => Some(val),
             _ => {
-                // a skipping context may already be at the end of the input
-                if ctx.offset() < ctx.len() {
-                    ctx.inc(1);
-                }
+                inc_item(ctx);
                 None
             }
         };
@@ -698,6 +693,25 @@ pub trait MatchMulti<'a>: Sized + Match<'a> {
 
 impl<'a, T> MatchMulti<'a> for T where Self: Sized + Match<'a> {}
 
+// move past the item at the current position, so that a search never tries inside of it
+fn inc_item<'a>(ctx: &mut impl Context<'a>) {
+    let remaining_len = ctx.len().saturating_sub(ctx.offset());
+
+    // a skipping context may already be at the end of the input
+    if remaining_len > 0 {
+        let len = match ctx.peek() {
+            Ok(mut iter) => {
+                let beg = iter.next().map(|v| v.0);
+
+                calc_length(beg, iter.next().map(|v| v.0), remaining_len)
+            }
+            Err(_) => 1,
+        };
+
+        ctx.inc(len.max(1));
+    }
+}
+
 // make new span [offset, offset + len) and increment offset
 pub(crate) fn new_span_inc<'a>(ctx: &mut impl Context<'a>, len: usize) -> Span {
     let span = Span::new(ctx.offset(), len);
-- 
2.43.0


From d5e84003082d4191e35e222d0b0408042f81f784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:16 +0000
Subject: [PATCH 17/18] fix: logging a construction that ended before its start
 must not overflow

---
 src/log.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/log.rs b/src/log.rs
index 5227dab..3bf5789 100644
--- a/src/log.rs
+++ b/src/log.rs
@@ -161,7 +161,7 @@ mod macro_for_log {
                 "{}(Ctor) beg = {}, len = {} -> {:?}",
                 $name,
                 $beg,
-                $end - $beg,
+                $end.saturating_sub($beg),
                 $ret
             );
         }};
@@ -171,7 +171,7 @@ mod macro_for_log {
                 $name,
                 $val,
                 $beg,
-                $end - $beg,
+                $end.saturating_sub($beg),
                 $ret
             );
         }};
-- 
2.43.0


From 8476d5439d1d33adb6a2be2cb7127e2cda359a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:29 +0000
Subject: [PATCH 18/18] fix: report OutOfBound instead of overflowing when
 asked for text outside of the input

The remaining text of a byte context from a position past the end, and a piece
whose end does not fit a usize, overflowed and panicked, although these return a
Result and a text context reports OutOfBound.
---
 src/ctx.rs       |  4 +++-
 src/ctx/regex.rs | 10 ++++++----
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/ctx.rs b/src/ctx.rs
index d374a02..80dd6ae 100644
--- a/src/ctx.rs
+++ b/src/ctx.rs
@@ -73,7 +73,9 @@ pub trait Context<'a> {
 
     /// Returns a slice of the original data starting from a specific offset.
     fn orig_at(&self, offset: usize) -> Result<Self::Orig<'a>, Error> {
-        self.orig_sub(offset, self.len() - offset)
+        let len = self.len().checked_sub(offset).ok_or(Error::OutOfBound)?;
+
+        self.orig_sub(offset, len)
     }
 
     /// Returns a subslice of the original data with specified offset and length.
diff --git a/src/ctx/regex.rs b/src/ctx/regex.rs
index 690a212..00bf2e2 100644
--- a/src/ctx/regex.rs
+++ b/src/ctx/regex.rs
@@ -374,8 +374,9 @@ impl<'a> Context<'a> for RegexCtx<'a, [u8]> {
     }
 
     fn orig_sub(&self, offset: usize, len: usize) -> Result<Self::Orig<'a>, Error> {
-        self.dat
-            .get(offset..(offset + len))
+        offset
+            .checked_add(len)
+            .and_then(|end| self.dat.get(offset..end))
             .ok_or(Error::OutOfBound)
     }
 
@@ -431,8 +432,9 @@ impl<'a> Context<'a> for RegexCtx<'a, str> {
     }
 
     fn orig_sub(&self, offset: usize, len: usize) -> Result<Self::Orig<'a>, Error> {
-        self.dat
-            .get(offset..(offset + len))
+        offset
+            .checked_add(len)
+            .and_then(|end| self.dat.get(offset..end))
             .ok_or(Error::OutOfBound)
     }
 
-- 
2.43.0

