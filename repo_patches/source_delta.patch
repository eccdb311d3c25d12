From f8f92be4077b841f83cac40a80394a0112c6f447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:06 +0000
Subject: [PATCH 01/41] fix: keep the argument positions of a parsed request

The request parser reset its context, clearing the argument positions, right
before handing out a request borrowing them, so no parsed request ever had any
arguments.
---
 engine/src/command/request/context.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/engine/src/command/request/context.rs b/engine/src/command/request/context.rs
index d9b4997..8302dab 100644
--- a/engine/src/command/request/context.rs
+++ b/engine/src/command/request/context.rs
@@ -2,7 +2,10 @@ use super::{super::ContextConclusion, Request};
 use crate::{command::CommandId, state::KeyType};
 use alloc::borrow::Cow;
 use arrayvec::ArrayVec;
-use core::convert::{TryFrom, TryInto};
+use core::{
+    convert::{TryFrom, TryInto},
+    mem,
+};
 
 type Conclusion<'a> = ContextConclusion<(CommandId, Option<KeyType>)>;
 
@@ -87,13 +90,16 @@ impl Context {
 
             match conclusion {
                 Conclusion::Finished((command_id, key_type)) => {
+                    // The positions need to be taken out of the context prior to
+                    // resetting it, since resetting clears them.
+                    let positions = mem::take(&mut self.positions);
                     self.reset();
 
                     return Ok(Some(Request {
                         buf: Cow::Borrowed(buf),
                         command_id,
                         key_type,
-                        positions: Cow::Borrowed(&self.positions),
+                        positions: Cow::Owned(positions),
                     }));
                 }
                 Conclusion::Incomplete => return Ok(None),
-- 
2.43.0


From 8fcfbe629e47c40f77e7cf5ab4d26032f046336d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:06 +0000
Subject: [PATCH 02/41] fix: locate arguments after their length in the request
 parser

An argument was considered complete up to 4 bytes too early, and its recorded
end position didn't account for the 4 bytes of its length.
---
 engine/src/command/request/context.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/engine/src/command/request/context.rs b/engine/src/command/request/context.rs
index 8302dab..9c0c51d 100644
--- a/engine/src/command/request/context.rs
+++ b/engine/src/command/request/context.rs
@@ -179,13 +179,16 @@ impl Context {
 
         let arg_len = u32::from_be_bytes(len_bytes) as usize;
 
-        if buf.get(self.idx..self.idx + arg_len).is_some() {
-            self.positions.push(self.idx + arg_len);
-        } else {
+        let arg_start = self.idx + Self::ARG_LEN_BYTES;
+        let arg_end = arg_start + arg_len;
+
+        if buf.get(arg_start..arg_end).is_none() {
             return Ok(Conclusion::Incomplete);
         }
 
-        self.idx += 4 + arg_len;
+        // Positions are the inclusive end of an argument, as in the builder.
+        self.positions.push(arg_end - 1);
+        self.idx = arg_end;
 
         if self.positions.len() == argument_count as usize {
             Ok(Conclusion::Finished((command_id, key_type)))
-- 
2.43.0


From 535f3d1f4038f8da96a00e3ccda79b37643a7c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:06 +0000
Subject: [PATCH 03/41] fix: parse the key type of a request

The parser derived the key type from the command's byte rather than from the
byte following it, and didn't mask the key type bit off of the command ID, so
every request specifying a key type was rejected.
---
 engine/src/command/request/context.rs | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/engine/src/command/request/context.rs b/engine/src/command/request/context.rs
index 9c0c51d..7311d3d 100644
--- a/engine/src/command/request/context.rs
+++ b/engine/src/command/request/context.rs
@@ -114,32 +114,37 @@ impl Context {
             None => return Ok(Conclusion::Incomplete),
         };
 
-        // If the first bit is flipped, then this byte is denoting the type of
-        // key to work with. This means that byte idx 2 is the argument length.
+        let command_id =
+            CommandId::try_from(byte & 0b0111_1111).map_err(|_| ParseError::CommandIdInvalid)?;
+
+        // If the first bit is flipped, then the next byte is denoting the type
+        // of key to work with. This means that byte idx 2 is the argument
+        // length.
         //
-        // If the first bit is 0, then this byte is the argument length, and the
-        // type of key to work with is not a requirement.
+        // If the first bit is 0, then the next byte is the argument length, and
+        // the type of key to work with is not a requirement.
         let key_type = if byte >> 7 == 1 {
-            let key_type_id = byte >> 1;
+            let key_type_id = match buf.get(1) {
+                Some(key_type_id) => *key_type_id,
+                None => return Ok(Conclusion::Incomplete),
+            };
 
             Some(KeyType::try_from(key_type_id).map_err(|_| ParseError::KeyTypeInvalid)?)
         } else {
             None
         };
 
-        let command_id = CommandId::try_from(byte).map_err(|_| ParseError::CommandIdInvalid)?;
-
         // If the command type is simple and has no arguments or keys, then
         // we can just return a successful command here.
         if command_id.is_simple() {
-            return Ok(Conclusion::Finished((command_id, None)));
+            return Ok(Conclusion::Finished((command_id, key_type)));
         }
 
         self.stage = Stage::Kind {
             command_id,
             key_type,
         };
-        self.idx = self.idx.wrapping_add(1);
+        self.idx = 1 + key_type.is_some() as usize;
 
         Ok(Conclusion::Next)
     }
-- 
2.43.0


From ce7400cf58e0cf598b843161cf28622ed3c3cdc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:06 +0000
Subject: [PATCH 04/41] fix: conclude parsing a request without arguments

The parser kept on parsing arguments until it reached the argument count, which
never happens when the request has none.
---
 engine/src/command/request/context.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/engine/src/command/request/context.rs b/engine/src/command/request/context.rs
index 7311d3d..2497dd9 100644
--- a/engine/src/command/request/context.rs
+++ b/engine/src/command/request/context.rs
@@ -160,6 +160,10 @@ impl Context {
             None => return Ok(Conclusion::Incomplete),
         };
 
+        if argument_count == 0 {
+            return Ok(Conclusion::Finished((command_id, key_type)));
+        }
+
         self.stage = Stage::ArgumentParsing {
             argument_count,
             command_id,
-- 
2.43.0


From 83e9f38d494c3d294be5ec6e6f7679784379de9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:04 +0000
Subject: [PATCH 05/41] fix: exclude bytes after a request from the parsed
 request

Bytes following a request in the buffer, such as the delimiter that the server
reads up to, were considered a part of the request. Converting it back into a
builder and adding an argument would append the argument after those bytes.
---
 engine/src/command/request/context.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/engine/src/command/request/context.rs b/engine/src/command/request/context.rs
index 2497dd9..00feefa 100644
--- a/engine/src/command/request/context.rs
+++ b/engine/src/command/request/context.rs
@@ -90,13 +90,14 @@ impl Context {
 
             match conclusion {
                 Conclusion::Finished((command_id, key_type)) => {
-                    // The positions need to be taken out of the context prior to
-                    // resetting it, since resetting clears them.
+                    // The end and positions need to be taken out of the context
+                    // prior to resetting it, since resetting clears them.
+                    let end = self.idx;
                     let positions = mem::take(&mut self.positions);
                     self.reset();
 
                     return Ok(Some(Request {
-                        buf: Cow::Borrowed(buf),
+                        buf: Cow::Borrowed(&buf[..end]),
                         command_id,
                         key_type,
                         positions: Cow::Owned(positions),
@@ -134,6 +135,8 @@ impl Context {
             None
         };
 
+        self.idx = 1 + key_type.is_some() as usize;
+
         // If the command type is simple and has no arguments or keys, then
         // we can just return a successful command here.
         if command_id.is_simple() {
@@ -144,7 +147,6 @@ impl Context {
             command_id,
             key_type,
         };
-        self.idx = 1 + key_type.is_some() as usize;
 
         Ok(Conclusion::Next)
     }
@@ -160,6 +162,8 @@ impl Context {
             None => return Ok(Conclusion::Incomplete),
         };
 
+        self.idx = self.idx.saturating_add(1);
+
         if argument_count == 0 {
             return Ok(Conclusion::Finished((command_id, key_type)));
         }
@@ -169,7 +173,6 @@ impl Context {
             command_id,
             key_type,
         };
-        self.idx = self.idx.saturating_add(1);
 
         Ok(Conclusion::Next)
     }
-- 
2.43.0


From c8bb06bc0c8a785a0414fc51c843c663281cfd9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:04 +0000
Subject: [PATCH 06/41] fix: return an error when a request has too many
 arguments

The 256th argument overflowed the argument count rather than returning
TooManyArguments, the length of a list, map, or set was truncated to a u8
prior to being checked, and a map was counted as having one argument per pair
rather than two.
---
 engine/src/command/request/builder.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/engine/src/command/request/builder.rs b/engine/src/command/request/builder.rs
index 47562eb..07f94fb 100644
--- a/engine/src/command/request/builder.rs
+++ b/engine/src/command/request/builder.rs
@@ -171,7 +171,7 @@ impl RequestBuilder {
             }
             Value::Integer(int) => self.push_argument(Cow::Borrowed(int.to_be_bytes().as_ref()))?,
             Value::List(list) => {
-                if self.arguments_would_overfill(list.len() as u8) {
+                if self.arguments_would_overfill(list.len()) {
                     return Err(RequestBuilderError::TooManyArguments);
                 }
 
@@ -184,7 +184,7 @@ impl RequestBuilder {
                 }
             }
             Value::Map(map) => {
-                if self.arguments_would_overfill(map.len() as u8) {
+                if self.arguments_would_overfill(map.len().saturating_mul(2)) {
                     return Err(RequestBuilderError::TooManyArguments);
                 }
 
@@ -198,7 +198,7 @@ impl RequestBuilder {
                 }
             }
             Value::Set(set) => {
-                if self.arguments_would_overfill(set.len() as u8) {
+                if self.arguments_would_overfill(set.len()) {
                     return Err(RequestBuilderError::TooManyArguments);
                 }
 
@@ -222,8 +222,8 @@ impl RequestBuilder {
         Ok(self)
     }
 
-    fn arguments_would_overfill(&self, amount: u8) -> bool {
-        self.argument_count.checked_add(amount).is_none()
+    fn arguments_would_overfill(&self, amount: usize) -> bool {
+        amount > (u8::MAX - self.argument_count) as usize
     }
 
     fn update_count(&mut self) {
@@ -242,6 +242,10 @@ impl RequestBuilder {
         &mut self,
         argument: impl Into<Cow<'a, [u8]>>,
     ) -> Result<(), RequestBuilderError> {
+        if self.arguments_would_overfill(1) {
+            return Err(RequestBuilderError::TooManyArguments);
+        }
+
         let argument = argument.into();
         let argument_len = argument.len();
 
-- 
2.43.0


From 76bb3dfa0376f8adbff575c6fea46a42e51db459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:04 +0000
Subject: [PATCH 07/41] fix: reject arguments for simple commands in the
 request builder

A simple command has no argument count byte, so adding an argument to it
resulted in the count overwriting a part of the argument.
---
 engine/src/command/request/builder.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/engine/src/command/request/builder.rs b/engine/src/command/request/builder.rs
index 07f94fb..b4cf2ff 100644
--- a/engine/src/command/request/builder.rs
+++ b/engine/src/command/request/builder.rs
@@ -223,6 +223,11 @@ impl RequestBuilder {
     }
 
     fn arguments_would_overfill(&self, amount: usize) -> bool {
+        // Simple commands don't have arguments, nor a byte to count them in.
+        if self.command_id.is_simple() {
+            return amount > 0;
+        }
+
         amount > (u8::MAX - self.argument_count) as usize
     }
 
-- 
2.43.0


From 094c87e9dd6dd832d48c4a81bba56c0b1333e194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:04 +0000
Subject: [PATCH 08/41] fix: reject empty items of a value in the request
 builder

Empty lists and empty items of maps and sets weren't rejected, and an empty item
of a list was only rejected after having added the items preceding it.
---
 engine/src/command/request/builder.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/engine/src/command/request/builder.rs b/engine/src/command/request/builder.rs
index b4cf2ff..a867096 100644
--- a/engine/src/command/request/builder.rs
+++ b/engine/src/command/request/builder.rs
@@ -175,11 +175,11 @@ impl RequestBuilder {
                     return Err(RequestBuilderError::TooManyArguments);
                 }
 
-                for item in list {
-                    if item.is_empty() {
-                        return Err(RequestBuilderError::ValueEmpty);
-                    }
+                if list.is_empty() || list.iter().any(Vec::is_empty) {
+                    return Err(RequestBuilderError::ValueEmpty);
+                }
 
+                for item in list {
                     self.push_argument(item)?;
                 }
             }
@@ -188,7 +188,11 @@ impl RequestBuilder {
                     return Err(RequestBuilderError::TooManyArguments);
                 }
 
-                if map.is_empty() {
+                if map.is_empty()
+                    || map
+                        .iter()
+                        .any(|r| r.key().is_empty() || r.value().is_empty())
+                {
                     return Err(RequestBuilderError::ValueEmpty);
                 }
 
@@ -202,7 +206,7 @@ impl RequestBuilder {
                     return Err(RequestBuilderError::TooManyArguments);
                 }
 
-                if set.is_empty() {
+                if set.is_empty() || set.iter().any(|item| item.is_empty()) {
                     return Err(RequestBuilderError::ValueEmpty);
                 }
 
-- 
2.43.0


From d4879250a90f524673e47d4885c0a845253bc527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:04 +0000
Subject: [PATCH 09/41] fix: retain the argument count when converting a
 request to a builder

Adding an argument to a builder converted from a request reset the count of
arguments to 1.
---
 engine/src/command/request/builder.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/engine/src/command/request/builder.rs b/engine/src/command/request/builder.rs
index a867096..33f0525 100644
--- a/engine/src/command/request/builder.rs
+++ b/engine/src/command/request/builder.rs
@@ -292,6 +292,7 @@ impl From<Request<'_>> for RequestBuilder {
         let mut builder = Self::new_with_key_type(request.command_id, request.key_type);
         builder.buf = request.buf.into_owned();
         builder.positions = request.positions.into_owned();
+        builder.argument_count = builder.positions.len() as u8;
 
         builder
     }
-- 
2.43.0


From 9e9d61948b50c1376f1b5152d2f8656bea37482b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:34 +0000
Subject: [PATCH 10/41] fix: report the remaining amount of arguments as their
 length

The length of the iterator was the end of its range, regardless of how many
arguments precede the range, were already yielded, or exist.
---
 engine/src/command/request/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/engine/src/command/request/mod.rs b/engine/src/command/request/mod.rs
index efa2a5f..089ba46 100644
--- a/engine/src/command/request/mod.rs
+++ b/engine/src/command/request/mod.rs
@@ -102,6 +102,8 @@ pub struct Arguments<'a> {
 impl ExactSizeIterator for Arguments<'_> {
     fn len(&self) -> usize {
         self.to
+            .min(self.request.arg_count())
+            .saturating_sub(self.idx)
     }
 }
 
-- 
2.43.0


From 07425003aa501fcb8a0e32ec949939d4959dd256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:34 +0000
Subject: [PATCH 11/41] fix: reject a map with a key that has no value

The key was silently dropped and the command succeeded.
---
 engine/src/command/request/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/engine/src/command/request/mod.rs b/engine/src/command/request/mod.rs
index 089ba46..bad935c 100644
--- a/engine/src/command/request/mod.rs
+++ b/engine/src/command/request/mod.rs
@@ -66,7 +66,10 @@ impl MultiArgument<'_> for DashMap<Vec<u8>, Vec<u8>> {
     fn convert(mut args: Arguments<'_>) -> Option<Self> {
         let map = DashMap::new();
 
-        while let (Some(k), Some(v)) = (args.next(), args.next()) {
+        while let Some(k) = args.next() {
+            // A key without a value can't be stored.
+            let v = args.next()?;
+
             map.insert(k.to_owned(), v.to_owned());
         }
 
-- 
2.43.0


From 78577f6fe4da1514e1e3be28e9349619a3cab869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:34 +0000
Subject: [PATCH 12/41] fix: reject map keys and set items that don't fit in a
 response

Their lengths were truncated in the response, resulting in a response which
couldn't be parsed.
---
 engine/src/command/request/mod.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/engine/src/command/request/mod.rs b/engine/src/command/request/mod.rs
index bad935c..8a6a1eb 100644
--- a/engine/src/command/request/mod.rs
+++ b/engine/src/command/request/mod.rs
@@ -70,6 +70,11 @@ impl MultiArgument<'_> for DashMap<Vec<u8>, Vec<u8>> {
             // A key without a value can't be stored.
             let v = args.next()?;
 
+            // The length of a key is a single byte in responses.
+            if k.len() > u8::MAX as usize {
+                return None;
+            }
+
             map.insert(k.to_owned(), v.to_owned());
         }
 
@@ -82,6 +87,11 @@ impl MultiArgument<'_> for DashSet<Vec<u8>> {
         let set = DashSet::new();
 
         for arg in args {
+            // The length of an item is 2 bytes in responses.
+            if arg.len() > u16::MAX as usize {
+                return None;
+            }
+
             set.insert(arg.to_owned());
         }
 
-- 
2.43.0


From 12b5ccd66729c76b7c12a6f122feb65442dfd303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:34 +0000
Subject: [PATCH 13/41] fix: create a float when incrementing a nonexistent
 float key

An integer was created, and the command then failed due to it not being a float.
---
 engine/src/command/impl/increment_by.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/engine/src/command/impl/increment_by.rs b/engine/src/command/impl/increment_by.rs
index 7e042de..3b5a4f8 100644
--- a/engine/src/command/impl/increment_by.rs
+++ b/engine/src/command/impl/increment_by.rs
@@ -11,7 +11,7 @@ impl IncrementBy {
         amount: f64,
         resp: &mut Vec<u8>,
     ) -> DispatchResult<()> {
-        let mut key = hop.state().key_or_insert_with(key, Value::integer);
+        let mut key = hop.state().key_or_insert_with(key, Value::float);
         let float = key.as_float_mut().ok_or(DispatchError::KeyTypeDifferent)?;
 
         *float += amount;
-- 
2.43.0


From 7c8580a69334e1b753a19665603ce8141a22ca25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:34 +0000
Subject: [PATCH 14/41] fix: return an error when an integer would overflow

Incrementing an integer out of its range panicked or wrapped around, depending
on the build profile.
---
 engine/src/command/impl/decrement_by.rs | 6 +++++-
 engine/src/command/impl/increment_by.rs | 4 +++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/engine/src/command/impl/decrement_by.rs b/engine/src/command/impl/decrement_by.rs
index da4aab2..35dffda 100644
--- a/engine/src/command/impl/decrement_by.rs
+++ b/engine/src/command/impl/decrement_by.rs
@@ -12,7 +12,11 @@ impl Dispatch for DecrementBy {
         let key = req.key().ok_or(DispatchError::KeyUnspecified)?;
 
         if let Some(int) = req.typed_arg::<i64>(1) {
-            IncrementBy::increment_int_by(hop, key, 0 - int, resp)
+            let amount = int
+                .checked_neg()
+                .ok_or(DispatchError::PreconditionFailed)?;
+
+            IncrementBy::increment_int_by(hop, key, amount, resp)
         } else if let Some(float) = req.typed_arg::<f64>(1) {
             IncrementBy::increment_float_by(hop, key, 0f64 - float, resp)
         } else {
diff --git a/engine/src/command/impl/increment_by.rs b/engine/src/command/impl/increment_by.rs
index 3b5a4f8..bd28728 100644
--- a/engine/src/command/impl/increment_by.rs
+++ b/engine/src/command/impl/increment_by.rs
@@ -32,7 +32,9 @@ impl IncrementBy {
             .as_integer_mut()
             .ok_or(DispatchError::KeyTypeDifferent)?;
 
-        *int += amount;
+        *int = int
+            .checked_add(amount)
+            .ok_or(DispatchError::PreconditionFailed)?;
 
         response::write_int(resp, *int);
 
-- 
2.43.0


From 5988b5c4360ab08113ff9dd2535d4a7b3495b5b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:34 +0000
Subject: [PATCH 15/41] fix: take the key type into account when incrementing
 by an amount

The amount was always interpreted as an integer, since both an integer and a
float are 8 bytes, making it impossible to increment a float by an amount.
---
 engine/src/command/impl/decrement_by.rs | 21 +++++++++++++--------
 engine/src/command/impl/increment_by.rs | 21 ++++++++++++++++-----
 2 files changed, 29 insertions(+), 13 deletions(-)

diff --git a/engine/src/command/impl/decrement_by.rs b/engine/src/command/impl/decrement_by.rs
index 35dffda..d1e873d 100644
--- a/engine/src/command/impl/decrement_by.rs
+++ b/engine/src/command/impl/decrement_by.rs
@@ -2,7 +2,7 @@ use super::{
     super::{Dispatch, DispatchError, DispatchResult, Request},
     increment_by::IncrementBy,
 };
-use crate::Hop;
+use crate::{state::KeyType, Hop};
 use alloc::vec::Vec;
 
 pub struct DecrementBy;
@@ -11,16 +11,21 @@ impl Dispatch for DecrementBy {
     fn dispatch(hop: &Hop, req: &Request, resp: &mut Vec<u8>) -> DispatchResult<()> {
         let key = req.key().ok_or(DispatchError::KeyUnspecified)?;
 
-        if let Some(int) = req.typed_arg::<i64>(1) {
-            let amount = int
-                .checked_neg()
-                .ok_or(DispatchError::PreconditionFailed)?;
+        let key_type = req.key_type().or_else(|| hop.state().key_type(key));
+
+        if key_type == Some(KeyType::Float) {
+            let float = req
+                .typed_arg::<f64>(1)
+                .ok_or(DispatchError::ArgumentRetrieval)?;
 
-            IncrementBy::increment_int_by(hop, key, amount, resp)
-        } else if let Some(float) = req.typed_arg::<f64>(1) {
             IncrementBy::increment_float_by(hop, key, 0f64 - float, resp)
         } else {
-            Err(DispatchError::ArgumentRetrieval)
+            let int = req
+                .typed_arg::<i64>(1)
+                .ok_or(DispatchError::ArgumentRetrieval)?;
+            let amount = int.checked_neg().ok_or(DispatchError::PreconditionFailed)?;
+
+            IncrementBy::increment_int_by(hop, key, amount, resp)
         }
     }
 }
diff --git a/engine/src/command/impl/increment_by.rs b/engine/src/command/impl/increment_by.rs
index bd28728..3ff0f3a 100644
--- a/engine/src/command/impl/increment_by.rs
+++ b/engine/src/command/impl/increment_by.rs
@@ -1,5 +1,8 @@
 use super::super::{response, Dispatch, DispatchError, DispatchResult, Request};
-use crate::{state::Value, Hop};
+use crate::{
+    state::{KeyType, Value},
+    Hop,
+};
 use alloc::vec::Vec;
 
 pub struct IncrementBy;
@@ -46,12 +49,20 @@ impl Dispatch for IncrementBy {
     fn dispatch(hop: &Hop, req: &Request, resp: &mut Vec<u8>) -> DispatchResult<()> {
         let key = req.key().ok_or(DispatchError::KeyUnspecified)?;
 
-        if let Some(int) = req.typed_arg::<i64>(1) {
-            Self::increment_int_by(hop, key, int, resp)
-        } else if let Some(float) = req.typed_arg::<f64>(1) {
+        let key_type = req.key_type().or_else(|| hop.state().key_type(key));
+
+        if key_type == Some(KeyType::Float) {
+            let float = req
+                .typed_arg::<f64>(1)
+                .ok_or(DispatchError::ArgumentRetrieval)?;
+
             Self::increment_float_by(hop, key, float, resp)
         } else {
-            Err(DispatchError::ArgumentRetrieval)
+            let int = req
+                .typed_arg::<i64>(1)
+                .ok_or(DispatchError::ArgumentRetrieval)?;
+
+            Self::increment_int_by(hop, key, int, resp)
         }
     }
 }
-- 
2.43.0


From 32f207335c645557dd85a75dd41b77f6a2238fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:34 +0000
Subject: [PATCH 16/41] fix: increment existing float keys without a specified
 key type

Incrementing and decrementing is documented as working on float and integer keys,
but an existing float required specifying its type.
---
 engine/src/command/impl/decrement.rs | 3 ++-
 engine/src/command/impl/increment.rs | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/engine/src/command/impl/decrement.rs b/engine/src/command/impl/decrement.rs
index 7056129..b4bd957 100644
--- a/engine/src/command/impl/decrement.rs
+++ b/engine/src/command/impl/decrement.rs
@@ -10,8 +10,9 @@ pub struct Decrement;
 impl Dispatch for Decrement {
     fn dispatch(hop: &Hop, req: &Request, resp: &mut Vec<u8>) -> DispatchResult<()> {
         let key = req.key().ok_or(DispatchError::KeyUnspecified)?;
+        let key_type = req.key_type().or_else(|| hop.state().key_type(key));
 
-        if req.key_type() == Some(KeyType::Float) {
+        if key_type == Some(KeyType::Float) {
             IncrementBy::increment_float_by(hop, key, -1f64, resp)
         } else {
             IncrementBy::increment_int_by(hop, key, -1, resp)
diff --git a/engine/src/command/impl/increment.rs b/engine/src/command/impl/increment.rs
index 1971901..6b6449b 100644
--- a/engine/src/command/impl/increment.rs
+++ b/engine/src/command/impl/increment.rs
@@ -10,8 +10,9 @@ pub struct Increment;
 impl Dispatch for Increment {
     fn dispatch(hop: &Hop, req: &Request, resp: &mut Vec<u8>) -> DispatchResult<()> {
         let key = req.key().ok_or(DispatchError::KeyUnspecified)?;
+        let key_type = req.key_type().or_else(|| hop.state().key_type(key));
 
-        if req.key_type() == Some(KeyType::Float) {
+        if key_type == Some(KeyType::Float) {
             IncrementBy::increment_float_by(hop, key, 1f64, resp)
         } else {
             IncrementBy::increment_int_by(hop, key, 1, resp)
-- 
2.43.0


From 01e0fb69d8dbfae25eb58d129a2a482452f05e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:34 +0000
Subject: [PATCH 17/41] fix: return an error when appending invalid UTF-8 to a
 string

The argument was silently dropped and the command succeeded, while setting a
string to invalid UTF-8 returns an error.
---
 engine/src/command/impl/append.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/engine/src/command/impl/append.rs b/engine/src/command/impl/append.rs
index ca7a76f..8daf115 100644
--- a/engine/src/command/impl/append.rs
+++ b/engine/src/command/impl/append.rs
@@ -6,6 +6,7 @@ use crate::{
     Hop,
 };
 use alloc::borrow::ToOwned;
+use alloc::string::String;
 use alloc::vec::Vec;
 use core::str;
 
@@ -42,15 +43,18 @@ impl Append {
         resp: &mut Vec<u8>,
         key: &[u8],
     ) -> DispatchResult<()> {
-        let mut key = hop.state().key_or_insert_with(key, Value::string);
-        let string = key.as_string_mut().ok_or(DispatchError::KeyTypeDifferent)?;
+        let mut suffix = String::new();
 
         for arg in args {
-            if let Ok(arg) = str::from_utf8(arg) {
-                string.push_str(arg);
-            }
+            let arg = str::from_utf8(arg).map_err(|_| DispatchError::ArgumentRetrieval)?;
+            suffix.push_str(arg);
         }
 
+        let mut key = hop.state().key_or_insert_with(key, Value::string);
+        let string = key.as_string_mut().ok_or(DispatchError::KeyTypeDifferent)?;
+
+        string.push_str(&suffix);
+
         response::write_str(resp, &string);
 
         Ok(())
-- 
2.43.0


From d17970fc62818681e29fe3ed21bf89d2d3b8a5f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:34 +0000
Subject: [PATCH 18/41] fix: limit the length of a list to what fits in a
 response

Writing a response for a list with more than 65535 items overflowed the item
count.
---
 engine/src/command/impl/append.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/engine/src/command/impl/append.rs b/engine/src/command/impl/append.rs
index 8daf115..3e67f58 100644
--- a/engine/src/command/impl/append.rs
+++ b/engine/src/command/impl/append.rs
@@ -30,6 +30,11 @@ impl Append {
         let mut key = hop.state().key_or_insert_with(key, Value::list);
         let list = key.as_list_mut().ok_or(DispatchError::KeyTypeDifferent)?;
 
+        // The length of a list is 2 bytes in responses.
+        if list.len() + args.len() > u16::MAX as usize {
+            return Err(DispatchError::PreconditionFailed);
+        }
+
         list.append(&mut args.map(ToOwned::to_owned).collect());
 
         response::write_list(resp, list.iter());
-- 
2.43.0


From 2bd302f5d100ec7d7a6085497194fd8422f75ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:35 +0000
Subject: [PATCH 19/41] fix: check for the string variant in Value::is_string

It returned true for booleans and false for strings.
---
 engine/src/state/value.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/engine/src/state/value.rs b/engine/src/state/value.rs
index 2254b71..bc904c7 100644
--- a/engine/src/state/value.rs
+++ b/engine/src/state/value.rs
@@ -201,7 +201,7 @@ impl Value {
     }
 
     pub fn is_string(&self) -> bool {
-        matches!(self, Value::Boolean(_))
+        matches!(self, Value::String(_))
     }
 }
 
-- 
2.43.0


From 779dc9d8349ba1bde3bb538e7238fa2f491b65a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:35 +0000
Subject: [PATCH 20/41] fix: insert the default value of a key atomically

Between determining that a key doesn't exist and inserting its default value, a
value inserted by another task was overwritten and lost.
---
 engine/src/state/mod.rs | 13 +------------
 1 file changed, 1 insertion(+), 12 deletions(-)

diff --git a/engine/src/state/mod.rs b/engine/src/state/mod.rs
index 7321ed8..d4f5a08 100755
--- a/engine/src/state/mod.rs
+++ b/engine/src/state/mod.rs
@@ -177,18 +177,7 @@ impl State {
 
         debug_assert!(!key.is_empty());
 
-        loop {
-            match self.0.get_mut(key) {
-                Some(v) => {
-                    break v;
-                }
-                None => {
-                    self.0.insert(key.to_owned(), f());
-
-                    continue;
-                }
-            }
-        }
+        self.0.entry(key.to_owned()).or_insert_with(f)
     }
 
     /// Retrieve the key type of a key's value, if it exists.
-- 
2.43.0


From e251dc15df71594fb3f937840654da25adc44291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:35 +0000
Subject: [PATCH 21/41] fix: count ended sessions

The metric was never incremented.
---
 engine/src/session/manager.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/engine/src/session/manager.rs b/engine/src/session/manager.rs
index 1516c15..23618ae 100644
--- a/engine/src/session/manager.rs
+++ b/engine/src/session/manager.rs
@@ -46,7 +46,13 @@ impl SessionManager {
     }
 
     pub fn remove(&self, id: u32) -> bool {
-        self.0.sessions.remove(&id).is_some()
+        let removed = self.0.sessions.remove(&id).is_some();
+
+        if removed {
+            self.0.metrics_writer.increment(Metric::SessionsEnded);
+        }
+
+        removed
     }
 
     fn next_id(&self) -> u32 {
-- 
2.43.0


From 21b614b19d110a8912bc5233439872f3740089e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:35 +0000
Subject: [PATCH 22/41] fix: include ended sessions in the stats

The client's model of the stats reads all 4 of the metrics.
---
 engine/src/command/impl/stats.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/engine/src/command/impl/stats.rs b/engine/src/command/impl/stats.rs
index 48e8db5..8126561 100644
--- a/engine/src/command/impl/stats.rs
+++ b/engine/src/command/impl/stats.rs
@@ -11,6 +11,7 @@ impl Stats {
     const COUNTERS: &'static [Metric] = &[
         Metric::CommandsErrored,
         Metric::CommandsSuccessful,
+        Metric::SessionsEnded,
         Metric::SessionsStarted,
     ];
 }
-- 
2.43.0


From 12c5219f8ef86b72e5e7ca800a42de3d2a2a49ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:35 +0000
Subject: [PATCH 23/41] fix: subscribe multiple sessions to the same key

Only the first session to subscribe to a key was added to the key's sessions and
received its subscription.
---
 engine/src/pubsub/manager.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/engine/src/pubsub/manager.rs b/engine/src/pubsub/manager.rs
index 2c04fde..34f1726 100644
--- a/engine/src/pubsub/manager.rs
+++ b/engine/src/pubsub/manager.rs
@@ -40,15 +40,13 @@ impl PubSubManager {
             }
         };
 
-        match self.0.keys.entry(object_key) {
-            Entry::Occupied(_) => None,
-            Entry::Vacant(v) => {
-                let set = v.insert(DashSet::new());
-                set.insert(session_id);
+        self.0
+            .keys
+            .entry(object_key)
+            .or_default()
+            .insert(session_id);
 
-                Some(subscription)
-            }
-        }
+        Some(subscription)
     }
 
     /// Unsubscribes a session by ID from an object key.
-- 
2.43.0


From 1eea2885fa6989c8021f81456cb824004ff442e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:35 +0000
Subject: [PATCH 24/41] fix: remove a session from the keys it was subscribed
 to

Removing a session left it in the set of sessions of each key.
---
 engine/src/pubsub/manager.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/engine/src/pubsub/manager.rs b/engine/src/pubsub/manager.rs
index 34f1726..2501a23 100644
--- a/engine/src/pubsub/manager.rs
+++ b/engine/src/pubsub/manager.rs
@@ -80,7 +80,11 @@ impl PubSubManager {
             .sessions
             .remove(&session_id)
             .map(|(_, subscriptions)| {
-                for (_, sub) in subscriptions.into_iter() {
+                for (key, sub) in subscriptions.into_iter() {
+                    if let Some(sessions) = self.0.keys.get(&key) {
+                        sessions.remove(&session_id);
+                    }
+
                     sub.close();
                 }
             })
-- 
2.43.0


From f146905cd3db20806749e19c91bf6c650258d389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:35 +0000
Subject: [PATCH 25/41] fix: conclude parsing a response of an empty list or
 set

The parser requested to read the length of an item which doesn't exist.
---
 engine/src/command/response/context.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/engine/src/command/response/context.rs b/engine/src/command/response/context.rs
index ba018a7..7833efa 100644
--- a/engine/src/command/response/context.rs
+++ b/engine/src/command/response/context.rs
@@ -395,6 +395,12 @@ impl Context {
             ResponseType::List => {
                 let len = u16::from_be_bytes(bytes.try_into().unwrap());
 
+                if len == 0 {
+                    return Ok(Some(Instruction::Concluded(Response::from(
+                        Vec::<Vec<u8>>::new(),
+                    ))));
+                }
+
                 Stage::List {
                     args: Vec::new(),
                     len,
@@ -415,6 +421,10 @@ impl Context {
             ResponseType::Set => {
                 let len = u16::from_be_bytes(bytes.try_into().unwrap());
 
+                if len == 0 {
+                    return Ok(Some(Instruction::Concluded(Response::from(DashSet::new()))));
+                }
+
                 Stage::Set {
                     args: DashSet::new(),
                     len,
-- 
2.43.0


From f936601d10486ae0cb54f6cf56712861a37a296e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:35 +0000
Subject: [PATCH 26/41] fix: conclude parsing a response of empty bytes

The parser asserts that the length isn't 0, although empty bytes can be stored.
---
 engine/src/command/response/context.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/engine/src/command/response/context.rs b/engine/src/command/response/context.rs
index 7833efa..2a823fe 100644
--- a/engine/src/command/response/context.rs
+++ b/engine/src/command/response/context.rs
@@ -390,6 +390,12 @@ impl Context {
             ResponseType::Bytes => {
                 let len = u32::from_be_bytes(bytes.try_into().unwrap());
 
+                if len == 0 {
+                    return Ok(Some(Instruction::Concluded(Response::from(
+                        Vec::<u8>::new(),
+                    ))));
+                }
+
                 Stage::Bytes { len }
             }
             ResponseType::List => {
-- 
2.43.0


From a808b577217c652c27204026bb36646135b8bdfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:35 +0000
Subject: [PATCH 27/41] fix: return an error when a response's error code is
 invalid

The parser panicked although there are errors for invalid codes.
---
 engine/src/command/response/context.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/engine/src/command/response/context.rs b/engine/src/command/response/context.rs
index 2a823fe..8b55db8 100644
--- a/engine/src/command/response/context.rs
+++ b/engine/src/command/response/context.rs
@@ -215,7 +215,8 @@ impl Context {
             None => return Ok(Some(Instruction::ReadBytes(1))),
         };
 
-        let variant = DispatchError::try_from(byte).unwrap();
+        let variant =
+            DispatchError::try_from(byte).map_err(|_| ParseError::DispatchErrorInvalid)?;
 
         Ok(Some(Instruction::Concluded(Response::from(variant))))
     }
@@ -366,7 +367,8 @@ impl Context {
             None => return Ok(Some(Instruction::ReadBytes(1))),
         };
 
-        let variant = RequestParseError::try_from(byte).unwrap();
+        let variant =
+            RequestParseError::try_from(byte).map_err(|_| ParseError::ParseErrorInvalid)?;
 
         Ok(Some(Instruction::Concluded(Response::from(variant))))
     }
-- 
2.43.0


From 67e0025d54d4567d9bc0f71597792ad4dc59e53e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:51 +0000
Subject: [PATCH 28/41] fix: request the remaining bytes of a response's length

The index that the length starts at wasn't taken into account, causing an
underflow when a frame ends prior to its length.
---
 engine/src/command/response/context.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/engine/src/command/response/context.rs b/engine/src/command/response/context.rs
index 8b55db8..49bd253 100644
--- a/engine/src/command/response/context.rs
+++ b/engine/src/command/response/context.rs
@@ -383,7 +383,11 @@ impl Context {
 
         let bytes = match buf.get(self.idx..self.idx + read_len) {
             Some(bytes) => bytes,
-            None => return Ok(Some(Instruction::ReadBytes(read_len + 1 - buf.len()))),
+            None => {
+                let remaining = remaining_bytes(self.idx, buf.len(), read_len);
+
+                return Ok(Some(Instruction::ReadBytes(remaining)));
+            }
         };
 
         debug_assert_eq!(bytes.len(), read_len);
-- 
2.43.0


From d1d32f12a70979450b067e7a558a44b78fc4f436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:51 +0000
Subject: [PATCH 29/41] fix: request only the remaining bytes of a map or set
 response

The end of the bytes to read was given as the amount of bytes to read, resulting
in more bytes being requested than are needed.
---
 engine/src/command/response/context.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/engine/src/command/response/context.rs b/engine/src/command/response/context.rs
index 49bd253..003d740 100644
--- a/engine/src/command/response/context.rs
+++ b/engine/src/command/response/context.rs
@@ -312,7 +312,7 @@ impl Context {
         let key = match buf.get(key_size_end..key_value_end) {
             Some(key) => key,
             None => {
-                let remaining = remaining_bytes(key_size_end, buf.len(), key_value_end);
+                let remaining = remaining_bytes(key_size_end, buf.len(), key_len as usize);
 
                 return Ok(Some(Instruction::ReadBytes(remaining)));
             }
@@ -323,7 +323,7 @@ impl Context {
         let value_len = match buf.get(key_value_end..value_size_end) {
             Some(value_len) => u32::from_be_bytes(value_len.try_into().unwrap()),
             None => {
-                let remaining = remaining_bytes(self.idx, buf.len(), value_size_end);
+                let remaining = remaining_bytes(key_value_end, buf.len(), 4);
 
                 return Ok(Some(Instruction::ReadBytes(remaining)));
             }
@@ -334,7 +334,7 @@ impl Context {
         let value = match buf.get(value_size_end..value_end) {
             Some(value) => value,
             None => {
-                let remaining = remaining_bytes(value_size_end, buf.len(), value_end);
+                let remaining = remaining_bytes(value_size_end, buf.len(), value_len as usize);
 
                 return Ok(Some(Instruction::ReadBytes(remaining)));
             }
@@ -491,7 +491,7 @@ impl Context {
         let arg = match buf.get(arg_size_end..arg_value_end) {
             Some(arg) => arg,
             None => {
-                let remaining = remaining_bytes(arg_size_end, buf.len(), arg_value_end);
+                let remaining = remaining_bytes(arg_size_end, buf.len(), arg_len as usize);
 
                 return Ok(Some(Instruction::ReadBytes(remaining)));
             }
-- 
2.43.0


From 9f4c6c7479c07b59c69d72b6946bdc2ef62fa63e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:34 +0000
Subject: [PATCH 30/41] fix: yield no arguments for an inverted range

---
 engine/src/command/request/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/engine/src/command/request/mod.rs b/engine/src/command/request/mod.rs
index 8a6a1eb..f322844 100644
--- a/engine/src/command/request/mod.rs
+++ b/engine/src/command/request/mod.rs
@@ -124,7 +124,7 @@ impl<'a> Iterator for Arguments<'a> {
     type Item = &'a [u8];
 
     fn next(&mut self) -> Option<Self::Item> {
-        if self.idx == self.to {
+        if self.idx >= self.to {
             return None;
         }
 
-- 
2.43.0


From 4e018b72defa75e218aa3cc4d566a77539db6a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:34 +0000
Subject: [PATCH 31/41] fix: don't overflow on argument ranges at the maximum
 index

---
 engine/src/command/request/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/engine/src/command/request/mod.rs b/engine/src/command/request/mod.rs
index f322844..e755153 100644
--- a/engine/src/command/request/mod.rs
+++ b/engine/src/command/request/mod.rs
@@ -154,13 +154,13 @@ impl<'a> Request<'a> {
         }
 
         let start = match range.start_bound() {
-            Bound::Excluded(amt) => *amt + 1,
+            Bound::Excluded(amt) => amt.saturating_add(1),
             Bound::Included(amt) => *amt,
             Bound::Unbounded => 0,
         };
         let end = match range.end_bound() {
             Bound::Excluded(amt) => *amt,
-            Bound::Included(amt) => *amt + 1,
+            Bound::Included(amt) => amt.saturating_add(1),
             Bound::Unbounded => self.arg_count(),
         };
 
-- 
2.43.0


From 25c0280642b4c7c6f4d246d98ad0fe609e2e93ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:06 +0000
Subject: [PATCH 32/41] hook: accessors for verification behind cfg(hop_verif)

---
 engine/src/pubsub/manager.rs  | 11 +++++++++++
 engine/src/session/manager.rs |  7 +++++++
 engine/src/session/mod.rs     |  7 +++++++
 engine/src/state/mod.rs       |  7 +++++++
 lib/timer/src/lib.rs          | 11 +++++++++++
 5 files changed, 43 insertions(+)

diff --git a/engine/src/pubsub/manager.rs b/engine/src/pubsub/manager.rs
index 2501a23..b7e4a66 100644
--- a/engine/src/pubsub/manager.rs
+++ b/engine/src/pubsub/manager.rs
@@ -92,6 +92,17 @@ impl PubSubManager {
     }
 }
 
+#[cfg(hop_verif)]
+impl PubSubManager {
+    pub fn verif_sessions(&self, object_key: &[u8]) -> alloc::vec::Vec<SessionId> {
+        self.0
+            .keys
+            .get(object_key)
+            .map(|sessions| sessions.iter().map(|r| *r.key()).collect())
+            .unwrap_or_default()
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::{PubSubManager, PubSubManagerRef};
diff --git a/engine/src/session/manager.rs b/engine/src/session/manager.rs
index 23618ae..e9882e5 100644
--- a/engine/src/session/manager.rs
+++ b/engine/src/session/manager.rs
@@ -60,6 +60,13 @@ impl SessionManager {
     }
 }
 
+#[cfg(hop_verif)]
+impl SessionManager {
+    pub fn verif_ids(&self) -> alloc::vec::Vec<u32> {
+        self.0.sessions.iter().map(|r| *r.key()).collect()
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::{SessionManager, SessionManagerRef};
diff --git a/engine/src/session/mod.rs b/engine/src/session/mod.rs
index 9d81aeb..c2250cb 100644
--- a/engine/src/session/mod.rs
+++ b/engine/src/session/mod.rs
@@ -17,6 +17,13 @@ impl Session {
     }
 }
 
+#[cfg(hop_verif)]
+impl SessionId {
+    pub fn verif_new(id: u32) -> Self {
+        Self(id)
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::{Session, SessionId};
diff --git a/engine/src/state/mod.rs b/engine/src/state/mod.rs
index d4f5a08..1b836e8 100755
--- a/engine/src/state/mod.rs
+++ b/engine/src/state/mod.rs
@@ -198,6 +198,13 @@ impl State {
     }
 }
 
+#[cfg(hop_verif)]
+impl State {
+    pub fn verif_keys(&self) -> Vec<Key> {
+        self.0.iter().map(|r| r.key().clone()).collect()
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::{KeyType, State, Value};
diff --git a/lib/timer/src/lib.rs b/lib/timer/src/lib.rs
index c6744d3..e8d84ae 100644
--- a/lib/timer/src/lib.rs
+++ b/lib/timer/src/lib.rs
@@ -265,6 +265,17 @@ fn monotonic_time() -> timespec {
     timespec
 }
 
+#[cfg(hop_verif)]
+impl Timer {
+    pub fn verif_new(start: Option<Duration>, stop: Option<Duration>) -> Self {
+        Self { start, stop }
+    }
+
+    pub fn verif_parse_timespec(tv_sec: i64, tv_nsec: i64) -> Duration {
+        parse_timespec(timespec { tv_sec, tv_nsec })
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::Timer;
-- 
2.43.0


From 27ec25f5cae3093eed4df791aaa3be59b515e10f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:06 +0000
Subject: [PATCH 33/41] fix: print whole lists and maps in the CLI

---
 cli/lib/src/print.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cli/lib/src/print.rs b/cli/lib/src/print.rs
index 5342522..6b8899a 100644
--- a/cli/lib/src/print.rs
+++ b/cli/lib/src/print.rs
@@ -21,7 +21,7 @@ pub fn list<T: IntoIterator<Item = U>, U: AsRef<[u8]>>(items: T) -> String {
         output.push('\n');
     }
 
-    output.truncate(output.len() - 2);
+    output.pop();
 
     output
 }
@@ -36,7 +36,7 @@ pub fn map<T: IntoIterator<Item = (U, V)>, U: AsRef<[u8]>, V: AsRef<[u8]>>(pairs
         output.push('\n');
     }
 
-    output.truncate(output.len() - 2);
+    output.pop();
 
     output
 }
-- 
2.43.0


From a7a819969b153563d4cf6fb7a8163b1ba3a5802e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:06 +0000
Subject: [PATCH 34/41] fix: report a map argument without a value in the CLI

---
 cli/lib/src/parse.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cli/lib/src/parse.rs b/cli/lib/src/parse.rs
index 77f9b9a..d876f8f 100644
--- a/cli/lib/src/parse.rs
+++ b/cli/lib/src/parse.rs
@@ -159,7 +159,11 @@ fn input_args<'a>(
             KeyType::Map => {
                 let value = match iter.next() {
                     Some(arg) => arg.as_bytes().to_vec(),
-                    None => break,
+                    None => {
+                        return Err(ParseError::MapIncomplete {
+                            key: arg.to_owned(),
+                        })
+                    }
                 };
 
                 args.push(arg.as_bytes().to_vec());
-- 
2.43.0


From 7bf2508e6fd604c2872805a442e5ca5157cf02be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:57 +0000
Subject: [PATCH 35/41] fix: decrement negative integers by the minimum integer

---
 engine/src/command/impl/decrement_by.rs | 31 ++++++++++++++++++++++---
 1 file changed, 28 insertions(+), 3 deletions(-)

diff --git a/engine/src/command/impl/decrement_by.rs b/engine/src/command/impl/decrement_by.rs
index d1e873d..a063660 100644
--- a/engine/src/command/impl/decrement_by.rs
+++ b/engine/src/command/impl/decrement_by.rs
@@ -1,5 +1,5 @@
 use super::{
-    super::{Dispatch, DispatchError, DispatchResult, Request},
+    super::{response, Dispatch, DispatchError, DispatchResult, Request},
     increment_by::IncrementBy,
 };
 use crate::{state::KeyType, Hop};
@@ -7,6 +7,29 @@ use alloc::vec::Vec;
 
 pub struct DecrementBy;
 
+impl DecrementBy {
+    /// Decrement an integer by the minimum integer, which has no negation to
+    /// increment by.
+    fn decrement_by_min(hop: &Hop, key: &[u8], resp: &mut Vec<u8>) -> DispatchResult<()> {
+        // The default integer is out of range when decremented by the minimum.
+        let mut key = hop
+            .state()
+            .key_mut(key)
+            .ok_or(DispatchError::PreconditionFailed)?;
+        let int = key
+            .as_integer_mut()
+            .ok_or(DispatchError::KeyTypeDifferent)?;
+
+        *int = int
+            .checked_sub(i64::MIN)
+            .ok_or(DispatchError::PreconditionFailed)?;
+
+        response::write_int(resp, *int);
+
+        Ok(())
+    }
+}
+
 impl Dispatch for DecrementBy {
     fn dispatch(hop: &Hop, req: &Request, resp: &mut Vec<u8>) -> DispatchResult<()> {
         let key = req.key().ok_or(DispatchError::KeyUnspecified)?;
@@ -23,9 +46,11 @@ impl Dispatch for DecrementBy {
             let int = req
                 .typed_arg::<i64>(1)
                 .ok_or(DispatchError::ArgumentRetrieval)?;
-            let amount = int.checked_neg().ok_or(DispatchError::PreconditionFailed)?;
 
-            IncrementBy::increment_int_by(hop, key, amount, resp)
+            match int.checked_neg() {
+                Some(amount) => IncrementBy::increment_int_by(hop, key, amount, resp),
+                None => Self::decrement_by_min(hop, key, resp),
+            }
         }
     }
 }
-- 
2.43.0


From f2bc1323160b796833528b15ede09592b448e50e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:57:25 +0000
Subject: [PATCH 36/41] fix: answer every request on a connection however its
 bytes arrive

---
 server/src/main.rs | 40 +++++++++++++++++++++++-----------------
 1 file changed, 23 insertions(+), 17 deletions(-)

diff --git a/server/src/main.rs b/server/src/main.rs
index ed393e0..449693e 100755
--- a/server/src/main.rs
+++ b/server/src/main.rs
@@ -14,7 +14,7 @@ use std::{
     str::FromStr as _,
 };
 use tokio::{
-    io::{AsyncBufReadExt, AsyncWriteExt, BufReader},
+    io::{AsyncReadExt, AsyncWriteExt, BufReader},
     net::{TcpListener, TcpStream},
     stream::StreamExt,
     task,
@@ -87,32 +87,38 @@ async fn handle_socket_inner(socket: TcpStream, hop: Hop) -> Result<(), Box<dyn
     let mut reader = BufReader::new(reader);
     let mut resp = Vec::new();
 
-    while let Ok(size) = reader.read_until(b'\n', &mut input).await {
+    while let Ok(size) = reader.read_buf(&mut input).await {
         // If we get no bytes then we're EOF.
         if size == 0 {
             break;
         }
 
-        match ctx.feed(&input) {
-            Ok(Some(req)) => match hop.dispatch(&req, &mut resp) {
-                Ok(()) => {}
+        // The bytes read may end anywhere in a request, or contain several.
+        loop {
+            let consumed = match ctx.feed(&input) {
+                Ok(Some(req)) => {
+                    if let Err(why) = hop.dispatch(&req, &mut resp) {
+                        let res = Response::DispatchError(why);
+
+                        res.copy_to(&mut resp);
+                    }
+
+                    req.as_bytes().len()
+                }
+                Ok(None) => break,
                 Err(why) => {
-                    let res = Response::DispatchError(why);
+                    let res = Response::ParseError(why);
 
                     res.copy_to(&mut resp);
-                }
-            },
-            Ok(None) => continue,
-            Err(why) => {
-                let res = Response::ParseError(why);
 
-                res.copy_to(&mut resp);
-            }
-        };
+                    input.len()
+                }
+            };
 
-        writer.write_all(&resp).await?;
-        resp.clear();
-        input.clear();
+            writer.write_all(&resp).await?;
+            resp.clear();
+            input.drain(..consumed);
+        }
     }
 
     Ok(())
-- 
2.43.0


From 378cc45b83952dd8bf02c0852707e060bb5037ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:57:31 +0000
Subject: [PATCH 37/41] fix: keep listening when a connection can't be accepted

---
 server/src/main.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/server/src/main.rs b/server/src/main.rs
index 449693e..8946de6 100755
--- a/server/src/main.rs
+++ b/server/src/main.rs
@@ -61,8 +61,13 @@ async fn main() -> Result<(), Box<dyn Error>> {
 
     debug!("Listening for new connections on {}", addr);
 
-    while let Some(Ok(socket)) = incoming.next().await {
-        task::spawn(handle_socket(socket, hop.clone()));
+    while let Some(socket) = incoming.next().await {
+        match socket {
+            Ok(socket) => {
+                task::spawn(handle_socket(socket, hop.clone()));
+            }
+            Err(why) => warn!("Failed to accept a connection: {:?}", why),
+        }
     }
 
     Ok(())
-- 
2.43.0


From d09bf99b6199c2b70a06426b06de421d93445fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:57:53 +0000
Subject: [PATCH 38/41] fix: read the server's response as it is asked for by
 the decoder

---
 client/src/backend/server.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/client/src/backend/server.rs b/client/src/backend/server.rs
index 9cb7484..932dfe1 100644
--- a/client/src/backend/server.rs
+++ b/client/src/backend/server.rs
@@ -123,13 +123,17 @@ impl ServerBackend {
             .map_err(|source| Error::WritingMessage { source })?;
 
         let mut ctx = Context::new();
-        let mut resp = Vec::with_capacity(1);
+        let mut resp = Vec::new();
+        let mut remaining = 1;
 
         let mut reader = self.reader.lock().await;
 
         loop {
+            let read = resp.len();
+            resp.resize(read + remaining, 0);
+
             let read_amount = reader
-                .read_exact(&mut resp)
+                .read_exact(&mut resp[read..])
                 .await
                 .map_err(|source| Error::ReadingMessage { source })?;
 
@@ -137,7 +141,7 @@ impl ServerBackend {
                 return Err(Error::ConnectionClosed);
             }
 
-            match ctx.feed(&resp).unwrap() {
+            match ctx.feed(&resp).map_err(|_| Error::BadResponse)? {
                 Instruction::Concluded(response) => {
                     return match response {
                         Response::Value(value) => Ok(value),
@@ -146,7 +150,7 @@ impl ServerBackend {
                     }
                 }
                 Instruction::ReadBytes(bytes) => {
-                    resp.reserve_exact(bytes);
+                    remaining = bytes;
                 }
             }
         }
-- 
2.43.0


From d0de223cec9f56031e76b3519c9e4c82c713be64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:57:54 +0000
Subject: [PATCH 39/41] fix: read responses in the order of their requests

---
 client/src/backend/server.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/client/src/backend/server.rs b/client/src/backend/server.rs
index 932dfe1..a322cee 100644
--- a/client/src/backend/server.rs
+++ b/client/src/backend/server.rs
@@ -115,9 +115,8 @@ impl ServerBackend {
     }
 
     async fn send_and_wait(&self, request: impl Into<Request<'_>>) -> Result<Value> {
-        self.writer
-            .lock()
-            .await
+        let mut writer = self.writer.lock().await;
+        writer
             .write_all(request.into().as_bytes())
             .await
             .map_err(|source| Error::WritingMessage { source })?;
@@ -126,7 +125,10 @@ impl ServerBackend {
         let mut resp = Vec::new();
         let mut remaining = 1;
 
+        // The next request can only be written once this one is the next to be
+        // responded to.
         let mut reader = self.reader.lock().await;
+        drop(writer);
 
         loop {
             let read = resp.len();
-- 
2.43.0


From ff5767011ed597e057bdf424ffcc30950f695527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:57:55 +0000
Subject: [PATCH 40/41] fix: send the key type of an increment to the server

---
 client/src/backend/server.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/client/src/backend/server.rs b/client/src/backend/server.rs
index a322cee..1c1a13c 100644
--- a/client/src/backend/server.rs
+++ b/client/src/backend/server.rs
@@ -293,8 +293,8 @@ impl Backend for ServerBackend {
         }
     }
 
-    async fn increment(&self, key: &[u8], _: Option<KeyType>) -> Result<Value> {
-        let mut builder = RequestBuilder::new(CommandId::Increment);
+    async fn increment(&self, key: &[u8], key_type: Option<KeyType>) -> Result<Value> {
+        let mut builder = RequestBuilder::new_with_key_type(CommandId::Increment, key_type);
         builder.bytes(key)?;
 
         let value = self.send_and_wait(builder).await?;
-- 
2.43.0


From 08bb2e1e7aaecb3deac25ae94a964991df2bc88d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:25:15 +0000
Subject: [PATCH 41/41] fix: connecting a client returns the error instead of
 panicking

`Client::connect` unwrapped the result of connecting, so a server that refuses the
connection ended the calling task instead of returning the error of its `Result`.
---
 client/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client/src/lib.rs b/client/src/lib.rs
index b3f4459..8e10c47 100644
--- a/client/src/lib.rs
+++ b/client/src/lib.rs
@@ -48,7 +48,7 @@ impl Client<backend::ServerBackend> {
     pub async fn connect(
         addrs: impl tokio::net::ToSocketAddrs,
     ) -> Result<Self, <backend::ServerBackend as Backend>::Error> {
-        let backend = backend::ServerBackend::connect(addrs).await.unwrap();
+        let backend = backend::ServerBackend::connect(addrs).await?;
 
         Ok(Self {
             backend: Arc::new(backend),
-- 
2.43.0

