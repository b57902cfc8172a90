From d8f465237b90688d2c7dbb5d736600bd42d27356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:13 +0000
Subject: [PATCH 01/16] fix: accept timed operations that only have a lower
 bound

As for the other blocking timed receives, a vanished peer makes the receive panic.
---
 src/binary_atmp/recv.rs | 11 ++++++-----
 src/binary_atmp/send.rs |  3 ++-
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/binary_atmp/recv.rs b/src/binary_atmp/recv.rs
index df760ae..b182305 100644
--- a/src/binary_atmp/recv.rs
+++ b/src/binary_atmp/recv.rs
@@ -34,7 +34,8 @@ where
     S: Session,
 {
     // If the start of the time window is after its end, return an error
-    if s.start > s.end {
+    // (a negative end means that there is no upper bound)
+    if (s.end >= 0 || s.start < 0) && s.start > s.end {
         panic!("The start of the time window is after its end")
     }
 
@@ -164,7 +165,7 @@ where
                             }
                             Err(e) => {
                                 cancel(s);
-                                Err(Box::new(e))
+                                panic!("{}", e.to_string())
                             }
                         }
                     // if the clock respects the time constraint and the clock must not be reset
@@ -174,7 +175,7 @@ where
                             Ok((v, s)) => Ok((v, s)),
                             Err(e) => {
                                 cancel(s);
-                                Err(Box::new(e))
+                                panic!("{}", e.to_string())
                             }
                         }
                     // if the clock does not respect the time constraint
@@ -202,7 +203,7 @@ where
                             }
                             Err(e) => {
                                 cancel(s);
-                                Err(Box::new(e))
+                                panic!("{}", e.to_string())
                             }
                         }
                     // if the clock respects the time constraint and the clock must not be reset
@@ -212,7 +213,7 @@ where
                             Ok((v, s)) => Ok((v, s)),
                             Err(e) => {
                                 cancel(s);
-                                Err(Box::new(e))
+                                panic!("{}", e.to_string())
                             }
                         }
                     // if the clock does not respect the time constraint
diff --git a/src/binary_atmp/send.rs b/src/binary_atmp/send.rs
index 083031b..b194771 100644
--- a/src/binary_atmp/send.rs
+++ b/src/binary_atmp/send.rs
@@ -35,7 +35,8 @@ where
     S: Session,
 {
     // If the start of the time window is after its end, return an error
-    if s.start > s.end {
+    // (a negative end means that there is no upper bound)
+    if (s.end >= 0 || s.start < 0) && s.start > s.end {
         cancel(s);
         panic!("The start of the time window is after its end")
     }
-- 
2.43.0


From 0444fd98957f445bbf5d7e4dfa09d1e86490e200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:13 +0000
Subject: [PATCH 02/16] fix: reset the clock of timed operations without time
 bounds

---
 src/binary_atmp/recv.rs | 9 ++++++++-
 src/binary_atmp/send.rs | 9 ++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/binary_atmp/recv.rs b/src/binary_atmp/recv.rs
index b182305..33e3444 100644
--- a/src/binary_atmp/recv.rs
+++ b/src/binary_atmp/recv.rs
@@ -131,7 +131,14 @@ where
         } else {
             if !s.include_start && !s.include_end {
                 match s.channel.recv() {
-                    Ok((v, c)) => Ok((v, c)),
+                    Ok((v, c)) => {
+                        if s.reset != ' ' {
+                            let clock_to_reset = all_clocks.get_mut(&s.reset).unwrap();
+
+                            *clock_to_reset = Instant::now();
+                        }
+                        Ok((v, c))
+                    }
                     Err(e) => {
                         cancel(s);
                         panic!("{}", e.to_string())
diff --git a/src/binary_atmp/send.rs b/src/binary_atmp/send.rs
index b194771..787f949 100644
--- a/src/binary_atmp/send.rs
+++ b/src/binary_atmp/send.rs
@@ -138,7 +138,14 @@ where
             if !s.include_start && !s.include_end {
                 let (here, there) = S::new();
                 match s.channel.send((x, there)) {
-                    Ok(()) => Ok(here),
+                    Ok(()) => {
+                        if s.reset != ' ' {
+                            let clock_to_reset = all_clocks.get_mut(&s.reset).unwrap();
+
+                            *clock_to_reset = Instant::now();
+                        }
+                        Ok(here)
+                    }
                     Err(e) => {
                         cancel(s);
                         panic!("{}", e.to_string())
-- 
2.43.0


From 4e2f056e9a096a54dbcc4c84d33b44ff227230b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:13 +0000
Subject: [PATCH 03/16] fix: make choose_atmp! send through the existing timed
 send

---
 src/binary_atmp/choose.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/binary_atmp/choose.rs b/src/binary_atmp/choose.rs
index 88f07ec..516700f 100644
--- a/src/binary_atmp/choose.rs
+++ b/src/binary_atmp/choose.rs
@@ -93,7 +93,7 @@ where
 macro_rules! choose_atmp {
     ($label:path, $all_clocks:expr, $session:expr) => {{
         let (here, there) = <_ as mpstthree::binary::struct_trait::session::Session>::new();
-        let s = mpstthree::binary_atmp::send_atmp::send($label(there), $all_clocks, $session);
+        let s = mpstthree::binary_atmp::send::send($label(there), $all_clocks, $session)?;
         mpstthree::binary::cancel::cancel(s);
         here
     }};
-- 
2.43.0


From 1d8be7e08fa5cfca26457bd1fcc378e4ba7a71c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:46 +0000
Subject: [PATCH 04/16] fix: never take the branch without reset for a timed
 operation that resets a clock

The clock is read again between the two branches: when the lower bound passed in
between, the operation succeeded without resetting its clock.
---
 src/binary_atmp/recv.rs | 12 ++++++++++--
 src/binary_atmp/send.rs | 12 ++++++++++--
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/binary_atmp/recv.rs b/src/binary_atmp/recv.rs
index 33e3444..ee16b7c 100644
--- a/src/binary_atmp/recv.rs
+++ b/src/binary_atmp/recv.rs
@@ -176,7 +176,9 @@ where
                             }
                         }
                     // if the clock respects the time constraint and the clock must not be reset
-                    } else if u64::try_from(s.start)? <= own_clock.elapsed().as_secs() {
+                    } else if u64::try_from(s.start)? <= own_clock.elapsed().as_secs()
+                        && s.reset == ' '
+                    {
                         // blocking receive
                         match s.channel.recv() {
                             Ok((v, s)) => Ok((v, s)),
@@ -214,7 +216,9 @@ where
                             }
                         }
                     // if the clock respects the time constraint and the clock must not be reset
-                    } else if u64::try_from(s.start)? < own_clock.elapsed().as_secs() {
+                    } else if u64::try_from(s.start)? < own_clock.elapsed().as_secs()
+                        && s.reset == ' '
+                    {
                         // blocking receive
                         match s.channel.recv() {
                             Ok((v, s)) => Ok((v, s)),
@@ -267,6 +271,7 @@ where
                             }
                         } else if u64::try_from(s.start)? <= own_clock.elapsed().as_secs()
                             && own_clock.elapsed().as_secs() <= u64::try_from(s.end)?
+                            && s.reset == ' '
                         {
                             // receive with timeout
                             match s.channel.recv_timeout(
@@ -309,6 +314,7 @@ where
                             }
                         } else if u64::try_from(s.start)? <= own_clock.elapsed().as_secs()
                             && own_clock.elapsed().as_secs() < u64::try_from(s.end)?
+                            && s.reset == ' '
                         {
                             // receive with timeout
                             match s.channel.recv_timeout(
@@ -351,6 +357,7 @@ where
                             }
                         } else if u64::try_from(s.start)? < own_clock.elapsed().as_secs()
                             && own_clock.elapsed().as_secs() <= u64::try_from(s.end)?
+                            && s.reset == ' '
                         {
                             // receive with timeout
                             match s.channel.recv_timeout(
@@ -393,6 +400,7 @@ where
                             }
                         } else if u64::try_from(s.start)? < own_clock.elapsed().as_secs()
                             && own_clock.elapsed().as_secs() < u64::try_from(s.end)?
+                            && s.reset == ' '
                         {
                             // receive with timeout
                             match s.channel.recv_timeout(
diff --git a/src/binary_atmp/send.rs b/src/binary_atmp/send.rs
index 787f949..a197f41 100644
--- a/src/binary_atmp/send.rs
+++ b/src/binary_atmp/send.rs
@@ -183,7 +183,9 @@ where
                             }
                         }
                     // if the clock respects the time constraint and the clock must not be reset
-                    } else if u64::try_from(s.start)? <= own_clock.elapsed().as_secs() {
+                    } else if u64::try_from(s.start)? <= own_clock.elapsed().as_secs()
+                        && s.reset == ' '
+                    {
                         let (here, there) = S::new();
                         match s.channel.send((x, there)) {
                             Ok(()) => Ok(here),
@@ -221,7 +223,9 @@ where
                             }
                         }
                     // if the clock respects the time constraint and the clock must not be reset
-                    } else if u64::try_from(s.start)? < own_clock.elapsed().as_secs() {
+                    } else if u64::try_from(s.start)? < own_clock.elapsed().as_secs()
+                        && s.reset == ' '
+                    {
                         let (here, there) = S::new();
                         match s.channel.send((x, there)) {
                             Ok(()) => Ok(here),
@@ -275,6 +279,7 @@ where
                             }
                         } else if u64::try_from(s.start)? <= own_clock.elapsed().as_secs()
                             && own_clock.elapsed().as_secs() <= u64::try_from(s.end)?
+                            && s.reset == ' '
                         {
                             let (here, there) = S::new();
                             match s.channel.send_timeout(
@@ -319,6 +324,7 @@ where
                             }
                         } else if u64::try_from(s.start)? <= own_clock.elapsed().as_secs()
                             && own_clock.elapsed().as_secs() < u64::try_from(s.end)?
+                            && s.reset == ' '
                         {
                             let (here, there) = S::new();
                             match s.channel.send_timeout(
@@ -363,6 +369,7 @@ where
                             }
                         } else if u64::try_from(s.start)? < own_clock.elapsed().as_secs()
                             && own_clock.elapsed().as_secs() <= u64::try_from(s.end)?
+                            && s.reset == ' '
                         {
                             let (here, there) = S::new();
                             match s.channel.send_timeout(
@@ -407,6 +414,7 @@ where
                             }
                         } else if u64::try_from(s.start)? < own_clock.elapsed().as_secs()
                             && own_clock.elapsed().as_secs() < u64::try_from(s.end)?
+                            && s.reset == ' '
                         {
                             let (here, there) = S::new();
                             match s.channel.send_timeout(
-- 
2.43.0


From 3cf1b4cccd65beaf59410930321c5b7e1b18b3ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:21 +0000
Subject: [PATCH 05/16] fix: reset the clock of a timed choice only once every
 participant got it

---
 .../src/common_functions/expand/choose.rs     | 20 +++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/mpst_seq_proc/src/common_functions/expand/choose.rs b/mpst_seq_proc/src/common_functions/expand/choose.rs
index a1bc161..923ef4d 100644
--- a/mpst_seq_proc/src/common_functions/expand/choose.rs
+++ b/mpst_seq_proc/src/common_functions/expand/choose.rs
@@ -1574,7 +1574,7 @@ pub(crate) fn choose_atmp(
             let session_sender = Ident::new(&format!("session{j}"), Span::call_site());
 
             quote! {
-                let #new_session_sender = mpstthree::binary_atmp::send::send(
+                let #new_session_sender = mpstthree::binary_atmp::send::send_without_reset(
                     either::Either::Left(#new_choice_sender),
                     all_clocks,
                     self.#session_sender
@@ -1593,7 +1593,7 @@ pub(crate) fn choose_atmp(
             let session_sender = Ident::new(&format!("session{j}"), Span::call_site());
 
             quote! {
-                let #new_session_sender = mpstthree::binary_atmp::send::send(
+                let #new_session_sender = mpstthree::binary_atmp::send::send_without_reset(
                     either::Either::Right(#new_choice_sender),
                     all_clocks,
                     self.#session_sender
@@ -1602,6 +1602,18 @@ pub(crate) fn choose_atmp(
         })
         .collect();
 
+    // All the choices are sent with respect to the same clock,
+    // which is reset only after the last one
+    let reset_clock = quote! {
+        if RESET != ' ' {
+            if let Some(own_clock) = all_clocks.get_mut(&RESET) {
+                *own_clock = std::time::Instant::now();
+            } else {
+                panic!("The clock {} is not available in {:?}", RESET, all_clocks);
+            }
+        }
+    };
+
     let old_meshedchannels_sender: Vec<TokenStream> = (1..number_roles)
         .map(|j| {
             let new_session_sender =
@@ -1704,6 +1716,8 @@ pub(crate) fn choose_atmp(
                     #new_sessions_sender_left
                 )*
 
+                #reset_clock
+
                 let s = #meshedchannels_name {
                     #(
                         #old_meshedchannels_sender
@@ -1762,6 +1776,8 @@ pub(crate) fn choose_atmp(
                     #new_sessions_sender_right
                 )*
 
+                #reset_clock
+
                 let s = #meshedchannels_name {
                     #(
                         #old_meshedchannels_sender
-- 
2.43.0


From 897a834978db92241730e18cd56856d62b81c3dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:13 +0000
Subject: [PATCH 06/16] fix: let go of the replaced endpoints before going on
 with an offered branch

offer_cancel_mpst! shadowed the old session with the result of the send, so
that cancel() was given a unit value and the old endpoints stayed alive for
as long as the whole continuation. When the monitoring participant had gone
before it read the handed over endpoint, that endpoint was never dropped and
the participant blocked forever on closing.
---
 mpst_seq_proc/src/baking/baking_with_cancel.rs | 2 +-
 src/macros_multiple/offer.rs                   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mpst_seq_proc/src/baking/baking_with_cancel.rs b/mpst_seq_proc/src/baking/baking_with_cancel.rs
index d80a96f..6a30048 100644
--- a/mpst_seq_proc/src/baking/baking_with_cancel.rs
+++ b/mpst_seq_proc/src/baking/baking_with_cancel.rs
@@ -185,7 +185,7 @@ impl BakingWithCancel {
                 ($session: expr, { $( $pat: pat => $result: expr, )+ }) => {
                     (move || -> Result<_, _> {
                         let ((session1, cont), s) = $session.recv()?;
-                        let s = s.session1.sender.send(mpstthree::binary::struct_trait::end::Signal::Offer(session1)).unwrap();
+                        s.session1.sender.send(mpstthree::binary::struct_trait::end::Signal::Offer(session1)).unwrap();
                         mpstthree::binary::cancel::cancel(s);
                         match cont {
                             $(
diff --git a/src/macros_multiple/offer.rs b/src/macros_multiple/offer.rs
index cc76ade..226f40e 100644
--- a/src/macros_multiple/offer.rs
+++ b/src/macros_multiple/offer.rs
@@ -200,7 +200,7 @@ macro_rules! offer_cancel_mpst {
     ($session: expr, $recv_mpst: ident, { $( $pat: pat => $result: expr, )+ }) => {
         (move || -> Result<_, _> {
             let ((session1, cont), s) = $recv_mpst($session)?;
-            let s = s.session1.sender.send(mpstthree::binary::struct_trait::end::Signal::Offer(session1)).unwrap();
+            s.session1.sender.send(mpstthree::binary::struct_trait::end::Signal::Offer(session1)).unwrap();
             mpstthree::binary::cancel::cancel(s);
             match cont {
                 $(
-- 
2.43.0


From 9f5ed6e01a23886769aad21097d7ebac9a368212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:15 +0000
Subject: [PATCH 07/16] fix: let the monitor relay the loss of a participant
 like a cancellation

The loop of broadcast_cancel! ignored a disconnected participant and went on
polling for ever, so that the monitor, and everybody closing after it, never
ended when a participant was lost without sending Stop or Cancel.
---
 .../src/macros_multiple/multiple/broadcast_cancel.rs         | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mpst_seq_proc/src/macros_multiple/multiple/broadcast_cancel.rs b/mpst_seq_proc/src/macros_multiple/multiple/broadcast_cancel.rs
index e051f14..273eaf1 100644
--- a/mpst_seq_proc/src/macros_multiple/multiple/broadcast_cancel.rs
+++ b/mpst_seq_proc/src/macros_multiple/multiple/broadcast_cancel.rs
@@ -82,6 +82,11 @@ impl BroadcastCancel {
                                 Ok(mpstthree::binary::struct_trait::end::Signal::Offer(channel)) => {
                                     s.#field_session = channel;
                                 }
+                                Err(e) if #bool_session && e.is_disconnected() => {
+                                    #send_sessions
+                                    mpstthree::binary::cancel::cancel(s);
+                                    panic!("Error");
+                                }
                                 _ => {}
                             };
                         )*
-- 
2.43.0


From 5d39952173908911cc7741fa38d6e4e5faef9e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:26 +0000
Subject: [PATCH 08/16] fix: compare the time bounds of nuscr messages as
 numbers

They were compared as strings, so that windows such as [2;10] were refused.
---
 src/top_down_nuscr/auxiliary_objects/line_is_message.rs       | 4 +++-
 .../messages_and_stacks_update/previous_message_wrt_clocks.rs | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/top_down_nuscr/auxiliary_objects/line_is_message.rs b/src/top_down_nuscr/auxiliary_objects/line_is_message.rs
index ec803c6..08ae0bd 100644
--- a/src/top_down_nuscr/auxiliary_objects/line_is_message.rs
+++ b/src/top_down_nuscr/auxiliary_objects/line_is_message.rs
@@ -53,7 +53,9 @@ pub(crate) fn update_messages(
     }
 
     // Check if bounds are sound
-    if left_bound > right_bound && (left_bracket == "]" || right_bracket == "[") {
+    if left_bound.parse::<i32>()? > right_bound.parse::<i32>()?
+        && (left_bracket == "]" || right_bracket == "[")
+    {
         return Err(format!("The time bounds are not sound in line: {}", line_number).into());
     }
 
diff --git a/src/top_down_nuscr/auxiliary_objects/messages_and_stacks_update/previous_message_wrt_clocks.rs b/src/top_down_nuscr/auxiliary_objects/messages_and_stacks_update/previous_message_wrt_clocks.rs
index a9ab7d0..c87e7ef 100644
--- a/src/top_down_nuscr/auxiliary_objects/messages_and_stacks_update/previous_message_wrt_clocks.rs
+++ b/src/top_down_nuscr/auxiliary_objects/messages_and_stacks_update/previous_message_wrt_clocks.rs
@@ -5,7 +5,7 @@ pub(crate) fn fn_previous_message_wrt_clocks(
     previous_message_wrt_clocks: &mut HashMap<String, HashMap<String, (String, String)>>,
     elts: &MessageParameters,
 ) -> Result<(), Box<dyn std::error::Error>> {
-    if elts.left_bound > elts.right_bound {
+    if elts.left_bound.parse::<i32>()? > elts.right_bound.parse::<i32>()? {
         return Err("Wrong time interval: a left bound is after its related right bound.".into());
     }
 
-- 
2.43.0


From 092de80b3aed567a6de01694672418df3ee7a665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:01 +0000
Subject: [PATCH 09/16] fix: forget the bounds of a clock that a nuscr message
 resets

The first message on a clock recorded its bounds even when it reset that
clock, and resetting another clock was never taken into account: feasible
protocols were refused as not feasible.
---
 .../previous_message_wrt_clocks.rs                         | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/top_down_nuscr/auxiliary_objects/messages_and_stacks_update/previous_message_wrt_clocks.rs b/src/top_down_nuscr/auxiliary_objects/messages_and_stacks_update/previous_message_wrt_clocks.rs
index c87e7ef..c6bc021 100644
--- a/src/top_down_nuscr/auxiliary_objects/messages_and_stacks_update/previous_message_wrt_clocks.rs
+++ b/src/top_down_nuscr/auxiliary_objects/messages_and_stacks_update/previous_message_wrt_clocks.rs
@@ -93,5 +93,12 @@ pub(crate) fn fn_previous_message_wrt_clocks(
         previous_message_wrt_clocks.insert(elts.receiver.to_string(), temp_time_bound);
     }
 
+    // A clock that is reset starts again: the bounds before do not matter for what follows
+    for role in [&elts.sender, &elts.receiver] {
+        if let Some(role_time_bounds) = previous_message_wrt_clocks.get_mut(role) {
+            role_time_bounds.remove(&elts.reset);
+        }
+    }
+
     Ok(())
 }
-- 
2.43.0


From 5755d9492de8fb36ff08d2c80fe7e46123911bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:19 +0000
Subject: [PATCH 10/16] fix: remove the temporary nuscr file when checking a
 protocol fails

An error while writing the file or starting nuscr returned early and left it
behind.
---
 .../generate_regular_protocol.rs              | 42 ++++++++++++-------
 1 file changed, 27 insertions(+), 15 deletions(-)

diff --git a/src/top_down_nuscr/generate_regular_protocol.rs b/src/top_down_nuscr/generate_regular_protocol.rs
index 45c2b6d..04901f1 100644
--- a/src/top_down_nuscr/generate_regular_protocol.rs
+++ b/src/top_down_nuscr/generate_regular_protocol.rs
@@ -5,7 +5,7 @@ use rand::{distributions::Alphanumeric, Rng};
 use std::fs::{remove_file, File};
 use std::io::{BufRead, BufReader, Error, Lines, Write};
 use std::iter::Map;
-use std::process::Command;
+use std::process::{Command, Output};
 
 fn generate_regular_protocol(
     lines_iter: &mut Map<Lines<BufReader<File>>, impl FnMut(Result<String, Error>) -> String>,
@@ -76,6 +76,28 @@ fn generate_regular_protocol(
     }
 }
 
+fn run_nuscr(
+    lines_iter: &mut Map<Lines<BufReader<File>>, impl FnMut(Result<String, Error>) -> String>,
+    file: &mut File,
+    name_file: &str,
+) -> Result<(String, Output), Box<dyn std::error::Error>> {
+    let name_protocol = generate_regular_protocol(lines_iter, file, "".to_string())?;
+
+    let output = if cfg!(target_os = "windows") {
+        return Err("OS not supported".into());
+    } else {
+        Command::new("sh")
+            .arg("-c")
+            .arg(format!(
+                "nuscr --generate-sexp={} {}",
+                name_protocol, name_file
+            ))
+            .output()?
+    };
+
+    Ok((name_protocol, output))
+}
+
 pub(crate) fn check_fsm(filepath: &str) -> Result<(), Box<dyn std::error::Error>> {
     // Iterator over the lines of the input file
     // Ccheck that the protocol is sound, nuscr-wise
@@ -95,23 +117,13 @@ pub(crate) fn check_fsm(filepath: &str) -> Result<(), Box<dyn std::error::Error>
 
     let mut output_file = File::create(&name_file)?;
 
-    let name_protocol =
-        generate_regular_protocol(&mut lines_iter, &mut output_file, "".to_string())?;
-
-    let output = if cfg!(target_os = "windows") {
-        return Err("OS not supported".into());
-    } else {
-        Command::new("sh")
-            .arg("-c")
-            .arg(format!(
-                "nuscr --generate-sexp={} {}",
-                name_protocol, name_file
-            ))
-            .output()?
-    };
+    // Whatever happens, the temporary file is removed
+    let checked = run_nuscr(&mut lines_iter, &mut output_file, &name_file);
 
     remove_file(&name_file)?;
 
+    let (name_protocol, output) = checked?;
+
     if output.stdout.is_empty() {
         return Err(format!(
             "There was an issue with the {} nuscr protocol.",
-- 
2.43.0


From 8f318e27a3977b7965e9bacefbfce4ae29f5aebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:38 +0000
Subject: [PATCH 11/16] fix: generate the structs of nuscr messages in a fixed
 order

Two labels that differ only in their case share a struct; which of their two
payloads it got depended on the seed of a hash table.
---
 src/top_down_nuscr/auxiliary_objects/mod.rs          | 4 ++--
 src/top_down_nuscr/auxiliary_objects/process_line.rs | 4 ++--
 src/top_down_nuscr/generator.rs                      | 6 +++---
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/top_down_nuscr/auxiliary_objects/mod.rs b/src/top_down_nuscr/auxiliary_objects/mod.rs
index dd72c4c..1fb9af6 100644
--- a/src/top_down_nuscr/auxiliary_objects/mod.rs
+++ b/src/top_down_nuscr/auxiliary_objects/mod.rs
@@ -4,7 +4,7 @@
 //! auxiliary functions for the generator
 //! main function.
 
-use std::collections::{HashMap, HashSet};
+use std::collections::{BTreeMap, HashMap, HashSet};
 use std::fs::File;
 
 pub(crate) struct GlobalElements {
@@ -35,7 +35,7 @@ pub(crate) struct MessageParameters {
 }
 pub(crate) struct Tree {
     pub(crate) index: Vec<i32>,
-    pub(crate) messages_with_payloads: HashMap<String, String>,
+    pub(crate) messages_with_payloads: BTreeMap<String, String>,
     pub(crate) messages: HashMap<String, HashMap<String, Vec<String>>>,
     pub(crate) first_message: HashMap<String, HashMap<String, String>>,
     pub(crate) previous_message_wrt_clocks: HashMap<String, HashMap<String, (String, String)>>,
diff --git a/src/top_down_nuscr/auxiliary_objects/process_line.rs b/src/top_down_nuscr/auxiliary_objects/process_line.rs
index ea5264f..ca9d0a2 100644
--- a/src/top_down_nuscr/auxiliary_objects/process_line.rs
+++ b/src/top_down_nuscr/auxiliary_objects/process_line.rs
@@ -2,7 +2,7 @@ use std::fs::File;
 
 use std::io::{BufReader, Error, Lines};
 
-use std::collections::HashMap;
+use std::collections::{BTreeMap, HashMap};
 use std::iter::{Enumerate, Map};
 
 use super::{line_is_message::update_messages, regex_nuscr::*, GlobalElements, Tree};
@@ -59,7 +59,7 @@ fn init_sub_tree(
 ) -> Result<Tree, Box<dyn std::error::Error>> {
     let mut sub_tree = Tree {
         index: temp_index.to_vec(),
-        messages_with_payloads: HashMap::new(),
+        messages_with_payloads: BTreeMap::new(),
         messages: HashMap::new(),
         first_message: HashMap::new(),
         previous_message_wrt_clocks: HashMap::new(),
diff --git a/src/top_down_nuscr/generator.rs b/src/top_down_nuscr/generator.rs
index caf31ec..98de6b4 100644
--- a/src/top_down_nuscr/generator.rs
+++ b/src/top_down_nuscr/generator.rs
@@ -8,7 +8,7 @@ use std::fs::File;
 
 use std::io::{BufRead, BufReader};
 
-use std::collections::{HashMap, HashSet};
+use std::collections::{BTreeMap, HashMap, HashSet};
 
 use super::auxiliary_objects::{
     code_generate::*, process_line::process_line, GlobalElements, Tree,
@@ -37,7 +37,7 @@ pub fn generator(
     // Running elements
     let mut main_tree = Tree {
         index: vec![0],
-        messages_with_payloads: HashMap::new(),
+        messages_with_payloads: BTreeMap::new(),
         messages: HashMap::new(),
         first_message: HashMap::new(),
         previous_message_wrt_clocks: HashMap::new(),
@@ -68,7 +68,7 @@ pub fn generator(
         &mut global_elements,
         &mut Tree {
             index: vec![],
-            messages_with_payloads: HashMap::new(),
+            messages_with_payloads: BTreeMap::new(),
             messages: HashMap::new(),
             first_message: HashMap::new(),
             last_message: HashMap::new(),
-- 
2.43.0


From 5e624244a25d8d429eb047c288737fafc6ae27b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:54 +0000
Subject: [PATCH 12/16] fix: strip paths and convert names token by token when
 cleaning a session type

---
 src/checking/aux_checker.rs | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/src/checking/aux_checker.rs b/src/checking/aux_checker.rs
index 005431e..d71a4bf 100644
--- a/src/checking/aux_checker.rs
+++ b/src/checking/aux_checker.rs
@@ -41,26 +41,21 @@ type VecOfTuple = Vec<(String, usize)>;
 /// /!\ Mixing former and new naming: moving from new to former
 #[doc(hidden)]
 pub(crate) fn clean_session(session: &str) -> Result<VecOfStr, Box<dyn Error>> {
-    let mut double_colon_less = session.replace('&', "");
+    let reference_less = session.replace('&', "");
 
     // The main regex expression
-    let double_colon_regex = Regex::new(r"([^<,>\s]+)::([^<,>\s]+)")?;
+    let double_colon_regex = Regex::new(r"([^<,>()\[\];\s]+)::([^<,>()\[\];\s]+)")?;
 
     // Replace with regex expression -> term1::term2::term3 by term3
-    for caps in double_colon_regex.captures_iter(session) {
-        double_colon_less = double_colon_less.replace(&caps[0], &caps[caps.len() - 1]);
-    }
+    let double_colon_less = double_colon_regex.replace_all(&reference_less, "$2");
 
     // The name regex expression
     let name_regex = Regex::new(r"Name([[:alpha:]]+)")?;
 
-    let mut name_to_role = double_colon_less.clone();
-
-    // Replace with regex expression -> term1::term2::term3 by term3
-    for caps in name_regex.captures_iter(&double_colon_less) {
-        name_to_role =
-            name_to_role.replace(&caps[0], &format!("Role{}<RoleEnd>", &caps[caps.len() - 1]));
-    }
+    // Replace with regex expression -> NameX by RoleX<RoleEnd>
+    let mut name_to_role = name_regex
+        .replace_all(&double_colon_less, "Role$1<RoleEnd>")
+        .to_string();
 
     // Remove whitespaces
     name_to_role.retain(|c| !c.is_whitespace());
-- 
2.43.0


From 235510f6677e0d37b8f531a9e06638f6d6ea8fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:54 +0000
Subject: [PATCH 13/16] fix: keep tuples and arrays whole when splitting a
 session type into blocks

---
 src/checking/aux_checker.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/checking/aux_checker.rs b/src/checking/aux_checker.rs
index d71a4bf..9091b53 100644
--- a/src/checking/aux_checker.rs
+++ b/src/checking/aux_checker.rs
@@ -158,10 +158,10 @@ pub(crate) fn get_blocks(full_block: &str) -> Result<VecOfStr, Box<dyn Error>> {
         } else if i == '>' && index == 0 {
             result.push(temp.to_string());
             temp = "".to_string();
-        } else if i == '<' && index >= 0 {
+        } else if matches!(i, '<' | '(' | '[') && index >= 0 {
             temp = format!("{temp}{i}");
             index += 1;
-        } else if i == '>' && index >= 0 {
+        } else if matches!(i, '>' | ')' | ']') && index >= 0 {
             temp = format!("{temp}{i}");
             index -= 1;
         } else if i == ',' && index == 0 {
-- 
2.43.0


From 7fec1d5c624546d995bb332c0c3bad293ae2416d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:00 +0000
Subject: [PATCH 14/16] fix: keep nested choices without a message in between
 apart in the checker's automata

---
 src/checking/aux_checker.rs | 116 +++++++++++++++++++++++++++---------
 1 file changed, 89 insertions(+), 27 deletions(-)

diff --git a/src/checking/aux_checker.rs b/src/checking/aux_checker.rs
index 9091b53..1388df8 100644
--- a/src/checking/aux_checker.rs
+++ b/src/checking/aux_checker.rs
@@ -14,7 +14,8 @@ use std::fmt::Write;
 type VecOfStr = Vec<String>;
 type HashMapStrVecOfStr = HashMap<String, VecOfStr>;
 type GraphOfStrStr = Graph<String, String>;
-type VecOfTuple = Vec<(String, usize)>;
+/// Source, action and target of each transition. The steps without an action are silent.
+type VecOfTuple = Vec<(usize, String, usize)>;
 
 /// Clean the provided session, which should be stringified.
 ///
@@ -486,14 +487,8 @@ pub(crate) fn aux_get_graph(
                 );
 
                 cfsm.push((
-                    format!(
-                        "{}{} {} ! {} {}",
-                        current_role,
-                        previous_node.index(),
-                        index_head,
-                        &running_session[1],
-                        current_role
-                    ),
+                    previous_node.index(),
+                    format!("{} ! {}", index_head, &running_session[1]),
                     new_node.index(),
                 ));
 
@@ -531,14 +526,20 @@ pub(crate) fn aux_get_graph(
                                 && previous_node != *new_node
                             {
                                 g.add_edge(previous_node, *new_node, "µ".to_string());
-
-                                if let Some(elt) = cfsm.pop() {
-                                    cfsm.push((elt.0, new_node.index()));
-                                }
+                                cfsm.push((previous_node.index(), String::new(), new_node.index()));
                             }
                         } else {
                             // If the node was not added
                             if !node_added {
+                                // A choice which directly follows another one has its own node
+                                if branches_already_seen.values().any(|n| *n == previous_node) {
+                                    index_node[depth_level] += 1;
+                                    let new_node = g.add_node(extract_index_node(&index_node, depth_level)?);
+                                    g.add_edge(previous_node, new_node, "µ".to_string());
+                                    cfsm.push((previous_node.index(), String::new(), new_node.index()));
+                                    previous_node = new_node;
+                                }
+
                                 // Increase the index for the nodes
                                 index_node.push(0);
 
@@ -607,14 +608,8 @@ pub(crate) fn aux_get_graph(
                     );
 
                     cfsm.push((
-                        format!(
-                            "{}{} {} ? {} {}",
-                            current_role,
-                            previous_node.index(),
-                            index_head,
-                            &running_session[1],
-                            current_role
-                        ),
+                        previous_node.index(),
+                        format!("{} ? {}", index_head, &running_session[1]),
                         new_node.index(),
                     ));
 
@@ -690,14 +685,20 @@ pub(crate) fn aux_get_graph(
                 if let Some(new_node) = branches_already_seen.get(&current_branch) {
                     if !g.contains_edge(previous_node, *new_node) && previous_node != *new_node {
                         g.add_edge(previous_node, *new_node, "µ".to_string());
-
-                        if let Some(elt) = cfsm.pop() {
-                            cfsm.push((elt.0, new_node.index()));
-                        }
+                        cfsm.push((previous_node.index(), String::new(), new_node.index()));
                     }
                 } else {
                     // If the node was not added
                     if !node_added {
+                        // A choice which directly follows another one has its own node
+                        if branches_already_seen.values().any(|n| *n == previous_node) {
+                            index_node[depth_level] += 1;
+                            let new_node = g.add_node(extract_index_node(&index_node, depth_level)?);
+                            g.add_edge(previous_node, new_node, "µ".to_string());
+                            cfsm.push((previous_node.index(), String::new(), new_node.index()));
+                            previous_node = new_node;
+                        }
+
                         // Increase the index for the nodes
                         index_node.push(0);
 
@@ -767,6 +768,67 @@ pub(crate) fn aux_get_graph(
     }
 }
 
+// Remove the steps without an action, for the [`KMC`] tool does not know them.
+//
+// A node that only leads silently to another one is replaced with the latter. Any other source of a
+// silent step gets the transitions of the target.
+#[doc(hidden)]
+pub(crate) fn remove_silent_steps(mut cfsm: VecOfTuple) -> VecOfTuple {
+    // The nodes reached silently from the provided one, itself included
+    let closure = |cfsm: &VecOfTuple, node: usize| {
+        let mut reached = vec![node];
+        let mut index = 0;
+
+        while index < reached.len() {
+            for (from, action, to) in cfsm {
+                if *from == reached[index] && action.is_empty() && !reached.contains(to) {
+                    reached.push(*to);
+                }
+            }
+            index += 1;
+        }
+
+        reached
+    };
+
+    // Replace the nodes that only lead silently to another one, the initial node excepted
+    while let Some(position) = cfsm.iter().position(|(from, action, to)| {
+        action.is_empty()
+            && from != to
+            && *from != 0
+            && cfsm.iter().filter(|(other, _, _)| other == from).count() == 1
+    }) {
+        let (old, _, new) = cfsm.remove(position);
+
+        for (_, _, to) in cfsm.iter_mut() {
+            if *to == old {
+                *to = new;
+            }
+        }
+    }
+
+    // Copy the transitions at the end of the other silent steps
+    let mut result: VecOfTuple = Vec::new();
+
+    for (node, action, to) in cfsm.iter() {
+        if !action.is_empty() {
+            result.push((*node, action.to_string(), *to));
+        } else {
+            for reached in closure(&cfsm, *to) {
+                for (from, action, to) in cfsm.iter() {
+                    let step = (*node, action.to_string(), *to);
+
+                    if *from == reached && !action.is_empty() && !result.contains(&step) {
+                        result.push(step);
+                    }
+                }
+            }
+        }
+    }
+
+    result
+}
+
 // Build the digraphs.
 #[doc(hidden)]
 pub(crate) fn get_graph_session(
@@ -832,9 +894,9 @@ pub(crate) fn get_graph_session(
     let mut cfsm_result = vec![".outputs".to_string(), ".state graph".to_string()];
 
     // Format the tuples into strings and add them to cfsm_result
-    let mut clean_cfsm = cfsm
+    let mut clean_cfsm = remove_silent_steps(cfsm)
         .iter()
-        .map(|(s, i)| format!("{s}{i}"))
+        .map(|(from, action, to)| format!("{current_role}{from} {action} {current_role}{to}"))
         .collect::<Vec<String>>();
 
     cfsm_result.append(&mut clean_cfsm);
-- 
2.43.0


From fffff331a8a3ffd67e02ed1246abf24a6bb8d6f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:14 +0000
Subject: [PATCH 15/16] fix: do not take a failure of the KMC tool for a
 positive answer

---
 src/checking/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/checking/mod.rs b/src/checking/mod.rs
index 5d051b4..3d7b42c 100644
--- a/src/checking/mod.rs
+++ b/src/checking/mod.rs
@@ -285,6 +285,9 @@ pub(crate) fn kmc_cli(name_file: &str, kmc_number: i32) -> Result<(bool, String)
 
     if stdout.contains("False") {
         Ok((false, stdout))
+    } else if !kmc.status.success() {
+        // Without a complete answer, nothing is known about the protocol
+        Err(format!("The KMC tool failed on {name_file}: {}", kmc.status).into())
     } else {
         // Write down the stdout of the previous command into
         // a corresponding file in the "outputs" folder
-- 
2.43.0


From 1b1494070447d01ac012960309ac8508866bad7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:14 +0000
Subject: [PATCH 16/16] fix: report the protocol as correct when the KMC tool
 accepts it for k = 50

---
 src/checking/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/checking/mod.rs b/src/checking/mod.rs
index 3d7b42c..b28798a 100644
--- a/src/checking/mod.rs
+++ b/src/checking/mod.rs
@@ -391,7 +391,7 @@ pub fn checker(
             kmc_result = kmc_cli(name_file, kmc_number)?;
         }
 
-        if kmc_number == 50 {
+        if !kmc_result.0 {
             println!(
                 "The protocol does not seem correct. Here is the last output: {:?}",
                 kmc_result.1
-- 
2.43.0

