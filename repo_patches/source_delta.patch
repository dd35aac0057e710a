From cadbf8cd1be43682f8accfc14353d8094b96ea08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:30 +0000
Subject: [PATCH 001/213] fix: release a waiting message when its reply is
 itself replied to

---
 src/M2MLink/M2MLink.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/M2MLink/M2MLink.cpp b/src/M2MLink/M2MLink.cpp
index 6ad4df1..2cdd9d5 100644
--- a/src/M2MLink/M2MLink.cpp
+++ b/src/M2MLink/M2MLink.cpp
@@ -668,6 +668,12 @@ int8_t M2MLink::_churn_inbound() {
     M2MMsg* temp = _inbound_messages.dequeue();
     KeyValuePair* kvps_rxd = nullptr;
 
+    // A reply satisfies the message that it replies to, even if it will itself
+    //   be converted into a further reply.
+    if (temp->isReply()) {
+      _clear_waiting_send_by_id(temp->uniqueId());
+    }
+
     if (_verbosity >= LOG_LEV_INFO) {
       StringBuilder tmp_log;
       tmp_log.concatf("Link 0x%08x processing inbound...\n", _session_tag);
@@ -862,9 +868,6 @@ int8_t M2MLink::_churn_inbound() {
     }
 
     if (gc_message) {
-      if (temp->isReply()) {
-        _clear_waiting_send_by_id(temp->uniqueId());
-      }
       _reclaim_m2mmsg(temp);
     }
   }
-- 
2.43.0


From 665ac8b3d2774812e0817ab0d4626403fca985f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:30 +0000
Subject: [PATCH 002/213] fix: keepalive replies no longer discard unsent
 messages, and satisfied messages are freed

---
 src/M2MLink/M2MLink.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/M2MLink/M2MLink.cpp b/src/M2MLink/M2MLink.cpp
index 2cdd9d5..b5cc237 100644
--- a/src/M2MLink/M2MLink.cpp
+++ b/src/M2MLink/M2MLink.cpp
@@ -953,13 +953,17 @@ int8_t M2MLink::_churn_outbound() {
 */
 int8_t M2MLink::_clear_waiting_send_by_id(uint32_t id) {
   int8_t ret = 0;
-  for (int i = 0; i < _outbound_messages.size(); i++) {
+  if (0 == id) {
+    return ret;   // Messages without an ID (SYNC included) don't wait on replies.
+  }
+  for (int i = (_outbound_messages.size() - 1); i >= 0; i--) {
     M2MMsg* temp = _outbound_messages.get(i);
     if (nullptr != temp) {
-      if (id == temp->uniqueId()) {
+      if ((id == temp->uniqueId()) & temp->wasSent()) {
         temp->markACKd();
         _outbound_messages.remove(temp);
-        ret = 1;
+        _reclaim_m2mmsg(temp);
+        ret++;
       }
     }
   }
-- 
2.43.0


From 7fa107cd7522acc5a2185fdc8c92e545b26f87e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:48 +0000
Subject: [PATCH 003/213] fix: a refusal by the transport no longer reorders
 outbound messages

---
 src/M2MLink/M2MLink.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/M2MLink/M2MLink.cpp b/src/M2MLink/M2MLink.cpp
index b5cc237..c2ffe7a 100644
--- a/src/M2MLink/M2MLink.cpp
+++ b/src/M2MLink/M2MLink.cpp
@@ -885,7 +885,7 @@ int8_t M2MLink::_churn_outbound() {
   int8_t ret = 0;
   if (_outbound_messages.hasNext()) {
     int current_priority = _outbound_messages.getPriority(0);
-    M2MMsg* temp = _outbound_messages.dequeue();
+    M2MMsg* temp = _outbound_messages.get(0);
     if (nullptr != temp) {
       int new_priority = (temp->msgCode() == M2MMsgCode::APPLICATION) ? M2MLINK_PRIORITY_APP : M2MLINK_PRIORITY_INTERNAL;
       bool gc_msg    = false;
@@ -932,9 +932,11 @@ int8_t M2MLink::_churn_outbound() {
         _outbound_messages.remove(temp);
         _reclaim_m2mmsg(temp);
       }
-      else {
+      else if (temp->wasSent()) {
         // NOTE: We skip the queue-size check, considering that we just pulled
         //   this object from this very queue.
+        // A message that the transport has yet to accept keeps its place.
+        _outbound_messages.remove(temp);
         _outbound_messages.insert(temp, new_priority);
       }
     }
-- 
2.43.0


From 5155b56fe6801048f71202cb2946244b331f51a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:02 +0000
Subject: [PATCH 004/213] fix: count every length byte in the total length of a
 message

---
 src/M2MLink/M2MMsgHdr.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/M2MLink/M2MMsgHdr.cpp b/src/M2MLink/M2MMsgHdr.cpp
index 6316f1a..2b93476 100644
--- a/src/M2MLink/M2MMsgHdr.cpp
+++ b/src/M2MLink/M2MMsgHdr.cpp
@@ -58,7 +58,7 @@ M2MMsgHdr::M2MMsgHdr(M2MMsgCode m, uint8_t pl_len, uint8_t f, uint32_t i) :
   if (needed_total_sz > 0x0000FFFE) calcd_len_sz++;
   if (needed_total_sz <= 0x00FFFFFD) {  // Anything larger than this is invalid.
     flags = ((flags & ~M2MMSGHDR_FLAG_ENCODES_LENGTH_BYTES) | (calcd_len_sz << 4));
-    msg_len = needed_total_sz;
+    msg_len = needed_total_sz + (calcd_len_sz - 1);  // Minimum header has one length byte.
     chk_byte = (uint8_t) (flags + msg_len + (uint8_t)msg_code + M2MLINK_SERIALIZATION_VERSION);
   }
 }
@@ -102,7 +102,7 @@ bool M2MMsgHdr::set_payload_length(uint32_t pl_len) {
   if (needed_total_sz > 0x0000FFFE) calcd_len_sz++;
   if (needed_total_sz <= 0x00FFFFFD) {  // Anything larger than this is invalid.
     flags = ((flags & ~M2MMSGHDR_FLAG_ENCODES_LENGTH_BYTES) | (calcd_len_sz << 4));
-    msg_len = needed_total_sz;
+    msg_len = needed_total_sz + (calcd_len_sz - 1);  // Minimum header has one length byte.
     chk_byte = calc_hdr_chcksm();
     ret = true;
   }
-- 
2.43.0


From 47e19c6a373d40b7ff3130c4485d24d872b1ff91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:29 +0000
Subject: [PATCH 005/213] fix: the final bytes of a fragmented message no
 longer wait for the next message

---
 src/M2MLink/M2MLink.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/M2MLink/M2MLink.cpp b/src/M2MLink/M2MLink.cpp
index c2ffe7a..6fd3295 100644
--- a/src/M2MLink/M2MLink.cpp
+++ b/src/M2MLink/M2MLink.cpp
@@ -1204,7 +1204,8 @@ int8_t M2MLink::_process_input_buffer() {
   }
 
   if (proc_fallthru) {
-    if (_inbound_buf.length() >= 4) {
+    // A message that has yet to be completed might need fewer bytes than a header.
+    if ((_inbound_buf.length() >= M2MMSGHDR_MINIMUM_HEADER_SIZE) | (nullptr != _working)) {
       if (nullptr == _working) {
         M2MMsgHdr _header;
         int8_t ret_header = M2MMsg::attempt_header_parse(&_header, &_inbound_buf);
-- 
2.43.0


From 6180cd77b798ee6407a51734791c93671d42bb92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:29 +0000
Subject: [PATCH 006/213] fix: reject headers with no length field, or a length
 shorter than the header

---
 src/M2MLink/M2MMsg.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/M2MLink/M2MMsg.cpp b/src/M2MLink/M2MMsg.cpp
index 9def5e4..ba37920 100644
--- a/src/M2MLink/M2MMsg.cpp
+++ b/src/M2MLink/M2MMsg.cpp
@@ -60,13 +60,16 @@ int8_t M2MMsg::attempt_header_parse(M2MMsgHdr* hdr, StringBuilder* dat_in) {
 
     const uint8_t len_l = hdr->len_length();
     const uint8_t id_l  = hdr->id_length();
-    if (hdr->header_length() <= AVAILABLE_LEN) {
+    if (0 == len_l) {
+      ret = -3;   // The length field is mandatory.
+    }
+    else if (hdr->header_length() <= AVAILABLE_LEN) {
       // Write the multibyte value as big-endian.
       for (uint8_t i = 0; i < len_l; i++) hdr->msg_len = ((hdr->msg_len << 8) | *(tmp_buf++));
       for (uint8_t i = 0; i < id_l; i++)  hdr->msg_id  = ((hdr->msg_id << 8)  | *(tmp_buf++));
       hdr->chk_byte = *(tmp_buf++);
       ret = -3;
-      if (hdr->chk_byte == hdr->calc_hdr_chcksm()) {       // Does the checksum match?
+      if ((hdr->chk_byte == hdr->calc_hdr_chcksm()) & (0 <= hdr->payload_length())) {   // Does the checksum match a sane length?
         ret = 1;
         if (0 < hdr->payload_length()) {
           ret = (hdr->total_length() > AVAILABLE_LEN) ? 0 : 2;
-- 
2.43.0


From dfc1c3a868fa7006aab48983a2a185a286bf029c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:29 +0000
Subject: [PATCH 007/213] fix: repeat CONNECT until it is answered

---
 src/M2MLink/M2MLink.cpp | 10 +++++++++-
 src/M2MLink/M2MLink.h   |  1 +
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/M2MLink/M2MLink.cpp b/src/M2MLink/M2MLink.cpp
index 6fd3295..5295a8f 100644
--- a/src/M2MLink/M2MLink.cpp
+++ b/src/M2MLink/M2MLink.cpp
@@ -274,6 +274,13 @@ int8_t M2MLink::poll(StringBuilder* log_ret) {
           _send_sync_packet(true);
         }
       }
+      // If we are waiting on a reply to CONNECT, either it or the CONNECT might
+      //   have been lost (or discarded by a counterparty that was not in sync).
+      if ((M2MLinkState::SYNC_TENTATIVE == currentState()) & _fsm_is_stable()) {
+        if (millis_since(_ms_last_connect) > _opts.ms_keepalive) {
+          _send_connect_message();
+        }
+      }
       break;
   }
   int8_t ret = _fsm_poll();                 // Poll the link's FSM.
@@ -708,7 +715,7 @@ int8_t M2MLink::_churn_inbound() {
               }
             }
           }
-          else {
+          else if ((M2MLinkState::SYNC_TENTATIVE == currentState()) & _fsm_is_stable()) {
             _fsm_append_route(1, M2MLinkState::LIVE);
           }
           _flags.set(M2MLINK_FLAG_ESTABLISHED);
@@ -1418,6 +1425,7 @@ int8_t M2MLink::_send_connect_message() {
   int8_t ret = -1;
   // TODO: For now, this will just send a connection message directly to the transport.
   StringBuilder connect_packet;
+  _ms_last_connect = millis();
   M2MMsgHdr connect_header(M2MMsgCode::CONNECT, 0, true);
   M2MMsg connect_msg(&connect_header, BusOpcode::TX);
   if (connect_header.serialize(&connect_packet)) {
diff --git a/src/M2MLink/M2MLink.h b/src/M2MLink/M2MLink.h
index 4a503b4..95214cc 100644
--- a/src/M2MLink/M2MLink.h
+++ b/src/M2MLink/M2MLink.h
@@ -525,6 +525,7 @@ class M2MLink : public StateMachine<M2MLinkState>, public BufferCoDec {
     uint32_t        _session_tag    = 0;        // Allows the application to keep track of our callbacks.
     uint32_t        _ms_last_send   = 0;        // At what time did the last message go out?
     uint32_t        _ms_last_rec    = 0;        // At what time did the last message come in?
+    uint32_t        _ms_last_connect = 0;       // At what time did the last CONNECT go out?
     uint16_t        _sync_losses    = 0;        // How many times this session have we lost sync?
     uint16_t        _unackd_sends   = 0;        // How many messages that needed an ACK failed to get one?
     M2MMsg*         _working        = nullptr;  // If we are in the middle of receiving a message,
-- 
2.43.0


From 4f209acc850b6fcd2aa2141ecf0c809964e3fa5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:05 +0000
Subject: [PATCH 008/213] fix: messages own the payload they unserialize, and
 only that payload

reply() left a pointer to the caller's payload in the message, which was
dereferenced (if the caller freed it) when a full queue refused the reply.
The payload that accumulate() unserialized was never freed.
---
 src/M2MLink/M2MMsg.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/M2MLink/M2MMsg.cpp b/src/M2MLink/M2MMsg.cpp
index ba37920..afce4a6 100644
--- a/src/M2MLink/M2MMsg.cpp
+++ b/src/M2MLink/M2MMsg.cpp
@@ -133,6 +133,7 @@ M2MMsg::M2MMsg(M2MMsgHdr* hdr, BusOpcode d) : _header(hdr), _op(d) {
 * Destructor.
 */
 M2MMsg::~M2MMsg() {
+  wipe();
 }
 
 
@@ -159,6 +160,10 @@ void M2MMsg::wipe() {
   _flags       = 0;
   _header.wipe();
   _accumulator.clear();
+  if (nullptr != _kvp) {   // Only non-null if accumulate() unserialized it.
+    delete _kvp;
+    _kvp = nullptr;
+  }
 }
 
 
@@ -237,11 +242,15 @@ int M2MMsg::reply(KeyValuePair* kvp, bool reply_expected) {
     _header.expectsReply(reply_expected);
     _header.isReply(true);
     _accumulator.clear();
+    if (nullptr != _kvp) {
+      delete _kvp;   // The inbound payload that accumulate() unserialized.
+    }
     _kvp = kvp;
     _class_clear_flag(M2MMSG_FLAG_ACCUMULATOR_COMPLETE);
     if (0 == serialize(&_accumulator)) {
       ret = 0;
     }
+    _kvp = nullptr;   // The caller retains ownership of the KVP.
   }
   return ret;
 }
-- 
2.43.0


From 94332db9fb00893e838c59e2841acd479532175d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:19 +0000
Subject: [PATCH 009/213] fix: free CONNECT, WHO, LOG, and flooded messages,
 and their payloads

Also tolerate a LOG message whose payload cannot be unserialized.
---
 src/M2MLink/M2MLink.cpp | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/M2MLink/M2MLink.cpp b/src/M2MLink/M2MLink.cpp
index 5295a8f..269fae5 100644
--- a/src/M2MLink/M2MLink.cpp
+++ b/src/M2MLink/M2MLink.cpp
@@ -190,6 +190,10 @@ M2MLink::~M2MLink() {
     _reclaim_m2mmsg(_working);
     _working = nullptr;
   }
+  if (nullptr != _id_remote) {
+    delete _id_remote;
+    _id_remote = nullptr;
+  }
 }
 
 
@@ -721,10 +725,8 @@ int8_t M2MLink::_churn_inbound() {
           _flags.set(M2MLINK_FLAG_ESTABLISHED);
         }
         else if (temp->expectsReply()) {
-          if (0 == temp->ack()) {
-            gc_message = false;
-          }
-          else if (_verbosity >= LOG_LEV_ERROR) c3p_log(LOG_LEV_ERROR, __PRETTY_FUNCTION__, "Link 0x%08x Failed to reply to CONNECT\n", _session_tag);
+          // NOTE: The reply goes straight to the transport, and isn't queued.
+          if ((0 != temp->ack()) & (_verbosity >= LOG_LEV_ERROR)) c3p_log(LOG_LEV_ERROR, __PRETTY_FUNCTION__, "Link 0x%08x Failed to reply to CONNECT\n", _session_tag);
           //if (_verbosity >= LOG_LEV_INFO) {
           //  StringBuilder tmp_log;
           //  tmp_log.concatf("Link 0x%08x responding with...\n", _session_tag);
@@ -794,6 +796,7 @@ int8_t M2MLink::_churn_inbound() {
               }
             }
           }
+          delete kvps_rxd;
         }
 
         if (temp->isReply()) {
@@ -808,8 +811,8 @@ int8_t M2MLink::_churn_inbound() {
           // We are being queried about our Identity.
           if (_id_loc) {
             // If we have one assigned, serialize and relay it as a reply.
-            KeyValuePair* a = new KeyValuePair("ident", _id_loc);
-            int8_t ret_local = temp->reply(a, true);
+            KeyValuePair a("ident", _id_loc);
+            int8_t ret_local = temp->reply(&a, true);
             const uint8_t VERB_LEV = (0 > ret_local) ? LOG_LEV_ERROR : LOG_LEV_INFO;
             if (_verbosity >= VERB_LEV) {
               c3p_log(VERB_LEV, __PRETTY_FUNCTION__, "Link 0x%08x reply to WHO returns %u.\n", _session_tag, ret_local);
@@ -992,7 +995,7 @@ int8_t M2MLink::_handle_msg_log(M2MMsg* msg) {
   if (_flags.value(M2MLINK_FLAG_ALLOW_LOG_WRITE)) {   // Will we allow a write to our log?
     ret++;
     KeyValuePair* inbound_kvp = nullptr;
-    if (0 == msg->getPayload(&inbound_kvp)) {
+    if ((0 == msg->getPayload(&inbound_kvp)) && (nullptr != inbound_kvp)) {
       char* inbound_log = nullptr;
       if (0 == inbound_kvp->valueWithKey("b", &inbound_log)) {
         // TODO: Surround with randomly-generated tags to prevent confusion.
@@ -1001,7 +1004,7 @@ int8_t M2MLink::_handle_msg_log(M2MMsg* msg) {
       else {
         if (LOG_LEV_NOTICE <= _verbosity) c3p_log(LOG_LEV_NOTICE, __PRETTY_FUNCTION__, "Link 0x%08x failed to decompose LOG message.\n", _session_tag);
       }
-      //delete inbound_kvp;
+      delete inbound_kvp;
     }
     else {
       if (LOG_LEV_NOTICE <= _verbosity) c3p_log(LOG_LEV_NOTICE, __PRETTY_FUNCTION__, "Link 0x%08x failed to find LOG payload.\n", _session_tag);
@@ -1249,6 +1252,7 @@ int8_t M2MLink::_process_input_buffer() {
             }
             else {
               c3p_log(LOG_LEV_WARN, __PRETTY_FUNCTION__, "Link 0x%08x inbound message queue flood.\n", _session_tag);
+              _reclaim_m2mmsg(_working);
             }
           }
           else {
@@ -1492,8 +1496,8 @@ int8_t M2MLink::_send_who_message() {
   if (nullptr != msg) {
     ret--;
     if (_id_loc) {
-      KeyValuePair* a = new KeyValuePair("ident", _id_loc);
-      msg->setPayload(a);
+      KeyValuePair a("ident", _id_loc);
+      msg->setPayload(&a);
     }
     if (0 == _send_msg(msg)) {
       ret = 0;
-- 
2.43.0


From ef321080c365dbd461105c64ea704826bf04d2ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:45 +0000
Subject: [PATCH 010/213] fix: a route planned during a state entry is not
 truncated

If _fsm_set_position() replaced the route (an application hanging up a link
from its state callback), the first state of the new route was taken to be the
current state, without ever having been entered.
---
 src/FiniteStateMachine.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/FiniteStateMachine.h b/src/FiniteStateMachine.h
index 675a901..0bf9b5f 100644
--- a/src/FiniteStateMachine.h
+++ b/src/FiniteStateMachine.h
@@ -121,9 +121,13 @@ template <class T> class StateMachine {
 template <class T> int8_t StateMachine<T>::_fsm_advance() {
   int8_t ret = -1;
   if (0 < _waypoints.count()) {
-    if (0 == _fsm_set_position((T) _waypoints.peek())) {
+    const T NXT_STATE = (T) _waypoints.peek();
+    if (0 == _fsm_set_position(NXT_STATE)) {
       _prior_state   = _current_state;
-      _current_state = (T) _waypoints.get();
+      _current_state = NXT_STATE;
+      if (_fsm_is_next_pos(NXT_STATE)) {
+        _waypoints.get();   // The state entry might have planned a new route.
+      }
       ret = 0;
       if (0 < _slowdown_ms) {
         // Be sure to preserve at least as much margin as the transistion code
-- 
2.43.0


From 3ecdeed5d9547f857cfe74d58841865710f77ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:45 +0000
Subject: [PATCH 011/213] fix: a loss of sync prior to connection no longer
 wedges the link

A link in SYNC_TENTATIVE that lost sync would never leave the state, while the
unparsable bytes remained at the head of its buffer, and a sync cycle was added
to the route on each poll.
---
 src/M2MLink/M2MLink.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/M2MLink/M2MLink.cpp b/src/M2MLink/M2MLink.cpp
index 269fae5..790a043 100644
--- a/src/M2MLink/M2MLink.cpp
+++ b/src/M2MLink/M2MLink.cpp
@@ -1553,7 +1553,7 @@ int8_t M2MLink::_fsm_poll() {
 
     // Exit conditions: We've exchanged CONNECT messages.
     case M2MLinkState::SYNC_TENTATIVE:
-      fsm_advance = _flags.value(M2MLINK_FLAG_ESTABLISHED);
+      fsm_advance = (_flags.value(M2MLINK_FLAG_ESTABLISHED) | !_fsm_is_stable());
       break;
 
     // Exit conditions: An acceptable authentication has happened.
@@ -1704,7 +1704,10 @@ int8_t M2MLink::_fsm_set_position(M2MLinkState new_state) {
 
 int8_t M2MLink::_fsm_insert_sync_states() {
   int8_t ret = -1;
-  if (0 == _fsm_prepend_state(M2MLinkState::SYNC_TENTATIVE)) {
+  if (_fsm_is_next_pos(M2MLinkState::SYNC_RESYNC)) {
+    ret = 0;   // Already planned.
+  }
+  else if (0 == _fsm_prepend_state(M2MLinkState::SYNC_TENTATIVE)) {
     if (0 == _fsm_prepend_state(M2MLinkState::SYNC_RESYNC)) {
       ret = 0;
     }
-- 
2.43.0


From 83eb508968c590fb6848dce5047124088be72a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:45 +0000
Subject: [PATCH 012/213] fix: a hangup always concludes

A forced hangup had no effect on a link that was not yet in sync, nor on one in
PENDING_HANGUP. A graceful hangup never concluded if the counterparty was gone,
nor if sync was lost before the counterparty's reply arrived.
---
 src/M2MLink/M2MLink.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/M2MLink/M2MLink.cpp b/src/M2MLink/M2MLink.cpp
index 790a043..1b9b025 100644
--- a/src/M2MLink/M2MLink.cpp
+++ b/src/M2MLink/M2MLink.cpp
@@ -337,6 +337,7 @@ int8_t M2MLink::hangup(bool graceful) {
     //   with the PENDING_HANGUP state. Obliterate the existing dialogs.
     _purge_inbound();
     _purge_outbound();
+    _flags.set(M2MLINK_FLAG_HANGUP_TXD);   // Nothing remains to be said.
     ret = _fsm_set_route(1, M2MLinkState::HUNGUP);
   }
   return ret;
@@ -1549,6 +1550,7 @@ int8_t M2MLink::_fsm_poll() {
     //   preceeded by sync packets.
     case M2MLinkState::SYNC_RESYNC:
       fsm_advance = (_flags.value(M2MLINK_FLAG_SYNC_INCOMING) & _flags.value(M2MLINK_FLAG_SYNC_REPLY_RXD));
+      fsm_advance |= _fsm_is_next_pos(M2MLinkState::HUNGUP);   // Forced hangup.
       break;
 
     // Exit conditions: We've exchanged CONNECT messages.
@@ -1559,6 +1561,7 @@ int8_t M2MLink::_fsm_poll() {
     // Exit conditions: An acceptable authentication has happened.
     case M2MLinkState::PENDING_AUTH:
       fsm_advance = _flags.value(M2MLINK_FLAG_AUTHD);
+      fsm_advance |= _fsm_is_next_pos(M2MLinkState::HUNGUP);   // Forced hangup.
       break;
 
     // Exit conditions: These states are canonically stable. So we advance when
@@ -1568,10 +1571,10 @@ int8_t M2MLink::_fsm_poll() {
       break;
 
     // Exit conditions: The outbound queue is empty, and at least one HANGUP
-    //   message has been sent and ACK'd.
+    //   message has been sent, and either ACK'd or given up on.
     case M2MLinkState::PENDING_HANGUP:
       if (!_outbound_messages.hasNext()) {
-        fsm_advance = _flags.value(M2MLINK_FLAG_HANGUP_RXD) & _flags.value(M2MLINK_FLAG_HANGUP_TXD);
+        fsm_advance = _flags.value(M2MLINK_FLAG_HANGUP_TXD);
       }
       break;
 
@@ -1707,6 +1710,10 @@ int8_t M2MLink::_fsm_insert_sync_states() {
   if (_fsm_is_next_pos(M2MLinkState::SYNC_RESYNC)) {
     ret = 0;   // Already planned.
   }
+  else if (M2MLinkState::PENDING_HANGUP == currentState()) {
+    _inbound_buf.clear();   // The session is ending. There is no point in sync.
+    ret = 0;
+  }
   else if (0 == _fsm_prepend_state(M2MLinkState::SYNC_TENTATIVE)) {
     if (0 == _fsm_prepend_state(M2MLinkState::SYNC_RESYNC)) {
       ret = 0;
-- 
2.43.0


From d969f4147cd429729ea4437b5c0d1dd90a9f32ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:45 +0000
Subject: [PATCH 013/213] fix: bounds-check the service slot named by a
 received message

---
 src/M2MLink/M2MLink.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/M2MLink/M2MLink.cpp b/src/M2MLink/M2MLink.cpp
index 1b9b025..e4e86c9 100644
--- a/src/M2MLink/M2MLink.cpp
+++ b/src/M2MLink/M2MLink.cpp
@@ -1151,7 +1151,7 @@ int8_t M2MLink::_offer_msg_to_service(uint8_t slot, M2MMsg* msg) {
   if (CONFIG_C3PLINK_SERVICE_SLOTS > slot) {
     ret++;
   }
-  if (nullptr != _svc_list[slot]) {   // Call the callback, if it is set.
+  if ((0 == ret) && (nullptr != _svc_list[slot])) {   // Call the callback, if it is set.
     ret++;
     _svc_list[slot]->_handle_msg(_session_tag, msg);
     if (BusOpcode::TX == msg->direction()) {
-- 
2.43.0


From 54442728ca389d367c952e483bf443e7743379bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:45 +0000
Subject: [PATCH 014/213] fix: the search for sync no longer discards bytes it
 has yet to test

A transport that delivered a multiple of four bytes at a time, out of phase
with the sync packets, could prevent a link from ever finding sync.
---
 src/M2MLink/M2MLink.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/M2MLink/M2MLink.cpp b/src/M2MLink/M2MLink.cpp
index e4e86c9..4ca853d 100644
--- a/src/M2MLink/M2MLink.cpp
+++ b/src/M2MLink/M2MLink.cpp
@@ -1384,12 +1384,11 @@ int8_t M2MLink::_process_for_sync() {
   }
   else {
     // Without finding a sync packet, we drop the data.
-    // Cull to a modulus of 4 bytes so as not to drop data we haven't tested.
-    const uint32_t CULL_LEN = ((uint32_t) AVAILABLE_LEN) & 0xFFFFFFFC;
-    if (0 < CULL_LEN) {   // clear() is cheaper than cull().
+    // Retain the final bytes, which might be the start of a sync packet.
+    const int CULL_LEN = (AVAILABLE_LEN - (M2MMSGHDR_MINIMUM_HEADER_SIZE - 1));
+    if (0 < CULL_LEN) {
       ret = 0;
-      if ((uint32_t)AVAILABLE_LEN == CULL_LEN) {  _inbound_buf.clear();  }
-      else {  _inbound_buf.cull(CULL_LEN);  }
+      _inbound_buf.cull(CULL_LEN);
     }
   }
   if (_verbosity >= LOG_LEV_DEBUG) {
-- 
2.43.0


From d61fcbd0b4d2c600e7c94d1b00926315b47daae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:31 +0000
Subject: [PATCH 015/213] fix: the CBOR decoder refuses lengths that exceed
 INT32_MAX

Such a length was taken as negative, passed the test for available bytes, and
smashed the stack.
---
 src/cbor-cpp/cbor.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cbor-cpp/cbor.cpp b/src/cbor-cpp/cbor.cpp
index 2d01cdc..a3e170b 100644
--- a/src/cbor-cpp/cbor.cpp
+++ b/src/cbor-cpp/cbor.cpp
@@ -48,7 +48,7 @@ input_stringbuilder::~input_stringbuilder() {
 }
 
 bool input_stringbuilder::has_bytes(int count) {
-  if (nullptr != _str_bldr) {
+  if ((nullptr != _str_bldr) & (0 <= count)) {   // Lengths from the wire might exceed INT32_MAX.
     return ((_str_bldr->length() - (_consume_input ? 0 : _offset)) >= count);
   }
   return false;
@@ -251,7 +251,7 @@ input_static::input_static(void *data, int size) {
   _offset = 0;
 }
 
-bool    input_static::has_bytes(int count) {   return (_size - _offset) >= count;  }
+bool    input_static::has_bytes(int count) {   return ((0 <= count) & ((_size - _offset) >= count));  }
 uint8_t input_static::get_byte() {             return _data[_offset++];            }
 
 uint16_t input_static::get_short() {
-- 
2.43.0


From a195ebf9050212e4e4d3d87d6aa5372c6165c609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:31 +0000
Subject: [PATCH 016/213] fix: CBOR round-trips for negative and 64-bit
 integers

The encoder dropped the low byte of 64-bit integers from 256 to 65535. The
decoder took -256 and -65536 to be 0, and read 64-bit negative integers as
positive, and then lost its place in the data.
---
 src/cbor-cpp/cbor.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/cbor-cpp/cbor.cpp b/src/cbor-cpp/cbor.cpp
index a3e170b..a44b2d1 100644
--- a/src/cbor-cpp/cbor.cpp
+++ b/src/cbor-cpp/cbor.cpp
@@ -349,6 +349,7 @@ void encoder::write_type_value64(int major_type, uint64_t value) {
   else if(value < 65536ULL) {
     _out->put_byte((uint8_t) (major_type | 25));
     _out->put_byte((uint8_t) (value >> 8));
+    _out->put_byte((uint8_t) value);
   }
   else if(value < 4294967296ULL) {
     _out->put_byte((uint8_t) (major_type | 26));
@@ -676,7 +677,7 @@ void decoder::run() {
         switch(_currentLength) {
           case 1:
           {
-            uint8_t diff = _in->get_byte()+1;
+            uint16_t diff = _in->get_byte()+1;
             if (diff < 128u) {
               _listener->on_integer((int8_t) -(diff));
             }
@@ -688,7 +689,7 @@ void decoder::run() {
           break;
           case 2:
           {
-            uint16_t diff = _in->get_short()+1;
+            uint32_t diff = _in->get_short()+1;
             if (diff < 32768u) {
               _listener->on_integer((int16_t) -(diff));
             }
@@ -710,7 +711,8 @@ void decoder::run() {
           _state = STATE_TYPE;
           break;
           case 8:
-          _listener->on_integer(_in->get_long());
+          _listener->on_integer((int64_t) (-1 - ((int64_t) _in->get_long())));
+          _state = STATE_TYPE;
           break;
         }
       } else break;
-- 
2.43.0


From 98c95e1cdbd6f01fb3de417b5dcf321f3c35f935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:31 +0000
Subject: [PATCH 017/213] fix: CBOR keys are not leaked, and byte strings are
 copied

A decoded byte string was left pointing at the decoder's stack.
---
 src/C3PValue/KeyValuePair.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/C3PValue/KeyValuePair.cpp b/src/C3PValue/KeyValuePair.cpp
index 1891d2c..36ec371 100644
--- a/src/C3PValue/KeyValuePair.cpp
+++ b/src/C3PValue/KeyValuePair.cpp
@@ -419,7 +419,8 @@ void CBORArgListener::_caaa(KeyValuePair* nu) {
   if (0 < _wait_map) {
     _wait_map--;
     if (nullptr != _wait) {
-      nu->setKey(_wait);
+      nu->setKey(_wait);   // Deep-copies the key.
+      free(_wait);
       _wait = nullptr;
     }
   }
@@ -478,7 +479,14 @@ void CBORArgListener::on_bytes(uint8_t* data, int size) {
     _pending_c3p_tag = TCode::NONE;
   }
   else {
-    _caaa(new KeyValuePair(data, size));
+    // The data only exists for the duration of this call. Deep-copy it.
+    uint8_t* temp = (uint8_t*) malloc((0 < size) ? size : 1);
+    if (nullptr != temp) {
+      memcpy(temp, data, size);
+      KeyValuePair* nu_kvp = new KeyValuePair(temp, size);
+      nu_kvp->reapValue(true);
+      _caaa(nu_kvp);
+    }
   }
 };
 
-- 
2.43.0


From 6c6be48543e82f49f51fc33612720cbf5ad5c327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:50 +0000
Subject: [PATCH 018/213] fix: CBOR values that are not in a map keep their
 value when decoded

A string outside of a map was replaced by a pointer into the stack, and later
freed.
---
 src/C3PValue/KeyValuePair.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/C3PValue/KeyValuePair.cpp b/src/C3PValue/KeyValuePair.cpp
index 36ec371..ff97fc0 100644
--- a/src/C3PValue/KeyValuePair.cpp
+++ b/src/C3PValue/KeyValuePair.cpp
@@ -424,9 +424,6 @@ void CBORArgListener::_caaa(KeyValuePair* nu) {
       _wait = nullptr;
     }
   }
-  else {
-    nu->set(_wait);
-  }
 
   if (0 < _wait_array) _wait_array--;
 
-- 
2.43.0


From 619cae22df3455385ee491c6ed2ac1121a8e4239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:11 +0000
Subject: [PATCH 019/213] fix: messages without a payload are retransmitted
 intact

A message that was never given a payload (HANGUP, WHO) was marked as having
been serialized into its own accumulator, and so each retry sent nothing.
---
 src/M2MLink/M2MMsg.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/M2MLink/M2MMsg.cpp b/src/M2MLink/M2MMsg.cpp
index afce4a6..b1f7fc5 100644
--- a/src/M2MLink/M2MMsg.cpp
+++ b/src/M2MLink/M2MMsg.cpp
@@ -355,7 +355,9 @@ int M2MMsg::serialize(StringBuilder* buf) {
         if (!payload.isEmpty()) {
           buf->concatHandoff(&payload);
         }
-        _class_set_flag(M2MMSG_FLAG_ACCUMULATOR_COMPLETE);
+        if (&_accumulator == buf) {
+          _class_set_flag(M2MMSG_FLAG_ACCUMULATOR_COMPLETE);
+        }
         ret = 0;
       }
     }
-- 
2.43.0


From 30824bf94b7d73e0d9700b4edd8f48b8eadaa398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:11 +0000
Subject: [PATCH 020/213] fix: garbage that arrives during resync does not
 restart the resync

Re-entry discarded the progress made. And if the transport refused the sync
packet, the link neither cast sync, nor ever left the state.
---
 src/M2MLink/M2MLink.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/M2MLink/M2MLink.cpp b/src/M2MLink/M2MLink.cpp
index 4ca853d..64792e6 100644
--- a/src/M2MLink/M2MLink.cpp
+++ b/src/M2MLink/M2MLink.cpp
@@ -1706,8 +1706,8 @@ int8_t M2MLink::_fsm_set_position(M2MLinkState new_state) {
 
 int8_t M2MLink::_fsm_insert_sync_states() {
   int8_t ret = -1;
-  if (_fsm_is_next_pos(M2MLinkState::SYNC_RESYNC)) {
-    ret = 0;   // Already planned.
+  if (_fsm_is_next_pos(M2MLinkState::SYNC_RESYNC) | (M2MLinkState::SYNC_RESYNC == currentState())) {
+    ret = 0;   // Already planned, or under way.
   }
   else if (M2MLinkState::PENDING_HANGUP == currentState()) {
     _inbound_buf.clear();   // The session is ending. There is no point in sync.
-- 
2.43.0


From 943ad909aaf6e5821ec91c3662d0bba41f7ae43b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:32 +0000
Subject: [PATCH 021/213] fix: decoding an empty CBOR byte string no longer
 overruns the stack

---
 src/cbor-cpp/cbor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cbor-cpp/cbor.cpp b/src/cbor-cpp/cbor.cpp
index a44b2d1..4256d59 100644
--- a/src/cbor-cpp/cbor.cpp
+++ b/src/cbor-cpp/cbor.cpp
@@ -739,7 +739,7 @@ void decoder::run() {
       } else break;
     } else if(_state == STATE_BYTES_DATA) {
       if(_in->has_bytes(_currentLength)) {
-        uint8_t data[_currentLength] = {0, };
+        uint8_t data[_currentLength + 1] = {0, };
         _in->get_bytes(data, _currentLength);
         _state = STATE_TYPE;
         _listener->on_bytes(data, _currentLength);
-- 
2.43.0


From ec1595f29d068e29575352501015166b2f692392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:09 +0000
Subject: [PATCH 022/213] fix: a reply to HANGUP is not followed by another
 HANGUP

The initiator hangs up when it sees the reply, and so never answered the
responder's HANGUP. The retries of which would hang up the next session.
---
 src/M2MLink/M2MLink.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/M2MLink/M2MLink.cpp b/src/M2MLink/M2MLink.cpp
index 64792e6..2fc5f7b 100644
--- a/src/M2MLink/M2MLink.cpp
+++ b/src/M2MLink/M2MLink.cpp
@@ -745,7 +745,6 @@ int8_t M2MLink::_churn_inbound() {
         break;
       case M2MMsgCode::HANGUP:
         // The other side wants to hang up. ACK if needed.
-        _flags.set(M2MLINK_FLAG_HANGUP_RXD);
         if (temp->isReply()) {
           // We are seeing a reply to a HANGUP we previously sent. We take this
           //   to mean that our counterparty has finished sending, and has
@@ -755,6 +754,7 @@ int8_t M2MLink::_churn_inbound() {
           if (0 == temp->ack()) {
             if (0 == _send_msg(temp)) {
               gc_message = false;
+              _flags.set(M2MLINK_FLAG_HANGUP_RXD);
               _fsm_append_route(2, M2MLinkState::PENDING_HANGUP, M2MLinkState::HUNGUP);
             }
           }
@@ -1665,7 +1665,11 @@ int8_t M2MLink::_fsm_set_position(M2MLinkState new_state) {
       //   message notifying our counterparty of our desire to hang-up, and are
       //   now waiting on the handshake to complete.
       case M2MLinkState::PENDING_HANGUP:
-        state_entry_success = (0 == _send_hangup_message(true));
+        // If the counterparty asked first, our reply is already in the queue.
+        state_entry_success = _flags.value(M2MLINK_FLAG_HANGUP_RXD);
+        if (!state_entry_success) {
+          state_entry_success = (0 == _send_hangup_message(true));
+        }
         if (!state_entry_success) {
           if (_verbosity >= LOG_LEV_ERROR) c3p_log(LOG_LEV_ERROR, __PRETTY_FUNCTION__, "Link 0x%08x failed to send initial HANGUP.\n", _session_tag);
         }
-- 
2.43.0


From 72583862a067fcfafdf46ada7c425aae5c55a2eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:48 +0000
Subject: [PATCH 023/213] fix: a LOG message that carries something other than
 a string is refused

The value was written over a pointer, whatever its type and size, and then read
as a string.
---
 src/M2MLink/M2MLink.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/M2MLink/M2MLink.cpp b/src/M2MLink/M2MLink.cpp
index 2fc5f7b..fc4784a 100644
--- a/src/M2MLink/M2MLink.cpp
+++ b/src/M2MLink/M2MLink.cpp
@@ -998,7 +998,8 @@ int8_t M2MLink::_handle_msg_log(M2MMsg* msg) {
     KeyValuePair* inbound_kvp = nullptr;
     if ((0 == msg->getPayload(&inbound_kvp)) && (nullptr != inbound_kvp)) {
       char* inbound_log = nullptr;
-      if (0 == inbound_kvp->valueWithKey("b", &inbound_log)) {
+      KeyValuePair* log_val = inbound_kvp->valueWithKey("b");
+      if ((nullptr != log_val) && (TCode::STR == log_val->tcode()) && (0 == log_val->get_as(&inbound_log))) {
         // TODO: Surround with randomly-generated tags to prevent confusion.
         _remote_log.concatf("Link 0x%08x counterparty says:\n%s\n", _session_tag, inbound_log);
       }
-- 
2.43.0


From 816c73d15ea7a3c7e37144ca358e9b5d5a7eb6da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:38 +0000
Subject: [PATCH 024/213] fix: a loss of sync does not postpone a forced hangup

---
 src/M2MLink/M2MLink.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/M2MLink/M2MLink.cpp b/src/M2MLink/M2MLink.cpp
index fc4784a..4191608 100644
--- a/src/M2MLink/M2MLink.cpp
+++ b/src/M2MLink/M2MLink.cpp
@@ -1714,7 +1714,7 @@ int8_t M2MLink::_fsm_insert_sync_states() {
   if (_fsm_is_next_pos(M2MLinkState::SYNC_RESYNC) | (M2MLinkState::SYNC_RESYNC == currentState())) {
     ret = 0;   // Already planned, or under way.
   }
-  else if (M2MLinkState::PENDING_HANGUP == currentState()) {
+  else if ((M2MLinkState::PENDING_HANGUP == currentState()) | _fsm_is_next_pos(M2MLinkState::HUNGUP)) {
     _inbound_buf.clear();   // The session is ending. There is no point in sync.
     ret = 0;
   }
-- 
2.43.0


From a2beb191bd30ed19738252931c0538a8d1d0cba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:37 +0000
Subject: [PATCH 025/213] fix: a schedule is not queued again by a tick that
 arrives during its execution

---
 src/TimerTools/C3PScheduler.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/TimerTools/C3PScheduler.cpp b/src/TimerTools/C3PScheduler.cpp
index 0cbb4a9..733b94a 100644
--- a/src/TimerTools/C3PScheduler.cpp
+++ b/src/TimerTools/C3PScheduler.cpp
@@ -241,7 +241,7 @@ FAST_FUNC void C3PScheduler::serviceSchedules() {
 FAST_FUNC void C3PScheduler::advanceScheduler() {
   for (uint32_t i = 0; i < _active.count(); i++) {
     C3PSchedule* current = _active.peek(i, false);
-    if ((nullptr != current) && current->enabled()) {
+    if ((nullptr != current) && current->enabled() && !current->executingNow()) {
       if ((ULONG_MAX >> 1) > micros_since(current->_exec_at)) {
         if (0 != _exec_queue.insertIfAbsent(current)) {
           // TODO: Anomaly tracking...
-- 
2.43.0


From c8828460fc3d4409b679f147953ee1b45664dddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:37 +0000
Subject: [PATCH 026/213] fix: a schedule that is disabled while queued does
 not execute

---
 src/TimerTools/C3PScheduler.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/TimerTools/C3PScheduler.cpp b/src/TimerTools/C3PScheduler.cpp
index 733b94a..607ed3b 100644
--- a/src/TimerTools/C3PScheduler.cpp
+++ b/src/TimerTools/C3PScheduler.cpp
@@ -226,7 +226,9 @@ FAST_FUNC void C3PScheduler::serviceSchedules() {
     // Service queue will refuse to process until the ISR has been pinged.
     C3PSchedule* current = _exec_queue.get();
     while (nullptr != current) {
-      current->execute();
+      if (current->enabled()) {   // Might have been disabled since it came due.
+        current->execute();
+      }
       current = _exec_queue.get();
     }
     profiler_service.markStop();
-- 
2.43.0


From a61e552ce2ab28a2d223807d9b78038a0c317f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:25 +0000
Subject: [PATCH 027/213] fix: a schedule is timed before the tick can find it

---
 src/TimerTools/C3PScheduler.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/TimerTools/C3PScheduler.cpp b/src/TimerTools/C3PScheduler.cpp
index 607ed3b..0cf7394 100644
--- a/src/TimerTools/C3PScheduler.cpp
+++ b/src/TimerTools/C3PScheduler.cpp
@@ -189,13 +189,10 @@ C3PScheduler::~C3PScheduler() {
 * @return 0 on success, or negative on error.
 */
 int8_t C3PScheduler::addSchedule(C3PSchedule* sch) {
-  int8_t ret = _active.insertIfAbsent(sch);
-  if (0 == ret) {
-    if (sch->enabled()) {
-      sch->delay();  // Will mark enabled,
-    }
+  if (sch->enabled() && !_active.contains(sch)) {
+    sch->delay();  // Must be timed before advanceScheduler() might find it.
   }
-  return ret;
+  return _active.insertIfAbsent(sch);
 }
 
 
-- 
2.43.0


From 5e1b8388809aa4df41411c58221c83b55b09ef75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:41 +0000
Subject: [PATCH 028/213] fix: a stopwatch that was never started measures
 nothing

---
 src/TimerTools/StopWatch.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/TimerTools/StopWatch.cpp b/src/TimerTools/StopWatch.cpp
index 3f8b4af..4adfd09 100644
--- a/src/TimerTools/StopWatch.cpp
+++ b/src/TimerTools/StopWatch.cpp
@@ -34,6 +34,7 @@ StopWatch::StopWatch(uint32_t _t) : _tag(_t) {
 
 
 void StopWatch::reset() {
+  _start_micros     = 0;
   _run_time_last    = 0;
   _run_time_best    = 0xFFFFFFFF;   // Need __something__ to compare against...
   _run_time_worst   = 0;
-- 
2.43.0


From 5e93a9be1afccbe16940d55db221a11969c258e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:49 +0000
Subject: [PATCH 029/213] fix: a timeout that expires while remaining() is
 being computed has nothing remaining

---
 src/TimerTools/TimerTools.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/TimerTools/TimerTools.h b/src/TimerTools/TimerTools.h
index 0469d71..67e74ab 100644
--- a/src/TimerTools/TimerTools.h
+++ b/src/TimerTools/TimerTools.h
@@ -81,7 +81,8 @@ class PeriodicTimeout {
     inline bool enabled() {                return (0 < _period);            };
     inline unsigned long period() {        return _period;                  };
     inline unsigned long remaining() {
-      return (expired() ? 0 : _until(_mark + _period));
+      const unsigned long ELAPSED = _since(_mark);   // Read the clock only once.
+      return ((ELAPSED < _period) ? (_period - ELAPSED) : 0);
     };
     inline bool     expired() {
       return ((0 == _period) || (_period <= _since(_mark)));
-- 
2.43.0


From 88b8e38aa7bf7338ff7226e858b6571a2b371e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:00 +0000
Subject: [PATCH 030/213] fix: a stopwatch started at the wrap of micros() is
 not ignored

---
 src/TimerTools/TimerTools.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/TimerTools/TimerTools.h b/src/TimerTools/TimerTools.h
index 67e74ab..2eb29ae 100644
--- a/src/TimerTools/TimerTools.h
+++ b/src/TimerTools/TimerTools.h
@@ -42,7 +42,10 @@ class StopWatch {
     inline uint32_t meanTime() {     return _run_time_average;   };
     inline uint32_t totalTime() {    return _run_time_total;     };
     inline uint32_t executions() {   return _executions;         };
-    inline void     markStart() {    _start_micros = (uint32_t) micros();   };
+    inline void     markStart() {
+      _start_micros = (uint32_t) micros();
+      if (0 == _start_micros) {  _start_micros--;  }   // Zero means "not started".
+    };
     bool  markStop();
     bool  addRuntime(const unsigned long START_TIME, const unsigned long STOP_TIME);
     void  reset();
-- 
2.43.0


From 6cbc563144b94702e7462bc9a53cce8c3647cc7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:05 +0000
Subject: [PATCH 031/213] fix: a step that is reset by another step is neither
 dispatched nor polled

---
 src/AsyncSequencer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/AsyncSequencer.cpp b/src/AsyncSequencer.cpp
index 9effdfc..c8ff259 100644
--- a/src/AsyncSequencer.cpp
+++ b/src/AsyncSequencer.cpp
@@ -108,7 +108,7 @@ int8_t AsyncSequencer::_dispatch_steps(const uint32_t DISPTCH_MASK) {
   int8_t ret = 0;
   for (uint32_t i = 0; i < _STEP_COUNT; i++) {
     const StepSequenceList* STEP = (_STEP_LIST + i);
-    if (STEP->FLAG == (STEP->FLAG & DISPTCH_MASK)) {
+    if (STEP->FLAG == (STEP->FLAG & DISPTCH_MASK & _steps_runnable.raw)) {   // Might have been reset by a prior step.
       switch (STEP->DISPATCH_FXN()) {
         case 1:   _mark_step_dispatched(STEP->FLAG);   break;  // Dispatch succeeded.
         case 0:   break;      // Not great. Not terrible. Retry on a later pass.
@@ -125,7 +125,7 @@ int8_t AsyncSequencer::_poll_steps(const uint32_t POLL_MASK) {
   int8_t ret = 0;
   for (uint32_t i = 0; i < _STEP_COUNT; i++) {
     const StepSequenceList* STEP = (_STEP_LIST + i);
-    if (STEP->FLAG == (STEP->FLAG & POLL_MASK)) {
+    if (STEP->FLAG == (STEP->FLAG & POLL_MASK & _steps_running.raw)) {   // Might have been reset by a prior step.
       switch (STEP->POLL_FXN()) {
         case 1:   _mark_step_complete(STEP->FLAG, true);    break;  // Step succeeded.
         case 0:   break;      // Not great. Not terrible. Retry on a later pass.
-- 
2.43.0


From d211ea1a8f7aa3c92e2976ac002af8c79f7c0115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:29 +0000
Subject: [PATCH 032/213] fix: insertIfAbsent() reports the position at which
 it inserted

---
 src/PriorityQueue.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/PriorityQueue.h b/src/PriorityQueue.h
index f9004c8..d1e9f18 100644
--- a/src/PriorityQueue.h
+++ b/src/PriorityQueue.h
@@ -220,6 +220,7 @@ template <class T> int PriorityQueue<T>::insertIfAbsent(T d, int nu_pri) {
     else {
       nu->next = insert_pointer->next;
       insert_pointer->next = nu;
+      return_value++;         // We came in behind the insert_pointer.
     }
     element_count++;
   }
-- 
2.43.0


From d146fade78d2ef51d0edb2e75074567c96cab83d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:29 +0000
Subject: [PATCH 033/213] fix: removal by value does not stop at the head of
 the list

---
 src/LightLinkedList.h | 2 +-
 src/PriorityQueue.h   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/LightLinkedList.h b/src/LightLinkedList.h
index b8ba35f..55231c8 100644
--- a/src/LightLinkedList.h
+++ b/src/LightLinkedList.h
@@ -268,7 +268,7 @@ template <class T> bool LinkedList<T>::remove(T test_data) {
       free(current);
       element_count--;
       return_value = true;
-      current = (nullptr == prior) ? nullptr : prior->next;
+      current = (nullptr == prior) ? root : prior->next;
     }
     else {
       prior = current;
diff --git a/src/PriorityQueue.h b/src/PriorityQueue.h
index d1e9f18..fd566c3 100644
--- a/src/PriorityQueue.h
+++ b/src/PriorityQueue.h
@@ -564,7 +564,7 @@ template <class T> bool PriorityQueue<T>::remove(T test_data) {
       free(current);
       element_count--;
       return_value = true;
-      current = (nullptr == prior) ? nullptr : prior->next;
+      current = (nullptr == prior) ? root : prior->next;
     }
     else {
       prior = current;
-- 
2.43.0


From c9e810b9a96193e7944650109ca660ba7f8a9cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:29 +0000
Subject: [PATCH 034/213] fix: an insert into a linked list fails cleanly if
 there is no memory

---
 src/LightLinkedList.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/LightLinkedList.h b/src/LightLinkedList.h
index 55231c8..65e271a 100644
--- a/src/LightLinkedList.h
+++ b/src/LightLinkedList.h
@@ -117,18 +117,18 @@ template <class T> int LinkedList<T>::clear(void) {
 * @return the position in the list that the data was inserted, or -1 on failure.
 */
 template <class T> int LinkedList<T>::insert(T d) {
-  Node<T> *current;
+  Node<T>* current = (Node<T>*) malloc(sizeof(Node<T>));
+  if (nullptr == current) {
+    return -1;
+  }
+  current->next = nullptr;
+  current->data = d;
   if (root == nullptr) {
-    root = (Node<T>*) malloc(sizeof(Node<T>));
-    current = root;
+    root = current;
   }
   else {
-    current = getLast();
-    current->next = (Node<T>*) malloc(sizeof(Node<T>));
-    current = current->next;
+    getLast()->next = current;
   }
-  current->next = nullptr;
-  current->data = d;
   element_count++;
   return 1;
 }
-- 
2.43.0


From add78d86584efd2469058479623a471655c0b885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:39 +0000
Subject: [PATCH 035/213] fix: an element pool allocates when it is first used

---
 src/ElementPool.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ElementPool.h b/src/ElementPool.h
index f268029..6c938b8 100644
--- a/src/ElementPool.h
+++ b/src/ElementPool.h
@@ -193,7 +193,7 @@ template <class T> bool ElementPool<T>::inPool(T* e) {
 * @return a reference to the preallocated element.
 */
 template <class T> T* ElementPool<T>::take() {
-  T* ret = _list.get();
+  T* ret = (allocated() ? _list.get() : nullptr);   // Allocates on first use.
   if (nullptr == ret) {
     ret = new T();
     _overdraws++;
-- 
2.43.0


From 41180faff8d93e9654813fcf4353f3cb56ffe386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:38 +0000
Subject: [PATCH 036/213] fix: an I2C operation that is refused by the queue is
 given back to the pool

---
 src/BusQueue/BusQueue.h     | 14 ++++++++++++++
 src/BusQueue/I2CAdapter.cpp |  5 ++++-
 src/BusQueue/I2CDevice.cpp  | 26 +++++++++++++++++++++++---
 3 files changed, 41 insertions(+), 4 deletions(-)

diff --git a/src/BusQueue/BusQueue.h b/src/BusQueue/BusQueue.h
index ec1e43d..6351b63 100644
--- a/src/BusQueue/BusQueue.h
+++ b/src/BusQueue/BusQueue.h
@@ -369,6 +369,20 @@ template <class T> class BusAdapter : public BusOpCallback, public C3PPollable {
     };
 
 
+    /**
+    * Gives back a BusOp that was taken by new_op(), and was not accepted by
+    *   queue_io_job().
+    *
+    * @param  op  The BusOp that will not be used.
+    */
+    void return_op(T* op) {
+      if (nullptr != op) {
+        op->wipe();
+        preallocated.give(op);
+      }
+    };
+
+
     /*
     * Call periodically to keep the bus moving.
     * Returns the number of operations cleared.
diff --git a/src/BusQueue/I2CAdapter.cpp b/src/BusQueue/I2CAdapter.cpp
index c4fecb5..d3c6c13 100644
--- a/src/BusQueue/I2CAdapter.cpp
+++ b/src/BusQueue/I2CAdapter.cpp
@@ -93,7 +93,10 @@ void I2CAdapter::ping_slave_addr(uint8_t addr) {
     nu->sub_addr = -1;
     nu->setBuffer(nullptr, 0);
     _adapter_set_flag(I2C_ADAPT_FLAG_PINGING);
-    queue_io_job(nu);
+    if (0 != queue_io_job(nu)) {
+      _adapter_clear_flag(I2C_ADAPT_FLAG_PINGING);
+      return_op(nu);
+    }
   }
 }
 
diff --git a/src/BusQueue/I2CDevice.cpp b/src/BusQueue/I2CDevice.cpp
index 1ea6144..9ec4833 100644
--- a/src/BusQueue/I2CDevice.cpp
+++ b/src/BusQueue/I2CDevice.cpp
@@ -98,10 +98,17 @@ bool I2CDevice::writeX(int sub_addr, uint16_t len, uint8_t *buf) {
     return false;
   }
   I2CBusOp* nu = _bus->new_op(BusOpcode::TX, this);
+  if (nu == nullptr) {
+    return false;
+  }
   nu->dev_addr = _dev_addr;
   nu->sub_addr = (int16_t) sub_addr;
   nu->setBuffer(buf, len);
-  return (0 == _bus->queue_io_job(nu));
+  if (0 == _bus->queue_io_job(nu)) {
+    return true;
+  }
+  _bus->return_op(nu);
+  return false;
 }
 
 
@@ -110,10 +117,17 @@ bool I2CDevice::readX(int sub_addr, uint8_t len, uint8_t *buf) {
     return false;
   }
   I2CBusOp* nu = _bus->new_op(BusOpcode::RX, this);
+  if (nu == nullptr) {
+    return false;
+  }
   nu->dev_addr = _dev_addr;
   nu->sub_addr = (int16_t) sub_addr;
   nu->setBuffer(buf, len);
-  return (0 == _bus->queue_io_job(nu));
+  if (0 == _bus->queue_io_job(nu)) {
+    return true;
+  }
+  _bus->return_op(nu);
+  return false;
 }
 
 
@@ -121,12 +135,18 @@ bool I2CDevice::readX(int sub_addr, uint8_t len, uint8_t *buf) {
 * Pings the device.
 */
 bool I2CDevice::ping_device() {
+  if (_bus == nullptr) {
+    return false;
+  }
   I2CBusOp* nu = _bus->new_op(BusOpcode::TX_CMD, this);
   if (nullptr != nu) {
     nu->dev_addr = _dev_addr;
     nu->sub_addr = -1;
     nu->setBuffer(nullptr, 0);
-    return (0 == _bus->queue_io_job(nu));
+    if (0 == _bus->queue_io_job(nu)) {
+      return true;
+    }
+    _bus->return_op(nu);
   }
   return false;
 }
-- 
2.43.0


From 453a9c0ec6394fcde59e0a5e8e4fff9f72d73b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:38 +0000
Subject: [PATCH 037/213] fix: an operation from the pool does not free the
 buffer of its next user

---
 src/BusQueue/BusQueue.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/BusQueue/BusQueue.h b/src/BusQueue/BusQueue.h
index 6351b63..1835817 100644
--- a/src/BusQueue/BusQueue.h
+++ b/src/BusQueue/BusQueue.h
@@ -362,6 +362,7 @@ template <class T> class BusAdapter : public BusOpCallback, public C3PPollable {
       T* ret = preallocated.take();
       if (nullptr != ret) {
         ret->shouldReap(!preallocated.inPool(ret));
+        ret->shouldFreeBuffer(false);   // A prior user's choice, which wipe() preserves.
         ret->set_opcode(_op);
         ret->callback = _req;
       }
-- 
2.43.0


From b310b7d4c38cd4c2229931fd5c7c9da442d4f2f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:48 +0000
Subject: [PATCH 038/213] fix: queue_io_job() does not report a refusal of the
 operation it began

---
 src/BusQueue/I2CAdapter.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/BusQueue/I2CAdapter.cpp b/src/BusQueue/I2CAdapter.cpp
index d3c6c13..5e5a1ad 100644
--- a/src/BusQueue/I2CAdapter.cpp
+++ b/src/BusQueue/I2CAdapter.cpp
@@ -175,6 +175,7 @@ FAST_FUNC int8_t I2CAdapter::queue_io_job(BusOp* op) {
     //   immediately under this condition.
     // Put this work item in the active slot and start the bus operations.
     current_job = nu;
+    ret = 0;
     if (XferFault::NONE != nu->begin()) {
       c3p_log(LOG_LEV_ERROR, __PRETTY_FUNCTION__, "I2C%u:\tFailed to begin transfer while short-circuiting the queue.\n", ADAPTER_NUM);
     }
-- 
2.43.0


From 4b0c88a198130c19110f456ab4abd27b52f79711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:00 +0000
Subject: [PATCH 039/213] fix: an I2C operation does not overtake those already
 queued

---
 src/BusQueue/I2CAdapter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BusQueue/I2CAdapter.cpp b/src/BusQueue/I2CAdapter.cpp
index 5e5a1ad..cdfb149 100644
--- a/src/BusQueue/I2CAdapter.cpp
+++ b/src/BusQueue/I2CAdapter.cpp
@@ -170,7 +170,7 @@ FAST_FUNC int8_t I2CAdapter::queue_io_job(BusOp* op) {
   //nu->setVerbosity(getVerbosity());
   nu->setAdapter(this);
 
-  if ((nullptr == current_job) && _pf_dispatch_on_queue() && busOnline()) {
+  if (busIdle() && _pf_dispatch_on_queue() && busOnline()) {
     // Bus is idle, and the platform has decided that we ought to start I/O
     //   immediately under this condition.
     // Put this work item in the active slot and start the bus operations.
-- 
2.43.0


From 9ee722e3ac10998ad9b1162d77f418a576752f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:13 +0000
Subject: [PATCH 040/213] fix: an I2C operation that is used again does not
 report its last fault

---
 src/BusQueue/I2CAdapter.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/BusQueue/I2CAdapter.cpp b/src/BusQueue/I2CAdapter.cpp
index cdfb149..e4042aa 100644
--- a/src/BusQueue/I2CAdapter.cpp
+++ b/src/BusQueue/I2CAdapter.cpp
@@ -175,6 +175,7 @@ FAST_FUNC int8_t I2CAdapter::queue_io_job(BusOp* op) {
     //   immediately under this condition.
     // Put this work item in the active slot and start the bus operations.
     current_job = nu;
+    nu->markForRequeue();   // Clears whatever fault the last transfer left.
     ret = 0;
     if (XferFault::NONE != nu->begin()) {
       c3p_log(LOG_LEV_ERROR, __PRETTY_FUNCTION__, "I2C%u:\tFailed to begin transfer while short-circuiting the queue.\n", ADAPTER_NUM);
@@ -183,6 +184,7 @@ FAST_FUNC int8_t I2CAdapter::queue_io_job(BusOp* op) {
   else {
     // Queue...
     if (0 <= work_queue.insertIfAbsent(nu, 0)) {
+      op->markForRequeue();   // Clears whatever fault the last transfer left.
       op->set_state(XferState::QUEUED);
       ret = 0;
     }
-- 
2.43.0


From 93b791877e5a069fe4e0a118c6dbe0f25b4c3cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:24 +0000
Subject: [PATCH 041/213] fix: an I2C device does not leave its active
 operation behind

---
 src/BusQueue/I2CDevice.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/BusQueue/I2CDevice.cpp b/src/BusQueue/I2CDevice.cpp
index 9ec4833..1885c7f 100644
--- a/src/BusQueue/I2CDevice.cpp
+++ b/src/BusQueue/I2CDevice.cpp
@@ -39,6 +39,10 @@ I2CDevice::I2CDevice(uint8_t addr) : _dev_addr(addr) {
 I2CDevice::~I2CDevice() {
   if (_bus) {
     _bus->purge_queued_work_by_dev(this);
+    if ((nullptr != _bus->currentJob()) && (this == _bus->currentJob()->callback)) {
+      // The active operation would call back to an object that no longer exists.
+      _bus->purge_current_job();
+    }
   }
 };
 
-- 
2.43.0


From 07522ac3784ad2ae6f4c04036be831a261d89cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:36 +0000
Subject: [PATCH 042/213] fix: a purge by device does not skip adjacent jobs

---
 src/BusQueue/BusQueue.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/BusQueue/BusQueue.h b/src/BusQueue/BusQueue.h
index 1835817..4311176 100644
--- a/src/BusQueue/BusQueue.h
+++ b/src/BusQueue/BusQueue.h
@@ -443,7 +443,8 @@ template <class T> class BusAdapter : public BusOpCallback, public C3PPollable {
     */
     int8_t purge_queued_work_by_dev(BusOpCallback* cb_obj) {
       int8_t ret = 0;
-      for (int i = 0; i < work_queue.size(); i++) {
+      int i = 0;
+      while (i < work_queue.size()) {
         T* current = work_queue.get(i);
         if ((nullptr != current) && (current->callback == cb_obj)) {
           ret++;
@@ -454,6 +455,9 @@ template <class T> class BusAdapter : public BusOpCallback, public C3PPollable {
           }
           _reclaim_queue_item(current);   // Delete the queued work AND its buffer.
         }
+        else {
+          i++;   // Removal moves the next job into this position.
+        }
       }
       return ret;
     };
-- 
2.43.0


From 073202cd096764af044bd525b57a590cdc14ad23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:49 +0000
Subject: [PATCH 043/213] fix: outstanding I2C operations conclude when their
 adapter is torn down

---
 src/BusQueue/I2CAdapter.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/BusQueue/I2CAdapter.cpp b/src/BusQueue/I2CAdapter.cpp
index e4042aa..32cf4b0 100644
--- a/src/BusQueue/I2CAdapter.cpp
+++ b/src/BusQueue/I2CAdapter.cpp
@@ -65,8 +65,11 @@ I2CAdapter::I2CAdapter(const I2CAdapterOptions* o, const uint32_t PA_COUNT, cons
 
 
 I2CAdapter::~I2CAdapter() {
-  // TODO: The work_queue destructor will take care of its own cleanup, but
-  //   we should abort any open transfers prior to deleting this list.
+  // The work_queue destructor will take care of its own cleanup, but not of the
+  //   jobs, nor of the clients that are waiting for them.
+  _bus_online(false);
+  purge_current_job();
+  purge_queued_work();
   _adapter_clear_flag(I2C_ADAPT_FLAG_PING_RUN  | I2C_ADAPT_FLAG_PINGING);
   _bus_deinit();
 }
-- 
2.43.0


From aae13a4063ce348a2fcbfa41770d50e95ef9f809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:00 +0000
Subject: [PATCH 044/213] fix: an I2C operation is not lost if there is no
 memory to recycle it

---
 src/BusQueue/I2CAdapter.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/BusQueue/I2CAdapter.cpp b/src/BusQueue/I2CAdapter.cpp
index 32cf4b0..7c875ab 100644
--- a/src/BusQueue/I2CAdapter.cpp
+++ b/src/BusQueue/I2CAdapter.cpp
@@ -257,16 +257,19 @@ FAST_FUNC int8_t I2CAdapter::_bus_poll() {
           switch (current_job->execCB()) {
             case BUSOP_CALLBACK_RECYCLE:
               current_job->markForRequeue();
-              queue_io_job(current_job);
+              if (0 == queue_io_job(current_job)) {
+                current_job = nullptr;
+              }
+              // If it couldn't be queued, it keeps the active slot.
               break;
             case BUSOP_CALLBACK_ERROR:
             case BUSOP_CALLBACK_NOMINAL:
             default:
               _reclaim_queue_item(current_job);
+              current_job = nullptr;
               break;
           }
           return_value++;
-          current_job = nullptr;
           break;
       }
     }
-- 
2.43.0


From 24cb3df0ee17cf1b31e507fc00c9a7501fe3d50e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:32 +0000
Subject: [PATCH 045/213] fix: the active I2C operation is not queued a second
 time

---
 src/BusQueue/I2CAdapter.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/BusQueue/I2CAdapter.cpp b/src/BusQueue/I2CAdapter.cpp
index 7c875ab..f0e9e94 100644
--- a/src/BusQueue/I2CAdapter.cpp
+++ b/src/BusQueue/I2CAdapter.cpp
@@ -186,7 +186,7 @@ FAST_FUNC int8_t I2CAdapter::queue_io_job(BusOp* op) {
   }
   else {
     // Queue...
-    if (0 <= work_queue.insertIfAbsent(nu, 0)) {
+    if ((nu != current_job) && (0 <= work_queue.insertIfAbsent(nu, 0))) {
       op->markForRequeue();   // Clears whatever fault the last transfer left.
       op->set_state(XferState::QUEUED);
       ret = 0;
@@ -256,11 +256,14 @@ FAST_FUNC int8_t I2CAdapter::_bus_poll() {
           }
           switch (current_job->execCB()) {
             case BUSOP_CALLBACK_RECYCLE:
-              current_job->markForRequeue();
-              if (0 == queue_io_job(current_job)) {
+              {
+                I2CBusOp* recycled_job = current_job;
+                current_job->markForRequeue();
                 current_job = nullptr;
+                if (0 != queue_io_job(recycled_job)) {
+                  current_job = recycled_job;   // Without a place in the queue, it keeps the active slot.
+                }
               }
-              // If it couldn't be queued, it keeps the active slot.
               break;
             case BUSOP_CALLBACK_ERROR:
             case BUSOP_CALLBACK_NOMINAL:
-- 
2.43.0


From f488f10e1305ef2fd4b3eae667424b9445124017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:17 +0000
Subject: [PATCH 046/213] fix: an SPI operation from the pool does not keep the
 frequency of its last use

---
 src/BusQueue/SPIBusOp.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/BusQueue/SPIBusOp.cpp b/src/BusQueue/SPIBusOp.cpp
index 4eefa26..5b56ff1 100644
--- a/src/BusQueue/SPIBusOp.cpp
+++ b/src/BusQueue/SPIBusOp.cpp
@@ -248,6 +248,8 @@ FAST_FUNC int8_t SPIBusOp::_assert_cs(bool asrt) {
 FAST_FUNC void SPIBusOp::wipe() {
   BusOp::_busop_wipe(this);
   // Flags that deal with memory management are untouched.
+  _bus        = nullptr;
+  _max_freq   = 0;
   _cs_pin     = 255;
   _param_len  = 0;
   xfer_params[0] = 0;
-- 
2.43.0


From 925f06840e504cd85ceb851dbb7bae6abfe0d3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:24 +0000
Subject: [PATCH 047/213] fix: an SPI operation that is used again does not
 report its last fault

---
 src/BusQueue/SPIAdapter.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/BusQueue/SPIAdapter.cpp b/src/BusQueue/SPIAdapter.cpp
index 2a6ad4e..f1c2439 100644
--- a/src/BusQueue/SPIAdapter.cpp
+++ b/src/BusQueue/SPIAdapter.cpp
@@ -99,6 +99,7 @@ FAST_FUNC int8_t SPIAdapter::queue_io_job(BusOp* _op, int priority) {
       }
       else {
         ret = 0;
+        op->markForRequeue();   // Clears whatever fault the last transfer left.
         op->set_state(XferState::QUEUED);
       }
     }
-- 
2.43.0


From 37761329792d4e06bb5643f3b9276e5bfef1164d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:35 +0000
Subject: [PATCH 048/213] fix: an SPI operation is not lost if there is no
 memory to queue its callback

---
 src/BusQueue/SPIAdapter.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/BusQueue/SPIAdapter.cpp b/src/BusQueue/SPIAdapter.cpp
index f1c2439..ddb8883 100644
--- a/src/BusQueue/SPIAdapter.cpp
+++ b/src/BusQueue/SPIAdapter.cpp
@@ -160,8 +160,10 @@ FAST_FUNC int8_t SPIAdapter::_bus_poll() {
 
       case XferState::COMPLETE:
       case XferState::FAULT:
-        callback_queue.insert(current_job);
-        current_job = nullptr;
+        // If there is no memory to do this, the job stays where it is until there is.
+        if (0 <= callback_queue.insert(current_job)) {
+          current_job = nullptr;
+        }
         break;
 
       case XferState::IDLE:
@@ -176,8 +178,9 @@ FAST_FUNC int8_t SPIAdapter::_bus_poll() {
             break;
           default:    // Began the transfer, and it barffed... was aborted.
             if (getVerbosity() >= LOG_LEV_ERROR) c3p_log(LOG_LEV_ERROR, __PRETTY_FUNCTION__, "SPI%u:\t Failed to begin transfer after starting. %s\n", ADAPTER_NUM, BusOp::getErrorString(current_job->getFault()));
-            callback_queue.insert(current_job);
-            current_job = nullptr;
+            if (0 <= callback_queue.insert(current_job)) {
+              current_job = nullptr;
+            }
             break;
         }
         break;
-- 
2.43.0


From 73de9d7a4e2d645a5d76ea6a6860adf4592d0710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:47 +0000
Subject: [PATCH 049/213] fix: an SPI operation concludes if there is no memory
 to recycle it

---
 src/BusQueue/SPIAdapter.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/BusQueue/SPIAdapter.cpp b/src/BusQueue/SPIAdapter.cpp
index ddb8883..e98e9e0 100644
--- a/src/BusQueue/SPIAdapter.cpp
+++ b/src/BusQueue/SPIAdapter.cpp
@@ -217,7 +217,12 @@ FAST_FUNC int8_t SPIAdapter::service_callback_queue() {
       switch (cb_code) {
         case BUSOP_CALLBACK_RECYCLE:
           temp_op->markForRequeue();
-          queue_io_job(temp_op);
+          if (-3 == queue_io_job(temp_op)) {
+            // There is no memory to run it again.
+            temp_op->abort(XferFault::QUEUE_FLUSH);
+            temp_op->callback->io_op_callback(temp_op);
+            _reclaim_queue_item(temp_op);
+          }
           break;
 
         case BUSOP_CALLBACK_ERROR:
-- 
2.43.0


From 2e500b84aed3dd4f16a42c16b388a7da9b15ba9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:58 +0000
Subject: [PATCH 050/213] fix: outstanding SPI operations conclude when their
 adapter is torn down

---
 src/BusQueue/SPIAdapter.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/BusQueue/SPIAdapter.cpp b/src/BusQueue/SPIAdapter.cpp
index e98e9e0..035b569 100644
--- a/src/BusQueue/SPIAdapter.cpp
+++ b/src/BusQueue/SPIAdapter.cpp
@@ -26,7 +26,18 @@ SPIAdapter::SPIAdapter(
 * Destructor. Should never be called.
 */
 SPIAdapter::~SPIAdapter() {
+  purge_current_job();
   purge_queued_work();
+  // Those that concluded are still owed a callback.
+  SPIBusOp* op = callback_queue.dequeue();
+  while (nullptr != op) {
+    if (nullptr != op->callback) {
+      op->callback->io_op_callback(op);
+    }
+    _reclaim_queue_item(op);
+    op = callback_queue.dequeue();
+  }
+  purge_queued_work();   // Anything that was queued by those callbacks.
   _bus_deinit();
 }
 
-- 
2.43.0


From dd124586b1597e4d9065fc5bc9e7bf026bea6af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:14 +0000
Subject: [PATCH 051/213] fix: StringBuilder::byteAt() does not read in front
 of the buffer

---
 src/StringBuilder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/StringBuilder.cpp b/src/StringBuilder.cpp
index 86eea3a..9b35507 100644
--- a/src/StringBuilder.cpp
+++ b/src/StringBuilder.cpp
@@ -363,7 +363,7 @@ uint8_t* StringBuilder::string() {
 */
 uint8_t StringBuilder::byteAt(const int OFFSET) {
   uint8_t ret = 0;
-  if (_root) {
+  if ((nullptr != _root) & (0 <= OFFSET)) {
     int offset = OFFSET;
     StrLL* ll_with_byte = _get_ll_containing_offset(_root, &offset);
     if (nullptr != ll_with_byte) {
-- 
2.43.0


From a0e7eeddde60260fdd6279f1302c57a16cb610c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:24 +0000
Subject: [PATCH 052/213] fix: StringBuilder::concatHandoffLimit() leaves the
 source alone if there is no memory to split it

---
 src/StringBuilder.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/StringBuilder.cpp b/src/StringBuilder.cpp
index 9b35507..bcb0b55 100644
--- a/src/StringBuilder.cpp
+++ b/src/StringBuilder.cpp
@@ -734,6 +734,9 @@ void StringBuilder::concatHandoffLimit(StringBuilder* donar, unsigned int len_li
             _stack_str_onto_list(split_left);  // No leading whole fragments to take.
           }
         }
+        else {
+          donar->_root = old_root;   // Failure to allocate. Nothing is moved.
+        }
       }
     }
     else {
-- 
2.43.0


From 87f1e1a09adaca700e76e2d2bea9b3f01827fe16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:25 +0000
Subject: [PATCH 053/213] fix: StringBuilder::concatHandoffLimit() honors a
 limit that ends on the first byte of a fragment

---
 src/StringBuilder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/StringBuilder.cpp b/src/StringBuilder.cpp
index bcb0b55..35b3d11 100644
--- a/src/StringBuilder.cpp
+++ b/src/StringBuilder.cpp
@@ -693,7 +693,7 @@ void StringBuilder::concatHandoffLimit(StringBuilder* donar, unsigned int len_li
     donar->_root = nullptr;          // Inform the donar instance...
     int offset = (len_limit - 1);    // Get the StrLL containing the last byte to be transfered.
     StrLL* ll_with_byte = _get_ll_containing_offset(old_root, &offset);
-    if ((nullptr != ll_with_byte) & (0 < offset)) {
+    if (nullptr != ll_with_byte) {
       // We're going to leave some data with the donor. How much?
       if ((ll_with_byte->len - 1) == offset) {
         // The requested length fit neatly on a fragment boundary.
-- 
2.43.0


From 59277d2de03f38e3933bb598e04434a24c632c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:35 +0000
Subject: [PATCH 054/213] fix: StringBuilder::concatHandoffLimit() keeps the
 remainder of a split fragment terminated

---
 src/StringBuilder.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/StringBuilder.cpp b/src/StringBuilder.cpp
index 35b3d11..ba48f72 100644
--- a/src/StringBuilder.cpp
+++ b/src/StringBuilder.cpp
@@ -716,6 +716,7 @@ void StringBuilder::concatHandoffLimit(StringBuilder* donar, unsigned int len_li
           for (int i = 0; i < LEN_RIGHT; i++) {
             *(ll_with_byte->str + i) = *(ll_with_byte->str + i + LEN_LEFT);
           }
+          *(ll_with_byte->str + LEN_RIGHT) = 0;   // Keep the string terminated.
           ll_with_byte->len = LEN_RIGHT;
           donar->_root = ll_with_byte;    // Inform the donar instance...
 
-- 
2.43.0


From d4588d84f7401314d9cc78e324e173a719b0e24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:36 +0000
Subject: [PATCH 055/213] fix: StringBuilder::concatHandoffLimit() takes the
 first fragment when the second one is split

---
 src/StringBuilder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/StringBuilder.cpp b/src/StringBuilder.cpp
index ba48f72..2e57b21 100644
--- a/src/StringBuilder.cpp
+++ b/src/StringBuilder.cpp
@@ -727,7 +727,7 @@ void StringBuilder::concatHandoffLimit(StringBuilder* donar, unsigned int len_li
           }
           // To the extent that we can simply move memory references around, do
           //   so. All leading StrLL that fits within the limit is taken directly.
-          if (current != old_root) {
+          if (ll_with_byte != old_root) {
             current->next = split_left;       // Snip the list where we left it.
             _stack_str_onto_list(old_root);   // Attach the fragment list before
           }
-- 
2.43.0


From df2ba788059ae93c1f85a40e0b185b281bfb4f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:56 +0000
Subject: [PATCH 056/213] fix: StringBuilder::concatf() does not overrun the
 stack on long arguments

---
 src/StringBuilder.cpp | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/StringBuilder.cpp b/src/StringBuilder.cpp
index 2e57b21..3cce396 100644
--- a/src/StringBuilder.cpp
+++ b/src/StringBuilder.cpp
@@ -949,16 +949,21 @@ int StringBuilder::concatf(const char* format, ...) {
 * @return the byte count written to this StringBuilder, or negative on failure.
 */
 int StringBuilder::concatf(const char* format, va_list args) {
-  int len = strlen(format);
-  unsigned short f_codes = 0;  // Count how many format codes are in use...
-  for (unsigned short i = 0; i < len; i++) {  if (*(format+i) == '%') f_codes++; }
-  // Allocate (hopefully) more space than we will need....
-  const int est_len = len + 512 + (f_codes * 15);   // TODO: Iterate on failure of vsprintf().
-  char temp[est_len];
-  memset(temp, 0, est_len);
-  int ret = 0;
-  ret = vsprintf(temp, format, args);
-  if (ret > 0) concat((char *) temp);
+  // Take a trial run to discover how much space is needed.
+  va_list trial_args;
+  va_copy(trial_args, args);
+  int ret = vsnprintf(nullptr, 0, format, trial_args);
+  va_end(trial_args);
+  if (0 < ret) {
+    StrLL* nu_element = _create_str_ll(ret);   // Always has room for the null-terminator.
+    if (nullptr != nu_element) {
+      vsnprintf((char*) nu_element->str, (ret + 1), format, args);
+      _stack_str_onto_list(nu_element);
+    }
+    else {
+      ret = -1;
+    }
+  }
   return ret;
 }
 
-- 
2.43.0


From 2ec055a7ab546a8df66b5cd6fbf487831b77bec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:57 +0000
Subject: [PATCH 057/213] fix: StringBuilder::concat(double) does not overrun
 the stack on large values

---
 src/StringBuilder.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/StringBuilder.cpp b/src/StringBuilder.cpp
index 3cce396..ba3606d 100644
--- a/src/StringBuilder.cpp
+++ b/src/StringBuilder.cpp
@@ -898,10 +898,7 @@ void StringBuilder::concat(unsigned int nu) {
   concat(temp);
 }
 void StringBuilder::concat(double nu) {
-  char temp[24];
-  memset(temp, 0, sizeof(temp));
-  sprintf(temp, "%f", nu);
-  concat(temp);
+  concatf("%f", nu);
 }
 
 
-- 
2.43.0


From d5f975c5a1c658042aff385f2f296250505b1c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:08 +0000
Subject: [PATCH 058/213] fix: StringBuilder::concatHandoff() does not leak an
 adopted buffer it has no memory to track

---
 src/StringBuilder.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/StringBuilder.cpp b/src/StringBuilder.cpp
index ba3606d..fb14ca8 100644
--- a/src/StringBuilder.cpp
+++ b/src/StringBuilder.cpp
@@ -839,6 +839,9 @@ void StringBuilder::concatHandoff(uint8_t* buf, int len) {
       nu_element->len = len;  //   separate free() on this member.
       _stack_str_onto_list(nu_element);
     }
+    else {
+      free(buf);   // The caller has already given up responsibility for it.
+    }
     #if defined(__BUILD_HAS_PTHREADS)
       //pthread_mutex_unlock(&_mutex);
     #elif defined(__BUILD_HAS_FREERTOS)
-- 
2.43.0


From 5ff9ca1f38608aabed8b3efe6e8f424f33104713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:31 +0000
Subject: [PATCH 059/213] fix: StringBuilder::cull() takes effect if there is
 no memory

---
 src/StringBuilder.cpp | 46 ++++++++++++++++++++++++-------------------
 1 file changed, 26 insertions(+), 20 deletions(-)

diff --git a/src/StringBuilder.cpp b/src/StringBuilder.cpp
index fb14ca8..1730ef2 100644
--- a/src/StringBuilder.cpp
+++ b/src/StringBuilder.cpp
@@ -1030,17 +1030,21 @@ void StringBuilder::cull(int offset, int new_length) {
     clear();                //   the string, do that instead.
   }
   else if (offset >= 0) {                           // If the offset is positive...
-    if (CURRENT_LENGTH >= (offset + new_length)) {  // ...and the range exists...
-      StrLL* culled_str_ll = _create_str_ll(new_length);
-      if (nullptr != culled_str_ll) {
-        // TODO: Prepend the collapsed string into the list, and eat fragments.
-        //   there is no need whatsoever for this fxn to ever call malloc(), let
-        //   alone incure almost triple the memory load (worst-case).
-        _collapse();   // TODO: Room to optimize here...
-        memcpy(culled_str_ll->str, (_root->str + offset), new_length);
-        clear();                 // Throw away all else.
-        _root = culled_str_ll;   // Re-assign root.
+    if ((0 < new_length) && (new_length <= (CURRENT_LENGTH - offset))) {  // ...and the range exists...
+      // Shorten the string to end with the range. This is done in-place, since
+      //   there is no means of telling the caller about a failure to allocate.
+      int last_idx = (offset + new_length - 1);
+      StrLL* last_ll = _get_ll_containing_offset(_root, &last_idx);
+      if ((last_idx + 1) < last_ll->len) {
+        last_ll->len = (last_idx + 1);
+        *(last_ll->str + last_ll->len) = 0;   // Keep the string terminated.
       }
+      if (nullptr != last_ll->next) {
+        _destroy_str_ll(last_ll->next);
+        last_ll->next = nullptr;
+      }
+      cull(offset);   // Throw away anything that came before.
+      _collapse();
     }
   }
   #if defined(__BUILD_HAS_PTHREADS)
@@ -1070,17 +1074,19 @@ void StringBuilder::cull(int x) {
         clear();                    //   the string, do that instead.
       }
       else {                        // The given range exists.
-        const int REMAINING_LENGTH = (CURRENT_LENGTH - x);
-        StrLL* culled_str_ll = _create_str_ll(REMAINING_LENGTH);
-        if (nullptr != culled_str_ll) {
-          // TODO: Prepend the collapsed string into the list, and eat fragments.
-          //   there is no need whatsoever for this fxn to ever call malloc(), let
-          //   alone incure almost triple the memory load (worst-case).
-          _collapse();   // TODO: Room to optimize here...
-          memcpy(culled_str_ll->str, (uint8_t*)(_root->str + x), REMAINING_LENGTH);
-          clear();                 // Throw away all else.
-          _root = culled_str_ll;   // Re-assign root.
+        // This is done in-place, since there is no means of telling the caller
+        //   about a failure to allocate.
+        int remaining_cull = x;
+        while (remaining_cull >= _root->len) {   // Drop whole fragments.
+          remaining_cull -= _root->len;
+          drop_position(0);
+        }
+        if (0 < remaining_cull) {                // Shift the remainder.
+          _root->len -= remaining_cull;
+          memmove(_root->str, (_root->str + remaining_cull), _root->len);
+          *(_root->str + _root->len) = 0;        // Keep the string terminated.
         }
+        _collapse();
       }
     }
     #if defined(__BUILD_HAS_PTHREADS)
-- 
2.43.0


From 884ff2bef0c3608d35389d54e39dafe8f9230d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:15 +0000
Subject: [PATCH 060/213] fix: a Base64Decoder begins life with a known input
 length

---
 src/Pipes/BufferAccepter/Base64/C3P_B64.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Pipes/BufferAccepter/Base64/C3P_B64.h b/src/Pipes/BufferAccepter/Base64/C3P_B64.h
index 9f970a2..c7795a1 100644
--- a/src/Pipes/BufferAccepter/Base64/C3P_B64.h
+++ b/src/Pipes/BufferAccepter/Base64/C3P_B64.h
@@ -103,7 +103,7 @@ class Base64Encoder : public BufferCoDec {
 */
 class Base64Decoder : public BufferCoDec {
   public:
-    Base64Decoder(BufferAccepter* eff = nullptr) : BufferCoDec(eff) {};
+    Base64Decoder(BufferAccepter* eff = nullptr) : BufferCoDec(eff), _input_length(0) {};
     ~Base64Decoder() {};
 
     /* Implementation of BufferAccepter. */
-- 
2.43.0


From 6174aaa8b81fd2182ab8c29db37d5eb99cd25b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:15 +0000
Subject: [PATCH 061/213] fix: StringBuilder::chunk() reports that it had no
 memory to collapse into a single chunk

---
 src/StringBuilder.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/StringBuilder.cpp b/src/StringBuilder.cpp
index 1730ef2..9ac399f 100644
--- a/src/StringBuilder.cpp
+++ b/src/StringBuilder.cpp
@@ -1395,8 +1395,7 @@ int StringBuilder::chunk(const int CSIZE) {
     if (TOTAL_STR_LEN <= CSIZE) {
       // If the requested chunk size holds the whole string in one chunk, we
       //   only need to collapse.
-      _collapse();
-      ret = 1;
+      ret = (0 == _collapse()) ? 1 : -1;
     }
     else {
       // It looks like we'll need to toss the fragments. Create a new instance
-- 
2.43.0


From 87c702a70277d0435f4d7342266904d76b268ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:12 +0000
Subject: [PATCH 062/213] fix: StringBuilder::locate() survives a near-miss in
 a fragmented string

---
 src/StringBuilder.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/StringBuilder.cpp b/src/StringBuilder.cpp
index 9ac399f..71b8f72 100644
--- a/src/StringBuilder.cpp
+++ b/src/StringBuilder.cpp
@@ -1118,13 +1118,13 @@ void StringBuilder::trim() {
 */
 int StringBuilder::locate(const uint8_t* NEEDLE, int NEEDLE_LEN, int start_offset) {
   int ret = -1;
-  if ((nullptr != _root) & (nullptr != NEEDLE) & (NEEDLE_LEN > 0)) {
+  if ((nullptr != _root) & (nullptr != NEEDLE) & (NEEDLE_LEN > 0) & (start_offset >= 0)) {
     int match_length   = 0;
     int search_offset  = start_offset;
     int strll_offset   = start_offset;
     StrLL* src_ll      = _get_ll_containing_offset(_root, &strll_offset);
     StrLL* retrace_ll  = src_ll;
-    int retrace_offset = start_offset;
+    int retrace_offset = strll_offset;   // Is relative to retrace_ll.
     while ((nullptr != src_ll) & (-1 == ret)) {
       if (*(src_ll->str + strll_offset) == *(NEEDLE + match_length++)) {
         if (match_length == NEEDLE_LEN) {
@@ -1134,14 +1134,13 @@ int StringBuilder::locate(const uint8_t* NEEDLE, int NEEDLE_LEN, int start_offse
           // First hit on the needle. Store the current search state just in
           //   case we need to roll back to it after a failure to find a long needle.
           retrace_ll  = src_ll;
-          retrace_offset = search_offset;
+          retrace_offset = strll_offset;
         }
       }
       else {
         if (match_length > 1) {
-          search_offset = retrace_offset;
-          strll_offset  = search_offset;
-          src_ll = _get_ll_containing_offset(retrace_ll, &strll_offset);
+          src_ll        = retrace_ll;
+          strll_offset  = retrace_offset;
         }
         search_offset++;
         match_length  = 0;
-- 
2.43.0


From 64f378946409017ac04baac7ed6c304015fca32a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:30 +0000
Subject: [PATCH 063/213] fix: StringBuilder::replace() notices if there is no
 memory for the replacement

---
 src/StringBuilder.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/StringBuilder.cpp b/src/StringBuilder.cpp
index 71b8f72..21d2bf5 100644
--- a/src/StringBuilder.cpp
+++ b/src/StringBuilder.cpp
@@ -1261,10 +1261,14 @@ int StringBuilder::replace(const char* needle, const char* replace) {
           }
 
           // If there is a replacement string, add it into the working copy.
-          if (0 < REPLACE_LEN) {
+          if ((0 < REPLACE_LEN) & !allocation_failure) {
             // TODO: There are safety and minor speed-gains to be had by not
             //   doing it this way. implode(replace) when finished?
-            working_sb.concat(replace);
+            StrLL* replace_ll = _create_str_ll(REPLACE_LEN, (uint8_t*) replace);
+            allocation_failure = (nullptr == replace_ll);    // Test for failure.
+            if (!allocation_failure) {
+              working_sb._stack_str_onto_list(replace_ll);
+            }
           }
           ret++;   // We made a replacement.
 
-- 
2.43.0


From 3fcb0a1a84d12f550eb81a3af98e244f080af428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:31 +0000
Subject: [PATCH 064/213] fix: StringBuilder::replace() finds a needle that
 begins within a near-miss

---
 src/StringBuilder.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/StringBuilder.cpp b/src/StringBuilder.cpp
index 21d2bf5..a2cf259 100644
--- a/src/StringBuilder.cpp
+++ b/src/StringBuilder.cpp
@@ -1288,10 +1288,13 @@ int StringBuilder::replace(const char* needle, const char* replace) {
         }
       }
       else {                       // Bytes disagree.
-        if (1 < search_hit_idx) {  // If we were into a search, back out of our
-          remaining_search_len++;  //   postfixed iterator actions so the
-          intra_frag_idx--;        //   current byte gets compared against the
-        }                          //   first needle byte.
+        if (1 < search_hit_idx) {
+          // If we were into a search, resume from the byte that follows the
+          //   first one that matched, since it might itself begin a match.
+          remaining_search_len += (search_hit_idx - 1);
+          intra_frag_idx = (HAYSTACK_LEN - remaining_search_len);
+          src_ll = _get_ll_containing_offset(_root, &intra_frag_idx);
+        }
         search_hit_idx = 0;        // Reset the search.
       }
 
-- 
2.43.0


From 5065dc4685300fd4ddd05e4ac567692081500b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:50 +0000
Subject: [PATCH 065/213] fix: StringBuilder::split() does not lose tokens if
 there is no memory

---
 src/StringBuilder.cpp | 35 +++++++++++++++++++++++------------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/src/StringBuilder.cpp b/src/StringBuilder.cpp
index a2cf259..a5eb438 100644
--- a/src/StringBuilder.cpp
+++ b/src/StringBuilder.cpp
@@ -1477,23 +1477,34 @@ int StringBuilder::chunk(const int CSIZE) {
 /**
 * This function tokenizes the sum of this String according to the parameter.
 *
-* @param delims The delimiter list to be fed to strtok()
-* @return The number of tokens.
+* @param delims The delimiter list, with the same meaning as that of strtok()
+* @return The number of tokens, or 0 on failure.
 */
 int StringBuilder::split(const char* delims) {
   int return_value = 0;
   if ((nullptr != _root) && (0 < _root->len)) {
-    _collapse();
-    char* temp_str = strtok((char*) _root->str, delims);
-    if (nullptr != temp_str) {
-      StrLL* old_root = _root;
-      _root = nullptr;
-      while (nullptr != temp_str) {
-        concat(temp_str);
-        return_value++;
-        temp_str = strtok(nullptr, delims);
+    if (0 != _collapse()) {
+      return 0;
+    }
+    // The source is not mutated until all tokens have been allocated.
+    StringBuilder working_sb;
+    const char* temp_str = (const char*) _root->str;
+    temp_str += strspn(temp_str, delims);
+    while (0 != *temp_str) {
+      const int TOKEN_LEN = (int) strcspn(temp_str, delims);
+      StrLL* token_ll = _create_str_ll(TOKEN_LEN, (uint8_t*) temp_str);
+      if (nullptr == token_ll) {
+        return 0;
       }
-      _destroy_str_ll(old_root);    // Free the source memory.
+      working_sb._stack_str_onto_list(token_ll);
+      return_value++;
+      temp_str += TOKEN_LEN;
+      temp_str += strspn(temp_str, delims);
+    }
+    if (0 < return_value) {
+      _destroy_str_ll(_root);      // Free the source memory.
+      _root = working_sb._root;    // Take the tokens from the working copy.
+      working_sb._root = nullptr;
     }
     //else {
     //  concat("");   // Assure at least one token.
-- 
2.43.0


From 18032eb21466463ea3c85cfa2a04975db1ffac3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:01 +0000
Subject: [PATCH 066/213] fix: StringBuilder::implode() joins a string of two
 characters

---
 src/StringBuilder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/StringBuilder.cpp b/src/StringBuilder.cpp
index a5eb438..37427c8 100644
--- a/src/StringBuilder.cpp
+++ b/src/StringBuilder.cpp
@@ -1352,7 +1352,7 @@ int StringBuilder::implode(const char* delim) {
     const int DELIM_LEN     = strlen(delim);
     const int TOKD_STR_LEN  = length();
     const int TOK_COUNT     = count();
-    if ((DELIM_LEN > 0) & (TOKD_STR_LEN > 2) & (TOK_COUNT > 1)) {
+    if ((DELIM_LEN > 0) & (TOKD_STR_LEN >= 2) & (TOK_COUNT > 1)) {
       // In order for this operation to make sense, we need to have at least
       //   two tokens, and a total string length of at least 2 characters.
       const int TOTAL_STR_LEN = ((TOK_COUNT-1) * DELIM_LEN) + TOKD_STR_LEN;
-- 
2.43.0


From 2ecf9de6cc22b6282f5a65ea73fb1baa872bf7ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:10 +0000
Subject: [PATCH 067/213] fix: StringBuilder::position_as_uint64() reads all of
 a large hexadecimal token

---
 src/StringBuilder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/StringBuilder.cpp b/src/StringBuilder.cpp
index 37427c8..53b3ded 100644
--- a/src/StringBuilder.cpp
+++ b/src/StringBuilder.cpp
@@ -494,7 +494,7 @@ uint64_t StringBuilder::position_as_uint64(int pos) {
       len -= 2;
       temp += 2;
       // Only so big an int we can handle...
-      int max_bytes = (len > 16) ? 8 : len;
+      int max_bytes = (len > 16) ? 16 : len;
       for (int i = 0; i < max_bytes; i++) {
         switch (*(temp + i)) {
           case '0':  case '1':  case '2':  case '3':  case '4':
-- 
2.43.0


From 85748db6fa35ad0acb1490853c4e5919dc897912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:11 +0000
Subject: [PATCH 068/213] fix: a UARTAdapter that is given no options does not
 use uninitialized ones

---
 src/BusQueue/UARTAdapter.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BusQueue/UARTAdapter.h b/src/BusQueue/UARTAdapter.h
index 07f5dd4..83d766b 100644
--- a/src/BusQueue/UARTAdapter.h
+++ b/src/BusQueue/UARTAdapter.h
@@ -125,7 +125,7 @@ class UARTAdapter : public BufferAccepter, public C3PPollable {
     const uint8_t   _RTS_PIN;                 // Pin assignment for RTS.
     uint8_t         _extnd_state       = 0;   // Flags for the concrete class to use.
     bool            _flushed           = true;   // Assumed to be set by ISR.
-    UARTOpts        _opts;
+    UARTOpts        _opts              = {};
     uint32_t        bus_timeout_millis = 50;  // How long is a temporal break;
     uint32_t        last_byte_rx_time  = 0;   // Time of last character RX.
     uint32_t        _bitrate_real      = 0;   // The hardware's report of the true bitrate.
-- 
2.43.0


From f4c1fe9ba33497035f63e435f176c6801d146e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:15 +0000
Subject: [PATCH 069/213] fix: UARTAdapter::write() does not report four
 billion bytes taken by a full buffer

---
 src/BusQueue/UARTAdapter.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/BusQueue/UARTAdapter.cpp b/src/BusQueue/UARTAdapter.cpp
index 051a09c..d1c8fa9 100644
--- a/src/BusQueue/UARTAdapter.cpp
+++ b/src/BusQueue/UARTAdapter.cpp
@@ -244,7 +244,8 @@ uint32_t UARTAdapter::write(StringBuilder* buf) {
 uint32_t UARTAdapter::write(uint8_t* buf, uint32_t len) {
   uint32_t ret = 0;
   if (txCapable()) {
-    ret = _tx_buffer.insert(buf, len);
+    const int BYTES_INSERTED = _tx_buffer.insert(buf, len);
+    ret = ((0 < BYTES_INSERTED) ? BYTES_INSERTED : 0);
   }
   return ret;
 }
-- 
2.43.0


From f0bb17b1adc1e5618a5b8fe597f4f9a033a7ec7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:36 +0000
Subject: [PATCH 070/213] fix: bytes received by a UARTAdapter are terminated,
 as StringBuilder content must be

---
 src/BusQueue/UARTAdapter.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/BusQueue/UARTAdapter.cpp b/src/BusQueue/UARTAdapter.cpp
index d1c8fa9..fe7ce61 100644
--- a/src/BusQueue/UARTAdapter.cpp
+++ b/src/BusQueue/UARTAdapter.cpp
@@ -284,9 +284,10 @@ uint32_t UARTAdapter::read(StringBuilder* buf) {
   const uint32_t RX_COUNT = _rx_buffer.count();
   uint32_t ret = 0;
   if (0 < RX_COUNT) {
-    uint8_t* _temp_buf = (uint8_t*) malloc(RX_COUNT);
+    uint8_t* _temp_buf = (uint8_t*) malloc(RX_COUNT + 1);
     if (nullptr != _temp_buf) {
       ret = _rx_buffer.get(_temp_buf, RX_COUNT);
+      *(_temp_buf + ret) = 0;   // StringBuilder content is null-terminated.
       buf->concatHandoff(_temp_buf, ret);
     }
   }
@@ -312,9 +313,10 @@ int UARTAdapter::_handle_rx_push() {
       const uint32_t SAFE_RX_COUNT = strict_min(BUF_AVAILABLE, RX_COUNT);
       if (SAFE_RX_COUNT) {
         StringBuilder  unpushed_rx;
-        uint8_t* temp_buf = (uint8_t*) malloc(SAFE_RX_COUNT);
+        uint8_t* temp_buf = (uint8_t*) malloc(SAFE_RX_COUNT + 1);
         if (nullptr != temp_buf) {
           const uint32_t RX_BYTES_FROM_RB = _rx_buffer.peek(temp_buf, SAFE_RX_COUNT);
+          *(temp_buf + RX_BYTES_FROM_RB) = 0;   // StringBuilder content is null-terminated.
           unpushed_rx.concatHandoff(temp_buf, RX_BYTES_FROM_RB);
           _read_cb_obj->pushBuffer(&unpushed_rx);
           ret = (RX_BYTES_FROM_RB - unpushed_rx.length());
-- 
2.43.0


From 305215af667202b8b6ed1f00f25c1f7f14a95a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:37 +0000
Subject: [PATCH 071/213] fix: a UARTAdapter does not lose received bytes for
 want of memory

---
 src/BusQueue/UARTAdapter.cpp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/BusQueue/UARTAdapter.cpp b/src/BusQueue/UARTAdapter.cpp
index fe7ce61..c5505e3 100644
--- a/src/BusQueue/UARTAdapter.cpp
+++ b/src/BusQueue/UARTAdapter.cpp
@@ -286,9 +286,13 @@ uint32_t UARTAdapter::read(StringBuilder* buf) {
   if (0 < RX_COUNT) {
     uint8_t* _temp_buf = (uint8_t*) malloc(RX_COUNT + 1);
     if (nullptr != _temp_buf) {
-      ret = _rx_buffer.get(_temp_buf, RX_COUNT);
-      *(_temp_buf + ret) = 0;   // StringBuilder content is null-terminated.
-      buf->concatHandoff(_temp_buf, ret);
+      const uint32_t PEEKED_COUNT = _rx_buffer.peek(_temp_buf, RX_COUNT);
+      *(_temp_buf + PEEKED_COUNT) = 0;   // StringBuilder content is null-terminated.
+      const int PRIOR_LENGTH = buf->length();
+      buf->concatHandoff(_temp_buf, PEEKED_COUNT);
+      // If there was no memory to extend the buffer, the bytes stay in the ring.
+      ret = (buf->length() - PRIOR_LENGTH);
+      _rx_buffer.cull(ret);
     }
   }
   return ret;
@@ -318,9 +322,12 @@ int UARTAdapter::_handle_rx_push() {
           const uint32_t RX_BYTES_FROM_RB = _rx_buffer.peek(temp_buf, SAFE_RX_COUNT);
           *(temp_buf + RX_BYTES_FROM_RB) = 0;   // StringBuilder content is null-terminated.
           unpushed_rx.concatHandoff(temp_buf, RX_BYTES_FROM_RB);
-          _read_cb_obj->pushBuffer(&unpushed_rx);
-          ret = (RX_BYTES_FROM_RB - unpushed_rx.length());
-          _rx_buffer.cull(ret);
+          // If there was no memory to form the buffer, the bytes stay in the ring.
+          if (!unpushed_rx.isEmpty()) {
+            _read_cb_obj->pushBuffer(&unpushed_rx);
+            ret = (RX_BYTES_FROM_RB - unpushed_rx.length());
+            _rx_buffer.cull(ret);
+          }
         }
       }
     }
-- 
2.43.0


From 1ee3e5d7ffd129170003b4007f3e7459740fd4dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:29 +0000
Subject: [PATCH 072/213] fix: BufferAccepterFork gives the whole stream to
 each side, once, if one takes less than the other

---
 src/Pipes/BufferAccepter/BufferAccepter.cpp | 35 ++++++++++++++-------
 1 file changed, 24 insertions(+), 11 deletions(-)

diff --git a/src/Pipes/BufferAccepter/BufferAccepter.cpp b/src/Pipes/BufferAccepter/BufferAccepter.cpp
index deff6d9..cfc1186 100644
--- a/src/Pipes/BufferAccepter/BufferAccepter.cpp
+++ b/src/Pipes/BufferAccepter/BufferAccepter.cpp
@@ -66,24 +66,37 @@ int8_t BufferAccepterFork::pushBuffer(StringBuilder* buf) {
     // Note the drift distance for each side of the fork.
     const int32_t LEFT_OFFER_LEN  = (BYTES_TO_TAKE - _left_drift);
     const int32_t RIGHT_OFFER_LEN = (BYTES_TO_TAKE - _right_drift);
-    int32_t left_range_covered  = BYTES_TO_TAKE;
-    int32_t right_range_covered = BYTES_TO_TAKE;
+    // The range that each side covers is counted from the start of the buffer,
+    //   and includes whatever it took on prior calls. A missing side constrains
+    //   nothing.
+    int32_t left_range_covered  = ((nullptr != _left_hand)  ? _left_drift  : BYTES_TO_TAKE);
+    int32_t right_range_covered = ((nullptr != _right_hand) ? _right_drift : BYTES_TO_TAKE);
     if ((nullptr != _left_hand) & (LEFT_OFFER_LEN > 0)) {
-      StringBuilder deep_copy(buf->string() + _left_drift, LEFT_OFFER_LEN);
-      _left_hand->pushBuffer(&deep_copy);
-      left_range_covered -= deep_copy.length();
+      StringBuilder deep_copy;
+      deep_copy.concatLimit(buf, BYTES_TO_TAKE);
+      deep_copy.cull(_left_drift);
+      if (!deep_copy.isEmpty()) {   // Allocation success?
+        _left_hand->pushBuffer(&deep_copy);
+        left_range_covered = (BYTES_TO_TAKE - deep_copy.length());
+      }
     }
     if ((nullptr != _right_hand) & (RIGHT_OFFER_LEN > 0)) {
-      StringBuilder deep_copy(buf->string() + _right_drift, RIGHT_OFFER_LEN);
-      _right_hand->pushBuffer(&deep_copy);
-      right_range_covered -= deep_copy.length();
+      StringBuilder deep_copy;
+      deep_copy.concatLimit(buf, BYTES_TO_TAKE);
+      deep_copy.cull(_right_drift);
+      if (!deep_copy.isEmpty()) {   // Allocation success?
+        _right_hand->pushBuffer(&deep_copy);
+        right_range_covered = (BYTES_TO_TAKE - deep_copy.length());
+      }
     }
     const int32_t TOTAL_TAKEN = strict_min(left_range_covered, right_range_covered);
     buf->cull(TOTAL_TAKEN);
-    _left_drift  = (TOTAL_TAKEN - left_range_covered);
-    _right_drift = (TOTAL_TAKEN - right_range_covered);
+    _left_drift  = ((nullptr != _left_hand)  ? (left_range_covered  - TOTAL_TAKEN) : 0);
+    _right_drift = ((nullptr != _right_hand) ? (right_range_covered - TOTAL_TAKEN) : 0);
 
-    ret = (BYTES_OFFERED == TOTAL_TAKEN) ? 1 : 0;
+    if (0 < TOTAL_TAKEN) {
+      ret = (BYTES_OFFERED == TOTAL_TAKEN) ? 1 : 0;
+    }
   }
   return ret;
 }
-- 
2.43.0


From f26497ba00375bbe5a585afaee07a07875fd9cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:55 +0000
Subject: [PATCH 073/213] fix: StringBuilderSink does not claim to have taken
 bytes that it had no memory for

---
 src/Pipes/BufferAccepter/BufferAccepter.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Pipes/BufferAccepter/BufferAccepter.cpp b/src/Pipes/BufferAccepter/BufferAccepter.cpp
index cfc1186..5e6c628 100644
--- a/src/Pipes/BufferAccepter/BufferAccepter.cpp
+++ b/src/Pipes/BufferAccepter/BufferAccepter.cpp
@@ -40,7 +40,8 @@ int8_t StringBuilderSink::pushBuffer(StringBuilder* buf) {
     }
     else {
       concatHandoffLimit(buf, TAKE_LEN);
-      ret = 0;
+      // If there was no memory to split the buffer, nothing was taken.
+      ret = (buf->length() < PUSH_LEN) ? 0 : -1;
     }
   }
   return ret;
-- 
2.43.0


From d8196525aa471582755f23c0e61b78482e7f7a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:39 +0000
Subject: [PATCH 074/213] fix: Base64 coders do not lose what they are given
 for want of memory

---
 src/Pipes/BufferAccepter/Base64/C3P_B64.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/Pipes/BufferAccepter/Base64/C3P_B64.cpp b/src/Pipes/BufferAccepter/Base64/C3P_B64.cpp
index 9decb13..09a9b05 100644
--- a/src/Pipes/BufferAccepter/Base64/C3P_B64.cpp
+++ b/src/Pipes/BufferAccepter/Base64/C3P_B64.cpp
@@ -138,7 +138,7 @@ int8_t Base64Encoder::pushBuffer(StringBuilder* buf) {
         StringBuilder tmp_src;
         StringBuilder tmp_dest;
         tmp_src.concatHandoffLimit(buf, TAKE_LEN);
-        if (0 == _encode(&tmp_src, &tmp_dest)) {
+        if ((tmp_src.length() == TAKE_LEN) && (0 == _encode(&tmp_src, &tmp_dest))) {
           _efferant->pushBuffer(&tmp_dest);
           ret = (PUSH_LEN == TAKE_LEN) ? 1 : 0;
         }
@@ -173,6 +173,7 @@ int8_t Base64Encoder::_encode(StringBuilder* src, StringBuilder* dest) {
   // I look at your data like the stream of unsigned bytes that it is
   const uint8_t* src_buf = (const uint8_t*) src->string();
   const int32_t  src_len = src->length();
+  if (1 < src->count())  return ret;   // There was no memory to make the source contiguous.
 
   // PAD. Base64 is all about breaking the input into SEXTETS, or 6-bit inputs.
   // If you have 1 byte of input, that's 8 bits, not 6. So it won't fit.
@@ -330,7 +331,7 @@ int8_t Base64Encoder::_encode(StringBuilder* src, StringBuilder* dest) {
     }
     base64String[i] = 0; // NULL TERMINATOR! ;)
     dest->concatHandoff((uint8_t*) base64String, i);
-    ret = 0;  // It is no longer possible to fail.
+    ret = (dest->length() == i) ? 0 : -1;
   }
 
   return ret;
@@ -355,7 +356,7 @@ int8_t Base64Decoder::pushBuffer(StringBuilder* buf) {
         StringBuilder tmp_src;
         StringBuilder tmp_dest;
         tmp_src.concatHandoffLimit(buf, TAKE_LEN);
-        if (0 == _decode(&tmp_src, &tmp_dest)) {
+        if ((tmp_src.length() == TAKE_LEN) && (0 == _decode(&tmp_src, &tmp_dest))) {
           _efferant->pushBuffer(&tmp_dest);
           ret = (PUSH_LEN == TAKE_LEN) ? 1 : 0;
         }
@@ -384,6 +385,7 @@ int8_t Base64Decoder::_decode(StringBuilder* src, StringBuilder* dest) {
   int8_t ret = -1;
   const uint8_t* src_buf = (const uint8_t*) src->string();
   const int32_t  src_len = src->length();
+  if (1 < src->count())  return ret;   // There was no memory to make the source contiguous.
 
   #ifndef CONFIG_NIBBLEANDAHALF_UNSAFE_DECODE
     if (0 != _b64_str_integrity(src_buf, src_len))  return -2;
@@ -405,7 +407,7 @@ int8_t Base64Decoder::_decode(StringBuilder* src, StringBuilder* dest) {
   if (flen < 0) {
     flen = 0;
   }
-  uint8_t* bin = (uint8_t*) malloc(flen);
+  uint8_t* bin = (uint8_t*) malloc(flen + 1);
   if(nullptr == bin) {
     return -3;
   }
@@ -478,8 +480,9 @@ int8_t Base64Decoder::_decode(StringBuilder* src, StringBuilder* dest) {
     }
   }
 
-  ret = 0;
+  *(bin + cb) = 0;   // StringBuilder content is null-terminated.
   dest->concatHandoff(bin, cb);
+  ret = (dest->length() == cb) ? 0 : -3;
   return ret;
 }
 
-- 
2.43.0


From f21c6f6f31c5ae655a979620b4d3bb6f5f1183f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:18 +0000
Subject: [PATCH 075/213] fix: Base64 coders do not take more than the result
 of which there is space for

---
 src/Pipes/BufferAccepter/Base64/C3P_B64.cpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/Pipes/BufferAccepter/Base64/C3P_B64.cpp b/src/Pipes/BufferAccepter/Base64/C3P_B64.cpp
index 09a9b05..16fdfc2 100644
--- a/src/Pipes/BufferAccepter/Base64/C3P_B64.cpp
+++ b/src/Pipes/BufferAccepter/Base64/C3P_B64.cpp
@@ -40,10 +40,6 @@ I have reproduced his original commentary, where it still applies. And may have
 
 #include "C3P_B64.h"
 
-// TODO: These are wrong. Calulate the real values once it works.
-#define BASE64_DECODE_SCALING_FACTOR 0.8
-#define BASE64_ENCODE_SCALING_FACTOR 1.2
-
 
 /*******************************************************************************
 *      _______.___________.    ___   .___________. __    ______     _______.
@@ -133,7 +129,7 @@ int8_t Base64Encoder::pushBuffer(StringBuilder* buf) {
     if ((TAKE_LEN > 0) && (TAKE_LEN <= PUSH_LEN)) {
       // If the pushed length is more than 0, and at least the size we need, make
       //   sure we'll have space for the result.
-      if (TAKE_LEN < AVAILABLE_LEN) {
+      if (TAKE_LEN <= AVAILABLE_LEN) {
         // Take the bytes, and transform them.
         StringBuilder tmp_src;
         StringBuilder tmp_dest;
@@ -155,7 +151,8 @@ int8_t Base64Encoder::pushBuffer(StringBuilder* buf) {
 int32_t Base64Encoder::bufferAvailable() {
   int32_t ret = 0;
   if (nullptr != _efferant) {
-    ret = _efferant->bufferAvailable() * BASE64_ENCODE_SCALING_FACTOR;
+    // Three bytes become four characters.
+    ret = ((_efferant->bufferAvailable() / 4) * 3);
   }
   return ret;
 }
@@ -351,7 +348,7 @@ int8_t Base64Decoder::pushBuffer(StringBuilder* buf) {
     if ((TAKE_LEN > 0) && (TAKE_LEN <= PUSH_LEN)) {
       // If the pushed length is more than 0, and at least the size we need, make
       //   sure we'll have space for the result.
-      if (TAKE_LEN < AVAILABLE_LEN) {
+      if (TAKE_LEN <= AVAILABLE_LEN) {
         // Take the bytes, and transform them.
         StringBuilder tmp_src;
         StringBuilder tmp_dest;
@@ -373,7 +370,8 @@ int8_t Base64Decoder::pushBuffer(StringBuilder* buf) {
 int32_t Base64Decoder::bufferAvailable() {
   int32_t ret = 0;
   if (nullptr != _efferant) {
-    ret = _efferant->bufferAvailable() * BASE64_DECODE_SCALING_FACTOR;
+    // Four characters become (at most) three bytes.
+    ret = ((_efferant->bufferAvailable() / 3) * 4);
   }
   return ret;
 }
-- 
2.43.0


From b2cd13705299c6a64b40295b8bb3b8c4b45b8816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:20 +0000
Subject: [PATCH 076/213] fix: Base64 coders do not lose what the next stage
 rejects

---
 src/Pipes/BufferAccepter/Base64/C3P_B64.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/Pipes/BufferAccepter/Base64/C3P_B64.cpp b/src/Pipes/BufferAccepter/Base64/C3P_B64.cpp
index 16fdfc2..9c2a1e3 100644
--- a/src/Pipes/BufferAccepter/Base64/C3P_B64.cpp
+++ b/src/Pipes/BufferAccepter/Base64/C3P_B64.cpp
@@ -135,8 +135,12 @@ int8_t Base64Encoder::pushBuffer(StringBuilder* buf) {
         StringBuilder tmp_dest;
         tmp_src.concatHandoffLimit(buf, TAKE_LEN);
         if ((tmp_src.length() == TAKE_LEN) && (0 == _encode(&tmp_src, &tmp_dest))) {
-          _efferant->pushBuffer(&tmp_dest);
-          ret = (PUSH_LEN == TAKE_LEN) ? 1 : 0;
+          if (0 <= _efferant->pushBuffer(&tmp_dest)) {
+            ret = (PUSH_LEN == TAKE_LEN) ? 1 : 0;
+          }
+          else {
+            buf->prependHandoff(&tmp_src);   // The result was rejected.
+          }
         }
         else {
           buf->prependHandoff(&tmp_src);
@@ -354,8 +358,12 @@ int8_t Base64Decoder::pushBuffer(StringBuilder* buf) {
         StringBuilder tmp_dest;
         tmp_src.concatHandoffLimit(buf, TAKE_LEN);
         if ((tmp_src.length() == TAKE_LEN) && (0 == _decode(&tmp_src, &tmp_dest))) {
-          _efferant->pushBuffer(&tmp_dest);
-          ret = (PUSH_LEN == TAKE_LEN) ? 1 : 0;
+          if (0 <= _efferant->pushBuffer(&tmp_dest)) {
+            ret = (PUSH_LEN == TAKE_LEN) ? 1 : 0;
+          }
+          else {
+            buf->prependHandoff(&tmp_src);   // The result was rejected.
+          }
         }
         else {
           buf->prependHandoff(&tmp_src);
-- 
2.43.0


From 1983033c2860d122d8b2735aea628877a715bfd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:15 +0000
Subject: [PATCH 077/213] fix: serialize the content of binary values, and not
 the memory around the binder

---
 src/C3PValue/C3PType.cpp | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/C3PValue/C3PType.cpp b/src/C3PValue/C3PType.cpp
index d351aa5..2978ae4 100644
--- a/src/C3PValue/C3PType.cpp
+++ b/src/C3PValue/C3PType.cpp
@@ -2612,6 +2612,29 @@ template <> int8_t      C3PTypeConstraint<C3PBinBinder>::get_as(void* src, const
   return -1;
 }
 
+/*
+* The object is the binder. What is serialized is the buffer to which it refers.
+*/
+template <> int         C3PTypeConstraint<C3PBinBinder>::serialize(void* obj, StringBuilder* out, const TCode FORMAT) {
+  int8_t ret = -1;
+  if (nullptr != obj) {
+    C3PBinBinder* o = (C3PBinBinder*) obj;
+    switch (FORMAT) {
+      case TCode::CBOR:
+        if ((nullptr != o->buf) | (0 == o->len)) {
+          cbor::output_stringbuilder output(out);
+          cbor::encoder encoder(output);
+          encoder.write_bytes(o->buf, o->len);
+          ret = 0;   // TODO: Safe SB API.
+        }
+        break;
+
+      default:  break;
+    }
+  }
+  return ret;
+}
+
 
 
 ////////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From bf02c38c61197d3fd64b7c1431dfedf082909a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:15 +0000
Subject: [PATCH 078/213] fix: C3PTypePipeSink tells its caller when it took
 nothing

---
 src/Pipes/BufferAccepter/C3PTypePipe/C3PTypePipe.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/Pipes/BufferAccepter/C3PTypePipe/C3PTypePipe.cpp b/src/Pipes/BufferAccepter/C3PTypePipe/C3PTypePipe.cpp
index ffcefcd..c44d759 100644
--- a/src/Pipes/BufferAccepter/C3PTypePipe/C3PTypePipe.cpp
+++ b/src/Pipes/BufferAccepter/C3PTypePipe/C3PTypePipe.cpp
@@ -142,9 +142,16 @@ int8_t C3PTypePipeSink::pushBuffer(StringBuilder* incoming) {
         incoming->prependHandoff(&tmp_stbldr);
       }
     } while (nullptr != val_to_emit);
-    return (incoming->isEmpty(true) ? 1: 0);
+    const uint32_t REMAINING_LEN = incoming->length();
+    _byte_count += (INCOMING_LEN - REMAINING_LEN);
+    if (0 == REMAINING_LEN) {
+      ret = 1;
+    }
+    else if (REMAINING_LEN < INCOMING_LEN) {
+      ret = 0;
+    }
   }
-  return -1;
+  return ret;
 }
 
 
-- 
2.43.0


From f9094ffe87905bebf57e354db075e8cd191ca1ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:26 +0000
Subject: [PATCH 079/213] fix: binary values in maps are decoded without
 writing past their container, or losing their buffer

---
 src/C3PValue/C3PValue.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/C3PValue/C3PValue.cpp b/src/C3PValue/C3PValue.cpp
index 5eaeb8c..85c1620 100644
--- a/src/C3PValue/C3PValue.cpp
+++ b/src/C3PValue/C3PValue.cpp
@@ -338,6 +338,11 @@ void* C3PValue::_type_pun_set() {
     //   into a separate allocation. Return that pointer.
     return _target_mem;
   }
+  else if (is_ptr_len()) {
+    // The shim that holds a pointer and a length is what will be written, and it
+    //   is larger than _target_mem.
+    return _target_mem;
+  }
   else {
     return &_target_mem;
   }
@@ -1076,6 +1081,9 @@ C3PValue* C3PValueDecoder::_handle_map(uint32_t* offset, uint32_t count) {
                       // We might have just taken something with its own
                       //   life-cycle from the parser. We don't want it to be
                       //   free'd when its container is reaped.
+                      if (value->reapValue()) {
+                        tmp_kvp->reapValue(true);
+                      }
                       value->reapValue(false);
                       // There may have been other values attached. Take them as well.
                       C3PValue* tagalong = value->nextValue();
-- 
2.43.0


From 467b574b601606e09d9aa130bdae7215caaba2d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:26 +0000
Subject: [PATCH 080/213] fix: C3PValueDecoder does not wait for ever on an
 empty string or blob

---
 src/C3PValue/C3PValue.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/C3PValue/C3PValue.cpp b/src/C3PValue/C3PValue.cpp
index 85c1620..1dfc307 100644
--- a/src/C3PValue/C3PValue.cpp
+++ b/src/C3PValue/C3PValue.cpp
@@ -851,7 +851,8 @@ C3PValue* C3PValueDecoder::_next(uint32_t* offset) {
 
     // For types that observe _length_extra, they will generally also want to
     //   know if there are enough bytes to satisfy the parse.
-    const bool HAVE_EXTRA_LEN = ((_length_extra > 0) & (INPUT_LEN >= (local_offset + _length_extra32)));
+    // NOTE: Zero is a valid length for such a type.
+    const bool HAVE_EXTRA_LEN = ((uint64_t) (INPUT_LEN - local_offset) >= _length_extra);
 
     // Second pass. Form a return object, if possible.
     switch (MAJORTYPE) {
@@ -901,9 +902,9 @@ C3PValue* C3PValueDecoder::_next(uint32_t* offset) {
 
       case 2:  // Raw bytes
         if (HAVE_EXTRA_LEN) {
-          uint8_t* new_buf = (uint8_t*) malloc(_length_extra32);
+          uint8_t* new_buf = (uint8_t*) malloc((0 < _length_extra32) ? _length_extra32 : 1);
           if (nullptr != new_buf) {
-            if ((int32_t) _length_extra32 == _in->copyToBuffer(new_buf, _length_extra32, local_offset)) {
+            if ((0 == _length_extra32) || ((int32_t) _length_extra32 == _in->copyToBuffer(new_buf, _length_extra32, local_offset))) {
               value = new C3PValue(new_buf, _length_extra32);
               if (nullptr != value) {
                 value->reapValue(true);
@@ -922,7 +923,7 @@ C3PValue* C3PValueDecoder::_next(uint32_t* offset) {
           // If there are enough bytes to satisfy the parse...
           uint8_t new_buf[_length_extra32+1];
           *(new_buf + _length_extra32) = '\0';
-          if ((int32_t) _length_extra32 == _in->copyToBuffer(new_buf, _length_extra32, local_offset)) {
+          if ((0 == _length_extra32) || ((int32_t) _length_extra32 == _in->copyToBuffer(new_buf, _length_extra32, local_offset))) {
             value = new C3PValue((char*) new_buf);
             if (nullptr != value) {
               local_offset += _length_extra32;
-- 
2.43.0


From a8d2d965b2c317e0d6cd6dc5b42aeac110faa29f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:26 +0000
Subject: [PATCH 081/213] fix: C3PValueDecoder does not read past its input, or
 believe lengths that are larger than it

---
 src/C3PValue/C3PValue.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/C3PValue/C3PValue.cpp b/src/C3PValue/C3PValue.cpp
index 1dfc307..c7b2a82 100644
--- a/src/C3PValue/C3PValue.cpp
+++ b/src/C3PValue/C3PValue.cpp
@@ -822,7 +822,7 @@ C3PValue* C3PValueDecoder::_next(uint32_t* offset) {
   uint32_t local_offset  = *offset;
   bool consume_without_value = false;
 
-  if (INPUT_LEN > 0) {
+  if (INPUT_LEN > local_offset) {
     uint64_t _length_extra  = 0;   // Length of data specified by the length field above.
     const uint8_t C_TYPE    = _in->byteAt(local_offset++);   // The first byte
     const uint8_t MAJORTYPE = (uint8_t) (C_TYPE >> 5);
@@ -1048,7 +1048,7 @@ C3PValue* C3PValueDecoder::_handle_map(uint32_t* offset, uint32_t count) {
       uint64_t len_key64 = 0;
       if (_get_length_field(&local_offset, &len_key64, MINOR)) {
         len_key = (uint32_t) len_key64;
-        if (INPUT_LEN >= (local_offset + len_key + 1)) {  // +1 for the value byte.
+        if ((INPUT_LEN > local_offset) && (len_key64 < (INPUT_LEN - local_offset))) {  // Strictly less, for the value byte.
           uint8_t buf_key[len_key+1];
           *(buf_key + len_key) = '\0';
           if ((int32_t) len_key == _in->copyToBuffer(buf_key, len_key, local_offset)) {
-- 
2.43.0


From d5d953e7d4540c07ee4859952341f3a1bbb507d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:16 +0000
Subject: [PATCH 082/213] fix: C3PValueDecoder does not inflate tagged values
 from buffers of the wrong length

---
 src/C3PValue/C3PValue.cpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/C3PValue/C3PValue.cpp b/src/C3PValue/C3PValue.cpp
index c7b2a82..fc8d7af 100644
--- a/src/C3PValue/C3PValue.cpp
+++ b/src/C3PValue/C3PValue.cpp
@@ -1184,10 +1184,19 @@ C3PValue* C3PValueDecoder::_handle_tag(uint32_t* offset, C3PType* t_helper) {
         //tmp_sb.concatf("Decoded %s (Nested tag 0x%02x):", t_helper->NAME, CTYPE);
         //inner_tagged_val->printDebug(&tmp_sb);
         //c3p_log(LOG_LEV_DEBUG, LOCAL_LOG_TAG, &tmp_sb);
-        ret = new C3PValue(t_helper->TCODE, nullptr, MEM_FLGS);
-        if (nullptr != ret) {
-          // TODO: Hopefully C3PValue knows what to do with this?
-          ret->set(inner_tagged_val);
+        // The content will be copied out of the inner value by length, so that
+        //   had better be the length that the type implies.
+        uint8_t* inner_buf = nullptr;
+        uint32_t inner_len = 0;
+        if (t_helper->value_by_copy() && (TCode::BINARY == inner_tagged_val->tcode()) && (0 == inner_tagged_val->get_as(&inner_buf, &inner_len)) && (inner_len == t_helper->FIXED_LEN)) {
+          ret = new C3PValue(t_helper->TCODE, nullptr, MEM_FLGS);
+          if (nullptr != ret) {
+            // TODO: Hopefully C3PValue knows what to do with this?
+            if (ret->memError() || (0 != ret->set(inner_tagged_val))) {
+              delete ret;
+              ret = nullptr;
+            }
+          }
         }
         delete inner_tagged_val;
       }
-- 
2.43.0


From b7fa254b79367885b78818e222f3eb1834d40430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:59 +0000
Subject: [PATCH 083/213] fix: C3PValueDecoder leaves in the input what it had
 no memory to hold

---
 src/C3PValue/C3PValue.cpp | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/C3PValue/C3PValue.cpp b/src/C3PValue/C3PValue.cpp
index fc8d7af..9f4acd2 100644
--- a/src/C3PValue/C3PValue.cpp
+++ b/src/C3PValue/C3PValue.cpp
@@ -906,6 +906,10 @@ C3PValue* C3PValueDecoder::_next(uint32_t* offset) {
           if (nullptr != new_buf) {
             if ((0 == _length_extra32) || ((int32_t) _length_extra32 == _in->copyToBuffer(new_buf, _length_extra32, local_offset))) {
               value = new C3PValue(new_buf, _length_extra32);
+              if ((nullptr != value) && value->memError()) {
+                delete value;      // Without its shim, it doesn't know of the
+                value = nullptr;   //   buffer, and so can't free it.
+              }
               if (nullptr != value) {
                 value->reapValue(true);
                 local_offset += _length_extra32;
@@ -983,6 +987,12 @@ C3PValue* C3PValueDecoder::_next(uint32_t* offset) {
     }
   }
 
+  if ((nullptr != value) && value->memError() && (TCode::NONE != value->tcode())) {
+    // There wasn't enough memory to hold the value. Leave it in the input.
+    delete value;
+    value = nullptr;
+  }
+
   if (consume_without_value | (nullptr != value)) {
     *offset = local_offset;
   }
@@ -1060,6 +1070,7 @@ C3PValue* C3PValueDecoder::_handle_map(uint32_t* offset, uint32_t count) {
               // If it came back non-null, then it means the buffer was consumed
               //   up-to the point where the object became fully-defined.
               KeyValuePair* tmp_kvp = nullptr;
+              bool set_failed = false;
               if (!value->memError()) {
                 // TODO: Implement isCompound() instead of this mess.
                 if (value->has_key()) {
@@ -1077,7 +1088,8 @@ C3PValue* C3PValueDecoder::_handle_map(uint32_t* offset, uint32_t count) {
                     (C3PVAL_MEM_FLAG_REAP_VALUE | C3PVAL_MEM_FLAG_REAP_KEY | C3PVAL_MEM_FLAG_REAP_CNTNR)
                   );
                   if (tmp_kvp) {
-                    const int8_t SET_RET = tmp_kvp->set(value);
+                    const int8_t SET_RET = (tmp_kvp->memError() ? -1 : tmp_kvp->set(value));
+                    set_failed = (0 != SET_RET);
                     if (0 == SET_RET) {
                       // We might have just taken something with its own
                       //   life-cycle from the parser. We don't want it to be
@@ -1097,6 +1109,12 @@ C3PValue* C3PValueDecoder::_handle_map(uint32_t* offset, uint32_t count) {
                 }
               }
 
+              if ((nullptr != tmp_kvp) && (set_failed || tmp_kvp->memError())) {
+                // Without memory for all of it, we'd have a different value.
+                delete tmp_kvp;
+                tmp_kvp = nullptr;
+              }
+
               if (nullptr != tmp_kvp) {
                 if (nullptr == ret) {
                   ret = tmp_kvp;
-- 
2.43.0


From 8b21022022b0ab2afe72c7ec969f2c960a25c305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:36 +0000
Subject: [PATCH 084/213] fix: StringBuilder values are serialized and printed
 from the object to which they refer

---
 src/C3PValue/C3PType.cpp | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/src/C3PValue/C3PType.cpp b/src/C3PValue/C3PType.cpp
index 2978ae4..a5a2279 100644
--- a/src/C3PValue/C3PType.cpp
+++ b/src/C3PValue/C3PType.cpp
@@ -2476,11 +2476,7 @@ template <> uint32_t    C3PTypeConstraint<StringBuilder*>::length(void* obj) {
 
 template <> void        C3PTypeConstraint<StringBuilder*>::to_string(void* obj, StringBuilder* out) {
   if (nullptr != obj) {
-    StringBuilder* o = nullptr;
-    memcpy((void*) &o, obj, sizeof(StringBuilder*));
-    if (nullptr != o) {
-      out->concat(o);
-    }
+    out->concat((StringBuilder*) obj);
   }
 }
 
@@ -2541,12 +2537,13 @@ template <> int         C3PTypeConstraint<StringBuilder*>::serialize(void* obj,
 
     case TCode::CBOR:
       {
-        cbor::output_stringbuilder output(out);
-        cbor::encoder encoder(output);
-        StringBuilder* o = nullptr;
-        memcpy((void*) &o, obj, sizeof(StringBuilder*));
-        encoder.write_string((char*) o->string());
-        ret = 0;   // TODO: Safe SB API.
+        StringBuilder* o = (StringBuilder*) obj;
+        if (nullptr != o) {
+          cbor::output_stringbuilder output(out);
+          cbor::encoder encoder(output);
+          encoder.write_string((char*) o->string(), (uint32_t) o->length());
+          ret = 0;   // TODO: Safe SB API.
+        }
       }
       break;
 
-- 
2.43.0


From b39586d69d2eb5fbd387700bb116d442812bab1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:35 +0000
Subject: [PATCH 085/213] fix: C3PValue::set(char*) stores the string, not the
 address of its argument

The helper for STR takes the string itself as the source. These two inlines
gave it the address of their own parameter, so the container was left holding
a pointer into a stack frame that was already gone.
---
 src/C3PValue/C3PValue.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/C3PValue/C3PValue.h b/src/C3PValue/C3PValue.h
index c3ab4f1..9453fed 100644
--- a/src/C3PValue/C3PValue.h
+++ b/src/C3PValue/C3PValue.h
@@ -181,8 +181,8 @@ class C3PValue {
     inline int8_t set(bool x) {          return set_from(TCode::BOOLEAN,      (void*) &x);  };
     inline int8_t set(float x) {         return set_from(TCode::FLOAT,        (void*) &x);  };
     inline int8_t set(double x) {        return set_from(TCode::DOUBLE,       (void*) &x);  };
-    inline int8_t set(const char* x) {   return set_from(TCode::STR,          (void*) &x);  };
-    inline int8_t set(char* x) {         return set_from(TCode::STR,          (void*) &x);  };
+    inline int8_t set(const char* x) {   return set_from(TCode::STR,          (void*) x);   };
+    inline int8_t set(char* x) {         return set_from(TCode::STR,          (void*) x);   };
     inline int8_t set(Vector3u32* x) {   return set_from(TCode::VECT_3_UINT32, (void*) x);  };
     inline int8_t set(Vector3u16* x) {   return set_from(TCode::VECT_3_UINT16, (void*) x);  };
     inline int8_t set(Vector3u8*  x) {   return set_from(TCode::VECT_3_UINT8,  (void*) x);  };
-- 
2.43.0


From 481c13ad72339e40df8a6428bc6dea4ebeee0b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:35 +0000
Subject: [PATCH 086/213] fix: Setting a StringBuilder container stores the
 pointer

set_from() is given the StringBuilder, and copied the first bytes of that
object over the container's own pointer, rather than taking its address.
---
 src/C3PValue/C3PType.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/C3PValue/C3PType.cpp b/src/C3PValue/C3PType.cpp
index a5a2279..7efef92 100644
--- a/src/C3PValue/C3PType.cpp
+++ b/src/C3PValue/C3PType.cpp
@@ -2488,7 +2488,7 @@ template <> int8_t      C3PTypeConstraint<StringBuilder*>::set_from(void* dest,
       //case TCode::STR:     d = *((char**) src);    return 0;
       case TCode::STR_BUILDER:
         if (nullptr != dest) {
-          memcpy(dest, src, sizeof(StringBuilder*));
+          *((StringBuilder**) dest) = (StringBuilder*) src;
           ret = 0;
         }
         break;
-- 
2.43.0


From 280d53145dc0f48b1fdd488f4798a1c9cd0a0694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:49 +0000
Subject: [PATCH 087/213] fix: C3PValue::drop() honours its destruct argument
 along the whole chain

The argument was not passed on, so only the first of the chain was ever
destroyed when that was asked for. Any other was leaked.
---
 src/C3PValue/C3PValue.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/C3PValue/C3PValue.cpp b/src/C3PValue/C3PValue.cpp
index 9f4acd2..95e7b9d 100644
--- a/src/C3PValue/C3PValue.cpp
+++ b/src/C3PValue/C3PValue.cpp
@@ -614,7 +614,7 @@ int8_t C3PValue::drop(C3PValue** prior, C3PValue* drop, bool destruct) {
     }
     return 0;
   }
-  return (_next) ? _next->drop(&_next, drop) : -1;
+  return (_next) ? _next->drop(&_next, drop, destruct) : -1;
 }
 
 
-- 
2.43.0


From bf42ac65eae4f96d78c98dd6d0564565794f5dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:33 +0000
Subject: [PATCH 088/213] fix: Pointer-length access is refused by containers
 of other types

C3PValue::set(uint8_t*, uint32_t) and get_as(uint8_t**, uint32_t*) took
whatever the container held for a C3PBinBinder. For a string, or a number,
that wrote through memory which is nothing of the kind.
---
 src/C3PValue/C3PValue.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/C3PValue/C3PValue.cpp b/src/C3PValue/C3PValue.cpp
index 95e7b9d..0db0d49 100644
--- a/src/C3PValue/C3PValue.cpp
+++ b/src/C3PValue/C3PValue.cpp
@@ -387,7 +387,7 @@ int8_t C3PValue::get_as(uint8_t** v, uint32_t* l) {
   int8_t ret = -1;
   if ((nullptr != v) & (nullptr != l)) {
     ret--;
-    if (nullptr != _target_mem) {
+    if ((nullptr != _target_mem) && is_ptr_len()) {
       *v = ((C3PBinBinder*) _target_mem)->buf;
       *l = ((C3PBinBinder*) _target_mem)->len;
       ret = 0;
@@ -399,7 +399,7 @@ int8_t C3PValue::get_as(uint8_t** v, uint32_t* l) {
 // TODO: Audit. Might be wrong-headed.
 int8_t C3PValue::set(uint8_t* src, uint32_t l, const TCode SRC_TYPE) {
   int8_t ret = -1;
-  if (nullptr != _target_mem) {
+  if ((nullptr != _target_mem) && is_ptr_len()) {
     ((C3PBinBinder*) _target_mem)->buf = src;
     ((C3PBinBinder*) _target_mem)->len = l;
     _set_trace++;
-- 
2.43.0


From 736df388720f05036dd97fcb8e5c2d42a83eea7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:45 +0000
Subject: [PATCH 089/213] fix: Containers that could not allocate storage
 refuse access to it

A C3PValue for a type that doesn't fit into a pointer notes an allocation
failure (memError()), but reading, writing, printing, and serializing it all
followed the null pointer to where its storage should have been.
---
 src/C3PValue/C3PValue.cpp     | 12 +++++++-----
 src/C3PValue/C3PValue.h       |  3 +++
 src/C3PValue/KeyValuePair.cpp |  2 +-
 3 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/C3PValue/C3PValue.cpp b/src/C3PValue/C3PValue.cpp
index 0db0d49..84cf247 100644
--- a/src/C3PValue/C3PValue.cpp
+++ b/src/C3PValue/C3PValue.cpp
@@ -358,7 +358,7 @@ void* C3PValue::_type_pun_set() {
 int8_t C3PValue::set_from(const TCode SRC_TYPE, void* src) {
   int8_t ret = -1;
   C3PType* t_helper = getTypeHelper(_TCODE);
-  if (nullptr != t_helper) {
+  if ((nullptr != t_helper) && _has_storage()) {
     ret = t_helper->set_from(_type_pun_set(), SRC_TYPE, src);
   }
   if (0 == ret) {
@@ -369,13 +369,13 @@ int8_t C3PValue::set_from(const TCode SRC_TYPE, void* src) {
 
 
 int8_t C3PValue::set(C3PValue* src) {
-  return ((nullptr == src) ? -2 : set_from(src->tcode(), src->_type_pun_get()));
+  return (((nullptr == src) || !src->_has_storage()) ? -2 : set_from(src->tcode(), src->_type_pun_get()));
 }
 
 int8_t C3PValue::get_as(const TCode DEST_TYPE, void* dest) {
   int8_t ret = -1;
   C3PType* t_helper = getTypeHelper(_TCODE);
-  if (nullptr != t_helper) {
+  if ((nullptr != t_helper) && _has_storage()) {
     ret = t_helper->get_as(_type_pun_get(), DEST_TYPE, dest);
   }
   return ret;
@@ -667,7 +667,7 @@ int8_t C3PValue::serialize(StringBuilder* output, const TCode FORMAT) {
   }
   else {
     C3PType* t_helper = getTypeHelper(_TCODE);
-    if (nullptr != t_helper) {
+    if ((nullptr != t_helper) && _has_storage()) {
       ret = t_helper->serialize(_type_pun_get(), output, FORMAT);
     }
   }
@@ -713,7 +713,9 @@ void C3PValue::toString(StringBuilder* out, bool include_type) {
   }
   C3PType* t_helper = getTypeHelper(_TCODE);
   if (nullptr != t_helper) {
-    t_helper->to_string(_type_pun_get(), out);
+    if (_has_storage()) {
+      t_helper->to_string(_type_pun_get(), out);
+    }
     //out->concatf("%08x", _type_pun_get());
   }
   else {
diff --git a/src/C3PValue/C3PValue.h b/src/C3PValue/C3PValue.h
index 9453fed..fa1bf52 100644
--- a/src/C3PValue/C3PValue.h
+++ b/src/C3PValue/C3PValue.h
@@ -321,6 +321,9 @@ class C3PValue {
     void* _type_pun_get();
     void* _type_pun_set();
 
+    /* False for values that were indirected to memory that couldn't be allocated. */
+    inline bool _has_storage() {    return (nullptr != _type_pun_set());               };
+
     /* Inlines for altering and reading the flags. */
     inline void _set_mem_fault() {  _set_flags(true, C3PVAL_MEM_FLAG_ERR_MEM);         };
     inline bool _is_val_by_ref() {  return _chk_flags(C3PVAL_MEM_FLAG_VALUE_BY_REF);   };
diff --git a/src/C3PValue/KeyValuePair.cpp b/src/C3PValue/KeyValuePair.cpp
index ff97fc0..5523e30 100644
--- a/src/C3PValue/KeyValuePair.cpp
+++ b/src/C3PValue/KeyValuePair.cpp
@@ -267,7 +267,7 @@ int8_t KeyValuePair::serialize(StringBuilder* out, const TCode FORMAT) {
         cbor::encoder local_encoder(output);
         while (nullptr != src) {
           C3PType* t_helper = getTypeHelper(src->tcode());
-          if (nullptr != t_helper) {
+          if ((nullptr != t_helper) && src->_has_storage()) {
             char* tmp_key = src->getKey();
             if ((nullptr != tmp_key) && (strlen(tmp_key) > 0)) {
               local_encoder.write_string(tmp_key);
-- 
2.43.0


From a38d620c478af8d3f5488d1987bf72a16b6d550c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:24 +0000
Subject: [PATCH 090/213] fix: get_as_bool() compares the value, rather than
 where it is kept

A number that does not fit into a pointer is kept in memory of its own, and
get_as_bool() was true for all of them. FLOAT and DOUBLE claimed to be
representable as BOOLEAN, but did not implement the conversion.
---
 src/C3PValue/C3PType.cpp  |  2 ++
 src/C3PValue/C3PValue.cpp | 11 +++++++++--
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/C3PValue/C3PType.cpp b/src/C3PValue/C3PType.cpp
index 7efef92..e8aef2b 100644
--- a/src/C3PValue/C3PType.cpp
+++ b/src/C3PValue/C3PType.cpp
@@ -1699,6 +1699,7 @@ template <> int8_t      C3PTypeConstraint<float>::get_as(void* src, const TCode
         memcpy(dest, (void*) &s_d, sizeOfType(TCode::DOUBLE));
       }
       return 0;
+    case TCode::BOOLEAN:    *((bool*) dest) = (0 != _load_from_mem(src));  return 0;
     default:  break;
   }
   return -1;
@@ -1789,6 +1790,7 @@ template <> int8_t      C3PTypeConstraint<double>::set_from(void* dest, const TC
 template <> int8_t      C3PTypeConstraint<double>::get_as(void* src, const TCode DEST_TYPE, void* dest) {
   switch (DEST_TYPE) {
     case TCode::DOUBLE:     memcpy(dest, src, FIXED_LEN);   return 0;
+    case TCode::BOOLEAN:    *((bool*) dest) = (0 != _load_from_mem(src));  return 0;
     default:  break;
   }
   return -1;
diff --git a/src/C3PValue/C3PValue.cpp b/src/C3PValue/C3PValue.cpp
index 84cf247..5669899 100644
--- a/src/C3PValue/C3PValue.cpp
+++ b/src/C3PValue/C3PValue.cpp
@@ -463,8 +463,15 @@ int64_t C3PValue::get_as_int64(int8_t* success) {
 
 /* Casts the value into (!/= 0). */
 bool C3PValue::get_as_bool(int8_t* success) {
-  if (success) {  *success = true;  }
-  return (0 != _target_mem);
+  bool   ret = (nullptr != _target_mem);
+  int8_t suc = 1;
+  if (is_numeric()) {
+    // Not all numbers are stored in the pointer itself.
+    ret = false;
+    suc = get_as(TCode::BOOLEAN, (void*) &ret) + 1;
+  }
+  if (success) {  *success = suc;  }
+  return ret;
 }
 
 
-- 
2.43.0


From 3216d4f069abf7258099dccb6331ab58f4d79e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:39 +0000
Subject: [PATCH 091/213] fix: Setting a UINT8 container from a UINT16 that
 doesn't fit is refused

The case fell through into that for UINT32, which read two bytes past the end
of the source, and might accept what it found there.
---
 src/C3PValue/C3PType.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/C3PValue/C3PType.cpp b/src/C3PValue/C3PType.cpp
index e8aef2b..fd731ed 100644
--- a/src/C3PValue/C3PType.cpp
+++ b/src/C3PValue/C3PType.cpp
@@ -1047,6 +1047,7 @@ template <> int8_t      C3PTypeConstraint<uint8_t>::set_from(void* dest, const T
         *d = (uint8_t) *((uint16_t*) src);
         return 0;
       }
+      break;
     case TCode::UINT32:
       if (*((uint32_t*) src) <= UINT8_MAX) {
         *d = (uint8_t) *((uint32_t*) src);
-- 
2.43.0


From be3790a4e661c4dd7b8e357627eea280993bb04a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:39 +0000
Subject: [PATCH 092/213] fix: Refuse 64-bit values that the container can't
 represent

INT64 accepted any UINT64, since it was compared as a signed number, and UINT32
accepted any negative INT64.
---
 src/C3PValue/C3PType.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/C3PValue/C3PType.cpp b/src/C3PValue/C3PType.cpp
index fd731ed..c986561 100644
--- a/src/C3PValue/C3PType.cpp
+++ b/src/C3PValue/C3PType.cpp
@@ -892,9 +892,9 @@ template <> int8_t      C3PTypeConstraint<int64_t>::set_from(void* dest, const T
     case TCode::UINT32:     d = (int64_t) *((uint32_t*) src);   ret = 0;  break;
     case TCode::UINT64:
       {
-        int64_t s = _load_from_mem(src);
+        uint64_t s = (uint64_t) _load_from_mem(src);
         if (s <= INT64_MAX) {
-          d = s;
+          d = (int64_t) s;
           ret = 0;
         }
       }
@@ -1300,7 +1300,7 @@ template <> int8_t      C3PTypeConstraint<uint32_t>::set_from(void* dest, const
       }
       break;
     case TCode::INT64:
-      if (*((int64_t*) src) <= UINT32_MAX) {
+      if ((*((int64_t*) src) <= UINT32_MAX) & (*((int64_t*) src) >= 0)) {
         *d = (uint32_t) *((int64_t*) src);
         return 0;
       }
-- 
2.43.0


From 187a6d0fb61edee1017e62d7e651c545c8272b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:51 +0000
Subject: [PATCH 093/213] fix: A binary container without a value is empty

The shim for pointer-length types was never initialized by C3PValue(TCode),
so reading the container gave an arbitrary pointer, and an arbitrary length.
---
 src/C3PValue/C3PValue.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/C3PValue/C3PValue.cpp b/src/C3PValue/C3PValue.cpp
index 5669899..ef6c9f0 100644
--- a/src/C3PValue/C3PValue.cpp
+++ b/src/C3PValue/C3PValue.cpp
@@ -164,6 +164,9 @@ C3PValue::C3PValue(const TCode TC, void* ptr, uint8_t mem_flgs)
       _target_mem = malloc(sizeof(C3PBinBinder));
       if (nullptr != _target_mem) {
         //((C3PBinBinder*) _target_mem)->tcode = TC;
+        // No value has been given yet.
+        ((C3PBinBinder*) _target_mem)->buf = nullptr;
+        ((C3PBinBinder*) _target_mem)->len = 0;
         _set_flags(true, C3PVAL_MEM_FLAG_VALUE_BY_REF);
         // TODO: Is this the correct choice? We know that we are responsible for
         //   freeing the C3PBinBinder we just created, and I don't want to mix
-- 
2.43.0


From 8296e83b110cce8b5305be3c6a2a4962837a2cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:39 +0000
Subject: [PATCH 094/213] fix: Console output survives a partial claim by the
 efferant

A BufferAccepter that returns 0 claimed some of the buffer, and has left the
rest for the caller to offer again. The console discarded it.
---
 src/Console/C3PConsole.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Console/C3PConsole.cpp b/src/Console/C3PConsole.cpp
index b231db8..eb2f967 100644
--- a/src/Console/C3PConsole.cpp
+++ b/src/Console/C3PConsole.cpp
@@ -246,7 +246,7 @@ int8_t ParsingConsole::_relay_to_output_target() {
   int8_t ret = -1;
   if ((!_response.isEmpty()) & (nullptr != _efferant)) {
     switch (_efferant->pushBuffer(&_response)) {
-      case 0:   _response.clear();  // Be sure to discard the log if the downstream BufferAcceptor didn't entirely claim it.
+      case 0:   // A partial claim leaves the remainder for a later attempt.
       case 1:   ret = 0;
       default:  break;
     }
-- 
2.43.0


From 40eefc8fb76183e67c1f4f2d460b8e4d590f4aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:36 +0000
Subject: [PATCH 095/213] fix: The console doesn't execute a line before it is
 terminated

Once a terminator was found, everything in the buffer was executed, including
the beginning of a line that followed it and had yet to arrive in full. Lines
are now taken one at a time, each ending at a terminator. ZEROBYTE, which has no
literal that can be tokenized, is found as well.
---
 src/Console/C3PConsole.cpp | 61 +++++++++++++++++---------------------
 src/Console/C3PConsole.h   |  2 +-
 2 files changed, 29 insertions(+), 34 deletions(-)

diff --git a/src/Console/C3PConsole.cpp b/src/Console/C3PConsole.cpp
index eb2f967..5d2acaf 100644
--- a/src/Console/C3PConsole.cpp
+++ b/src/Console/C3PConsole.cpp
@@ -207,10 +207,13 @@ int8_t ParsingConsole::_process_buffer() {
     _buffer.clear();
     ret = -2;
   }
-  else if (_line_ending_rxd()) {
-    while (0 < _buffer.count()) {
-      StringBuilder tmp_str_bldr(_buffer.position_trimmed(0));
-      _buffer.drop_position(0);
+  else {
+    // Only complete lines are taken. What follows the last of them is left in
+    //   the buffer until its own line ending arrives.
+    StringBuilder line;
+    while (_line_ending_rxd(&line)) {
+      StringBuilder tmp_str_bldr(line.position_trimmed(0));
+      line.clear();
       if (!tmp_str_bldr.isEmpty()) {
         ret = (0 != ret) ? ret : 0;
         _history_idx = _max_history;
@@ -422,37 +425,29 @@ void ParsingConsole::printHistory(StringBuilder* output) {
 
 
 /**
-* Checks for the configured terminator in the input stream, and tokenizes the
-*   line if found.
+* Checks for the configured terminator in the input stream, and takes the first
+*   line out of the buffer (along with the terminator) if found.
 *
-* @return true if there is a line-ending in the buffer.
+* @param line will be given the line, without its terminator.
+* @return true if there was a line-ending in the buffer.
 */
-bool ParsingConsole::_line_ending_rxd() {
-  const char* const L_TERM = lineTerminatorLiteralStr(_rx_terminator);
-  const int L_TERM_LEN = strlen(L_TERM);
-  bool ret = false;
-  bool buf_has_lterm = false;
-  switch (L_TERM_LEN) {
-    case 2:
-      buf_has_lterm = _buffer.contains(L_TERM);
-      break;
-    case 1:
-      buf_has_lterm = _buffer.contains(L_TERM[0]);
-      break;
-    case 0:
-    default:
-      break;
-  }
-
-  if (buf_has_lterm) {
-    if (0 < _buffer.split(L_TERM)) {
-      ret = true;
-    }
-    else {
-      _buffer.clear();
-    }
-  }
-  return ret;
+bool ParsingConsole::_line_ending_rxd(StringBuilder* line) {
+  const uint8_t* const L_TERM = (const uint8_t*) lineTerminatorLiteralStr(_rx_terminator);
+  const int L_TERM_LEN = lineTerminatorLength(_rx_terminator);
+  const int LINE_LEN   = _buffer.locate(L_TERM, L_TERM_LEN);
+  if (0 > LINE_LEN) {
+    return false;
+  }
+  _buffer.string();   // The line ought to be a single fragment.
+  line->concatHandoffLimit(&_buffer, LINE_LEN);
+  if ((LINE_LEN != line->length()) || (1 < line->count())) {
+    // A memory allocation failed. Put back anything that was taken.
+    line->concatHandoff(&_buffer);
+    _buffer.concatHandoff(line);
+    return false;
+  }
+  _buffer.cull(L_TERM_LEN);
+  return true;
 }
 
 
diff --git a/src/Console/C3PConsole.h b/src/Console/C3PConsole.h
index fb86877..a9717c3 100644
--- a/src/Console/C3PConsole.h
+++ b/src/Console/C3PConsole.h
@@ -171,7 +171,7 @@ class ParsingConsole : public C3PConsole, public BufferCoDec {
     void   _append_to_history(StringBuilder*);  // Appends a command to the history.
     void   _cull_history();                     // Trims the history list back to bounds.
 
-    bool _line_ending_rxd();
+    bool _line_ending_rxd(StringBuilder*);
     int8_t _process_buffer();
 
     /* Flag manipulation inlines */
-- 
2.43.0


From c25db35caacde7ce47ae918486cd899dbdb66600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:36 +0000
Subject: [PATCH 096/213] fix: The console honours a backspace anywhere in its
 input

Only one that was the first byte of a buffer was understood, so the meaning of
the input depended on how the transport had cut it. Others became part of the
line, and whatever shared a buffer with a leading one was not taken, despite
the claim that it was.
---
 src/Console/C3PConsole.cpp | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/src/Console/C3PConsole.cpp b/src/Console/C3PConsole.cpp
index 5d2acaf..d7ad986 100644
--- a/src/Console/C3PConsole.cpp
+++ b/src/Console/C3PConsole.cpp
@@ -159,27 +159,33 @@ int8_t ParsingConsole::pushBuffer(StringBuilder* incoming) {
   // TODO: Implement cursor keys.
   //   U: 0x1b, 0x5b, 0x41   D: 0x1b, 0x5b, 0x42
   //   L: 0x1b, 0x5b, 0x44   R: 0x1b, 0x5b, 0x43
-  uint8_t first_byte = *(incoming->string());
   if (localEcho()) {
-    _response.concat(incoming);  // We do it this way to copy the buffer. printToLog() will take it.
+    StringBuilder echo;
+    echo.concat(incoming);  // We do it this way to copy the buffer. printToLog() will take it.
     //incoming->printDebug(&_response); Uncomment to hex dump received characters.
-    if (0x08 == first_byte) {
-      uint8_t last_chr_erase[] = {0x20, 0x08};
-      _response.concat(last_chr_erase, 2);
-    }
+    echo.replace("\b", "\b \b");   // Each backspace should erase what it moves over.
+    _response.concatHandoff(&echo);
     printToLog(nullptr);   // Flush the log out of the console.
   }
-  if (0x08 == first_byte) {   // If we see the backspace key...
+  int bs_offset = incoming->locate("\b");
+  while (0 <= bs_offset) {   // If we see the backspace key...
+    const int IN_LEN = incoming->length();
+    if (0 < bs_offset) {     // ...take anything that came before it...
+      _buffer.concatHandoffLimit(incoming, bs_offset);
+      if (incoming->length() != (IN_LEN - bs_offset)) {
+        return -1;   // Memory allocation failure.
+      }
+      _process_buffer();
+    }
     int blen = _buffer.length();
-    if (0 < blen) {   // ...and we have accumulated input...
+    if (0 < blen) {   // ...and if we have accumulated input...
       _buffer.cull(0, blen-1);  // Drop the last character of the buffer.
     }
-    incoming->cull(1);  // Drop the first character of the input.
-  }
-  else {
-    _buffer.concatHandoff(incoming);  // Take the buffer.
-    _process_buffer();  // TODO: Observe return code.
+    incoming->cull(1);  // Drop the backspace from the input.
+    bs_offset = incoming->locate("\b");
   }
+  _buffer.concatHandoff(incoming);  // Take the buffer.
+  _process_buffer();  // TODO: Observe return code.
   return 1;
 }
 
-- 
2.43.0


From 6788498b576502135e45a3e4e113f3c810fae851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:14 +0000
Subject: [PATCH 097/213] fix: A char* argument to concatf() isn't mistaken for
 a va_list

On targets where va_list is a char* (i386 among them), concatf("%s", p) with
a non-const p selected the va_list overload, and formatted whatever happened to
be at p as if it were an argument list.
---
 src/AbstractPlatform.cpp | 2 +-
 src/StringBuilder.cpp    | 4 ++--
 src/StringBuilder.h      | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/AbstractPlatform.cpp b/src/AbstractPlatform.cpp
index d4494d2..c304078 100644
--- a/src/AbstractPlatform.cpp
+++ b/src/AbstractPlatform.cpp
@@ -423,7 +423,7 @@ void c3p_log(uint8_t severity, const char* tag, const char* fmt, ...) {
   StringBuilder msg;
   va_list args;
   va_start(args, fmt);
-  int8_t ret = (0 <= msg.concatf(fmt, args)) ? 0:-1;
+  int8_t ret = (0 <= msg.vconcatf(fmt, args)) ? 0:-1;
   va_end(args);
   if (0 == ret) {
     c3p_log(severity, tag, &msg);
diff --git a/src/StringBuilder.cpp b/src/StringBuilder.cpp
index 53b3ded..7109e54 100644
--- a/src/StringBuilder.cpp
+++ b/src/StringBuilder.cpp
@@ -935,7 +935,7 @@ int StringBuilder::concatf(const char* format, ...) {
   va_list args;
   int ret = 0;
   va_start(args, format);
-  ret = concatf(format, args);
+  ret = vconcatf(format, args);
   va_end(args);
   return ret;
 }
@@ -948,7 +948,7 @@ int StringBuilder::concatf(const char* format, ...) {
 * @param args is a discrete parameter that contains the optional variadics.
 * @return the byte count written to this StringBuilder, or negative on failure.
 */
-int StringBuilder::concatf(const char* format, va_list args) {
+int StringBuilder::vconcatf(const char* format, va_list args) {
   // Take a trial run to discover how much space is needed.
   va_list trial_args;
   va_copy(trial_args, args);
diff --git a/src/StringBuilder.h b/src/StringBuilder.h
index a1bcb35..c903a89 100644
--- a/src/StringBuilder.h
+++ b/src/StringBuilder.h
@@ -147,7 +147,7 @@ class StringBuilder {
 
     /* Variadic concat. Semantics are the same as printf. */
     int concatf(const char* format, ...);
-    int concatf(const char* format, va_list);
+    int vconcatf(const char* format, va_list);
 
     void concat(StringBuilder* src);
     void concat(char nu);
-- 
2.43.0


From 2fa8eca496fe2df6d7e06ec485b9394f4c54a6a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:32 +0000
Subject: [PATCH 098/213] fix: Configuring the console history leaves the
 prompt setting alone

---
 src/Console/C3PConsole.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/Console/C3PConsole.cpp b/src/Console/C3PConsole.cpp
index d7ad986..da67383 100644
--- a/src/Console/C3PConsole.cpp
+++ b/src/Console/C3PConsole.cpp
@@ -524,7 +524,6 @@ int8_t ParsingConsole::console_handler_conf(StringBuilder* text_return, StringBu
   }
   else if (0 == StringBuilder::strcasecmp(cmd, "history")) {
     if (1 < args->count()) {
-      emitPrompt(0 != arg1);
       char* subcmd = args->position_trimmed(1);
       if (0 == StringBuilder::strcasecmp(subcmd, "clear")) {
         clearHistory();
-- 
2.43.0


From 7f2e9ee9adad7c54657797e767eb309ae4f102d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:08 +0000
Subject: [PATCH 099/213] fix: History the console can't retain isn't leaked

---
 src/Console/C3PConsole.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Console/C3PConsole.cpp b/src/Console/C3PConsole.cpp
index da67383..cb1b21b 100644
--- a/src/Console/C3PConsole.cpp
+++ b/src/Console/C3PConsole.cpp
@@ -347,7 +347,9 @@ int8_t ParsingConsole::_exec_line(StringBuilder* line) {
 void ParsingConsole::_append_to_history(StringBuilder* line) {
   StringBuilder* heap_ref = new StringBuilder();
   heap_ref->concatHandoff(line);
-  _history.insert(heap_ref);
+  if (0 > _history.insert(heap_ref)) {
+    delete heap_ref;   // No memory to retain it.
+  }
   _cull_history();
 }
 
-- 
2.43.0


From 4481e2a121806ce0920b346dcbe95e39699d58eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:28 +0000
Subject: [PATCH 100/213] fix: A container that owned its value releases it
 when given another

Otherwise, the prior value leaks, and the container's destructor frees the
caller's.
---
 src/C3PValue/C3PValue.cpp | 27 +++++++++++++++++++++++++++
 src/C3PValue/C3PValue.h   |  1 +
 2 files changed, 28 insertions(+)

diff --git a/src/C3PValue/C3PValue.cpp b/src/C3PValue/C3PValue.cpp
index ef6c9f0..cf3ba22 100644
--- a/src/C3PValue/C3PValue.cpp
+++ b/src/C3PValue/C3PValue.cpp
@@ -353,6 +353,19 @@ void* C3PValue::_type_pun_set() {
 
 
 
+/**
+* @return A pointer to the value that is held by reference and owned by this
+*   class, or nullptr if there is no such thing.
+*/
+void* C3PValue::_owned_ref() {
+  if (reapValue() && (nullptr != _target_mem)) {
+    if (is_ptr_len()) {           return ((C3PBinBinder*) _target_mem)->buf;   }
+    else if (_is_val_by_ref()) {  return _target_mem;                          }
+  }
+  return nullptr;
+}
+
+
 /*******************************************************************************
 * Basal accessors
 * These functions ultimately wrap the C3PTypeConstraint template that handles
@@ -362,7 +375,16 @@ int8_t C3PValue::set_from(const TCode SRC_TYPE, void* src) {
   int8_t ret = -1;
   C3PType* t_helper = getTypeHelper(_TCODE);
   if ((nullptr != t_helper) && _has_storage()) {
+    // If we own something by reference, it is about to be replaced.
+    void* prior = _owned_ref();
     ret = t_helper->set_from(_type_pun_set(), SRC_TYPE, src);
+    if ((0 == ret) && (nullptr != prior) && (prior != _owned_ref())) {
+      // The replacement belongs to the caller, unless reapValue() is called.
+      if (is_ptr_len() || (0 > t_helper->destruct(prior))) {
+        free(prior);
+      }
+      reapValue(false);
+    }
   }
   if (0 == ret) {
     _set_trace++;
@@ -403,8 +425,13 @@ int8_t C3PValue::get_as(uint8_t** v, uint32_t* l) {
 int8_t C3PValue::set(uint8_t* src, uint32_t l, const TCode SRC_TYPE) {
   int8_t ret = -1;
   if ((nullptr != _target_mem) && is_ptr_len()) {
+    void* prior = _owned_ref();
     ((C3PBinBinder*) _target_mem)->buf = src;
     ((C3PBinBinder*) _target_mem)->len = l;
+    if ((nullptr != prior) && (prior != src)) {
+      free(prior);
+      reapValue(false);
+    }
     _set_trace++;
     ret = 0;
   }
diff --git a/src/C3PValue/C3PValue.h b/src/C3PValue/C3PValue.h
index fa1bf52..04edeea 100644
--- a/src/C3PValue/C3PValue.h
+++ b/src/C3PValue/C3PValue.h
@@ -320,6 +320,7 @@ class C3PValue {
 
     void* _type_pun_get();
     void* _type_pun_set();
+    void* _owned_ref();
 
     /* False for values that were indirected to memory that couldn't be allocated. */
     inline bool _has_storage() {    return (nullptr != _type_pun_set());               };
-- 
2.43.0


From 06ab3b157743020e79020781d721336e2b46172e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:28 +0000
Subject: [PATCH 101/213] fix: A key without a serializable value isn't written

---
 src/C3PValue/KeyValuePair.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/C3PValue/KeyValuePair.cpp b/src/C3PValue/KeyValuePair.cpp
index 5523e30..cf5e6d6 100644
--- a/src/C3PValue/KeyValuePair.cpp
+++ b/src/C3PValue/KeyValuePair.cpp
@@ -270,9 +270,15 @@ int8_t KeyValuePair::serialize(StringBuilder* out, const TCode FORMAT) {
           if ((nullptr != t_helper) && src->_has_storage()) {
             char* tmp_key = src->getKey();
             if ((nullptr != tmp_key) && (strlen(tmp_key) > 0)) {
-              local_encoder.write_string(tmp_key);
-              ret = t_helper->serialize(src->_type_pun_get(), &local_output, FORMAT);
-              kvp_count++;
+              StringBuilder local_value;
+              ret = t_helper->serialize(src->_type_pun_get(), &local_value, FORMAT);
+              if (!local_value.isEmpty()) {
+                // Without a value (if unset, for instance), a key would be taken
+                //   to belong to whatever comes next.
+                local_encoder.write_string(tmp_key);
+                local_output.concatHandoff(&local_value);
+                kvp_count++;
+              }
             }
             else {
               // Peacefully ignore KVPs without keys.
-- 
2.43.0


From be9a742793460838138765ca84481e0abef810b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:28 +0000
Subject: [PATCH 102/213] fix: A record's hash depends on its content, and not
 only on its length

---
 src/Storage/SimpleDataRecord.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/Storage/SimpleDataRecord.cpp b/src/Storage/SimpleDataRecord.cpp
index 8c20fda..e53ea62 100644
--- a/src/Storage/SimpleDataRecord.cpp
+++ b/src/Storage/SimpleDataRecord.cpp
@@ -10,13 +10,14 @@ TODO: First-principles first. Mechanics will follow.
 
 
 uint32_t static_hash_wrapper_fxn(const uint8_t* BUF, const uint32_t LEN) {
-    #if defined(__HAS_CRYPT_WRAPPER)
-      // We'd prefer a cryptographic hash...
-    #else
-      // But we'll fall back to something simple if we don't have one.
-      // https://en.wikipedia.org/wiki/Fowler%E2%80%93Noll%E2%80%93Vo_hash_function
-    #endif  // __HAS_CRYPT_WRAPPER
-  return (0xAAAAAAAA ^ LEN);  // TODO
+  // TODO: We'd prefer a cryptographic hash, if __HAS_CRYPT_WRAPPER. But we'll
+  //   fall back to something simple (FNV-1a) if we don't have one.
+  // https://en.wikipedia.org/wiki/Fowler%E2%80%93Noll%E2%80%93Vo_hash_function
+  uint32_t ret = 0x811C9DC5;
+  for (uint32_t i = 0; i < LEN; i++) {
+    ret = (ret ^ *(BUF + i)) * 0x01000193;
+  }
+  return ret;
 }
 
 
-- 
2.43.0


From 5a969fac180cfd53ab87acf3b61efa7905db73c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:28 +0000
Subject: [PATCH 103/213] fix: Long record names are truncated, whatever their
 length

---
 src/Storage/SimpleDataRecord.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Storage/SimpleDataRecord.cpp b/src/Storage/SimpleDataRecord.cpp
index e53ea62..6cbafb9 100644
--- a/src/Storage/SimpleDataRecord.cpp
+++ b/src/Storage/SimpleDataRecord.cpp
@@ -245,7 +245,7 @@ int8_t SimpleDataRecord::load(uint32_t storage_tag, StringBuilder* inbound_buf)
 * @return 0 on success. -1 on failure of rule-check.
 */
 int8_t SimpleDataRecord::_sanitize_name(const char* name) {
-  const uint8_t NAME_LENGTH = strict_min((uint8_t) sizeof(_key), (uint8_t) strlen(name));
+  const uint8_t NAME_LENGTH = strict_min((uint32_t) sizeof(_key), (uint32_t) strlen(name));
   int8_t ret = -1;
   if (NAME_LENGTH > 0) {
     for (uint8_t i = 0; i < sizeof(_key); i++) {
-- 
2.43.0


From a916523968405e622509bb018bb3cff95f8ddb1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:22 +0000
Subject: [PATCH 104/213] fix: Loading a record doesn't read past it, nor
 change it if the load is refused

A record read with trailing padding is also accepted, as it already was from a
bare pointer.
---
 src/Storage/SimpleDataRecord.cpp | 61 ++++++++++++++++++--------------
 1 file changed, 35 insertions(+), 26 deletions(-)

diff --git a/src/Storage/SimpleDataRecord.cpp b/src/Storage/SimpleDataRecord.cpp
index 6cbafb9..57de3bd 100644
--- a/src/Storage/SimpleDataRecord.cpp
+++ b/src/Storage/SimpleDataRecord.cpp
@@ -103,7 +103,8 @@ int8_t SimpleDataRecord::_descriptor_deserialize(StringBuilder* sb_buf) {
   uint32_t len = sb_buf->length();
   uint32_t buf_idx = 0;
 
-  if (DATARECORD_BASE_SIZE <= len) {
+  // NOTE: If it is still in pieces, there wasn't memory to gather it.
+  if ((DATARECORD_BASE_SIZE <= len) && (1 == sb_buf->count())) {
     ret--;
     _storage_tag = *(buf + buf_idx++);
     _storage_tag |= (((uint32_t) *(buf + buf_idx++)) << 8);
@@ -180,24 +181,8 @@ int8_t SimpleDataRecord::save(uint32_t storage_tag, const char* name, StringBuil
 int8_t SimpleDataRecord::load(uint32_t storage_tag, uint8_t* inbound_buf, uint32_t buf_len) {
   int8_t ret = -1;
   if (buf_len > DATARECORD_BASE_SIZE) {
-    StringBuilder desc_container(inbound_buf, DATARECORD_BASE_SIZE);
-    if (0 == _descriptor_deserialize(&desc_container)) {
-      ret--;
-      if (_storage_tag == storage_tag) {
-        if ((buf_len - DATARECORD_BASE_SIZE) >= _data_length) {
-          ret--;
-          if (_hash == static_hash_wrapper_fxn((inbound_buf+DATARECORD_BASE_SIZE), _data_length)) {
-            // Hash matches. Cull the useless edges of the buffer...
-            ret--;
-            StringBuilder payload_container((inbound_buf+DATARECORD_BASE_SIZE), _data_length);
-            if (0 == deserialize(&payload_container, _format)) {
-              _dr_set_flag(DATA_RECORD_FLAG_WAS_LOADED);
-              ret = 0;
-            }
-          }
-        }
-      }
-    }
+    StringBuilder record_container(inbound_buf, buf_len);
+    ret = load(storage_tag, &record_container);
   }
   return ret;
 }
@@ -212,21 +197,45 @@ int8_t SimpleDataRecord::load(uint32_t storage_tag, uint8_t* inbound_buf, uint32
 */
 int8_t SimpleDataRecord::load(uint32_t storage_tag, StringBuilder* inbound_buf) {
   int8_t ret = -1;
+  // The descriptor of a record that isn't accepted shouldn't replace our own.
+  const uint32_t PRIOR_TAG     = _storage_tag;
+  const uint8_t  PRIOR_VERSION = _version;
+  const uint8_t  PRIOR_FLAGS   = _flags;
+  const TCode    PRIOR_FORMAT  = _format;
+  const uint32_t PRIOR_LENGTH  = _data_length;
+  const uint64_t PRIOR_TIME    = _timestamp;
+  const uint32_t PRIOR_HASH    = _hash;
+  uint8_t prior_key[sizeof(_key)];
+  memcpy(prior_key, _key, sizeof(_key));
+
   if (0 == _descriptor_deserialize(inbound_buf)) {
     ret--;
     if (_storage_tag == storage_tag) {
-      ret--;
-      if (_hash == static_hash_wrapper_fxn((inbound_buf->string()+DATARECORD_BASE_SIZE), _data_length)) {
-        // Hash matches. Cull the useless edges of the buffer...
-        inbound_buf->cull(DATARECORD_BASE_SIZE);
+      if (((uint32_t) inbound_buf->length() - DATARECORD_BASE_SIZE) >= _data_length) {
         ret--;
-        if (0 == deserialize(inbound_buf, _format)) {
-          _dr_set_flag(DATA_RECORD_FLAG_WAS_LOADED);
-          ret = 0;
+        if (_hash == static_hash_wrapper_fxn((inbound_buf->string()+DATARECORD_BASE_SIZE), _data_length)) {
+          // Hash matches. Cull the useless edges of the buffer...
+          inbound_buf->cull(DATARECORD_BASE_SIZE, _data_length);
+          ret--;
+          if (0 == deserialize(inbound_buf, _format)) {
+            _dr_set_flag(DATA_RECORD_FLAG_WAS_LOADED);
+            ret = 0;
+          }
         }
       }
     }
   }
+
+  if (0 != ret) {
+    _storage_tag = PRIOR_TAG;
+    _version     = PRIOR_VERSION;
+    _flags       = PRIOR_FLAGS;
+    _format      = PRIOR_FORMAT;
+    _data_length = PRIOR_LENGTH;
+    _timestamp   = PRIOR_TIME;
+    _hash        = PRIOR_HASH;
+    memcpy(_key, prior_key, sizeof(_key));
+  }
   return ret;
 }
 
-- 
2.43.0


From 8d9258c9bf7749638472ef7f5fe0d590bb05a785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:56 +0000
Subject: [PATCH 105/213] fix: A configuration record can be loaded

---
 src/Storage/RecordTypes/ConfRecord.cpp | 36 +++++++++++++++++++++++++-
 src/Storage/RecordTypes/ConfRecord.h   |  1 +
 2 files changed, 36 insertions(+), 1 deletion(-)

diff --git a/src/Storage/RecordTypes/ConfRecord.cpp b/src/Storage/RecordTypes/ConfRecord.cpp
index a1a89c7..b133ef8 100644
--- a/src/Storage/RecordTypes/ConfRecord.cpp
+++ b/src/Storage/RecordTypes/ConfRecord.cpp
@@ -292,11 +292,18 @@ int8_t ConfRecord::deserialize(StringBuilder* raw, TCode format) {
     case TCode::CBOR:
       #if defined(__BUILD_HAS_CBOR)
       {
-        CBORArgListener cl(&_kvp);
+        KeyValuePair* loaded = nullptr;
+        CBORArgListener cl(&loaded);
         cbor::input_static input(raw->string(), raw->length());
         cbor::decoder decoder(input, cl);
         decoder.run();
         ret = (decoder.failed() ? -2 : 0);
+        if (nullptr != loaded) {
+          if (0 == ret) {
+            _adopt_values(loaded);
+          }
+          delete loaded;
+        }
       }
       #endif
       break;
@@ -308,3 +315,30 @@ int8_t ConfRecord::deserialize(StringBuilder* raw, TCode format) {
   }
   return ret;  // TODO: Return contract spec'd where?
 }
+
+
+/**
+* Moves the values of our own keys out of a freshly-parsed record, and into the
+*   containers that we allocated for them. Any other keys are ignored, and any of
+*   our keys that aren't found retain their values.
+*
+* @param src is the head of the list of values, as they were parsed.
+*/
+void ConfRecord::_adopt_values(KeyValuePair* src) {
+  // The list name is the only value without a key, and follows the metadata. The
+  //   parser makes nothing but KeyValuePairs, but nextKVP() would pass over it.
+  while ((nullptr != src) && (nullptr != src->getKey())) {
+    src = (KeyValuePair*) src->nextValue();
+  }
+  while (nullptr != src) {
+    KeyValuePair* dest = _kvp->valueWithKey(src->getKey());
+    if (nullptr != dest) {
+      if ((0 == dest->set((C3PValue*) src)) && (TCode::STR == dest->tcode())) {
+        // Strings are held by reference. Take ownership along with the value.
+        dest->reapValue(src->reapValue());
+        src->reapValue(false);
+      }
+    }
+    src = src->nextKVP();
+  }
+}
diff --git a/src/Storage/RecordTypes/ConfRecord.h b/src/Storage/RecordTypes/ConfRecord.h
index 41da4b5..b3d31d6 100644
--- a/src/Storage/RecordTypes/ConfRecord.h
+++ b/src/Storage/RecordTypes/ConfRecord.h
@@ -111,6 +111,7 @@ class ConfRecord : public SimpleDataRecord {
       _kvp(nullptr), _config_is_complete(false) {};
 
     int8_t  _discard_allocations();
+    void    _adopt_values(KeyValuePair*);
     int32_t _allocate_kvp();
 
     int8_t _set_conf(const char* KEY, const TCode, void* val);
-- 
2.43.0


From daef0d5b9cd63932c309b00d549f0ab229e89d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:11 +0000
Subject: [PATCH 106/213] fix: A record's name prints within its bounds

---
 src/Storage/SimpleDataRecord.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Storage/SimpleDataRecord.cpp b/src/Storage/SimpleDataRecord.cpp
index 57de3bd..ddb9175 100644
--- a/src/Storage/SimpleDataRecord.cpp
+++ b/src/Storage/SimpleDataRecord.cpp
@@ -34,7 +34,7 @@ SimpleDataRecord::SimpleDataRecord(uint32_t storage_tag, StorageRecordType rtype
 
 void SimpleDataRecord::printDebug(StringBuilder* output) {
   output->concatf("\t Tag:\t 0x%08x\n", _storage_tag);
-  output->concatf("\t Key:\t %s\n", _key);
+  output->concatf("\t Key:\t %.16s\n", _key);
   output->concatf("\t Dirty:\t %c\n", isDirty() ? 'y':'n');
   output->concatf("\t Type:\t 0x%02x\n", recordType());
   output->concatf("\t Hash:\t 0x%08x\n", _hash);
-- 
2.43.0


From c77985e85a754222a6af8db30c36ba2a22b3c322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:41 +0000
Subject: [PATCH 107/213] fix: Vectors parsed from CBOR aren't leaked

---
 src/C3PValue/KeyValuePair.cpp | 41 ++++++++++++++++++++++++++++-------
 1 file changed, 33 insertions(+), 8 deletions(-)

diff --git a/src/C3PValue/KeyValuePair.cpp b/src/C3PValue/KeyValuePair.cpp
index cf5e6d6..57c7211 100644
--- a/src/C3PValue/KeyValuePair.cpp
+++ b/src/C3PValue/KeyValuePair.cpp
@@ -549,6 +549,7 @@ KeyValuePair* CBORArgListener::_inflate_c3p_type(uint8_t* data, int size, const
     }
   }
 
+  // NOTE: Vectors are copied into the container.
   switch (TC) {
     case TCode::NONE:            break;
     case TCode::INT8:            ret = new KeyValuePair(*((int8_t*)data));    break;
@@ -573,28 +574,52 @@ KeyValuePair* CBORArgListener::_inflate_c3p_type(uint8_t* data, int size, const
     //case TCode::VECT_2_INT32:
     //case TCode::VECT_2_UINT32:
     case TCode::VECT_3_FLOAT:
-      ret = new KeyValuePair(new Vector3<float>(*((float*)(data+0)), *((float*)(data+4)), *((float*)(data+8))));
+      {
+        Vector3<float> tmp(*((float*)(data+0)), *((float*)(data+4)), *((float*)(data+8)));
+        ret = new KeyValuePair(&tmp);
+      }
       break;
     case TCode::VECT_3_DOUBLE:
-      ret = new KeyValuePair(new Vector3<double>(*((double*)(data+0)), *((double*)(data+8)), *((double*)(data+16))));
+      {
+        Vector3<double> tmp(*((double*)(data+0)), *((double*)(data+8)), *((double*)(data+16)));
+        ret = new KeyValuePair(&tmp);
+      }
       break;
     case TCode::VECT_3_INT8:
-      ret = new KeyValuePair(new Vector3<int8_t>(*((int8_t*)(data+0)), *((int8_t*)(data+1)), *((int8_t*)(data+2))));
+      {
+        Vector3<int8_t> tmp(*((int8_t*)(data+0)), *((int8_t*)(data+1)), *((int8_t*)(data+2)));
+        ret = new KeyValuePair(&tmp);
+      }
       break;
     case TCode::VECT_3_UINT8:
-      ret = new KeyValuePair(new Vector3<uint8_t>(*((uint8_t*)(data+0)), *((uint8_t*)(data+1)), *((uint8_t*)(data+2))));
+      {
+        Vector3<uint8_t> tmp(*((uint8_t*)(data+0)), *((uint8_t*)(data+1)), *((uint8_t*)(data+2)));
+        ret = new KeyValuePair(&tmp);
+      }
       break;
     case TCode::VECT_3_INT16:
-      ret = new KeyValuePair(new Vector3<int16_t>(*((int16_t*)(data+0)), *((int16_t*)(data+2)), *((int16_t*)(data+4))));
+      {
+        Vector3<int16_t> tmp(*((int16_t*)(data+0)), *((int16_t*)(data+2)), *((int16_t*)(data+4)));
+        ret = new KeyValuePair(&tmp);
+      }
       break;
     case TCode::VECT_3_UINT16:
-      ret = new KeyValuePair(new Vector3<uint16_t>(*((uint16_t*)(data+0)), *((uint16_t*)(data+2)), *((uint16_t*)(data+4))));
+      {
+        Vector3<uint16_t> tmp(*((uint16_t*)(data+0)), *((uint16_t*)(data+2)), *((uint16_t*)(data+4)));
+        ret = new KeyValuePair(&tmp);
+      }
       break;
     case TCode::VECT_3_INT32:
-      ret = new KeyValuePair(new Vector3<int32_t>(*((int32_t*)(data+0)), *((int32_t*)(data+4)), *((int32_t*)(data+8))));
+      {
+        Vector3<int32_t> tmp(*((int32_t*)(data+0)), *((int32_t*)(data+4)), *((int32_t*)(data+8)));
+        ret = new KeyValuePair(&tmp);
+      }
       break;
     case TCode::VECT_3_UINT32:
-      ret = new KeyValuePair(new Vector3<uint32_t>(*((uint32_t*)(data+0)), *((uint32_t*)(data+4)), *((uint32_t*)(data+8))));
+      {
+        Vector3<uint32_t> tmp(*((uint32_t*)(data+0)), *((uint32_t*)(data+4)), *((uint32_t*)(data+8)));
+        ret = new KeyValuePair(&tmp);
+      }
       break;
     //case TCode::VECT_4_FLOAT:
     //case TCode::URL:
-- 
2.43.0


From b6f30989a2f012034f782d72700535767e2fc37f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:16 +0000
Subject: [PATCH 108/213] fix: A configuration isn't loaded from what there was
 no memory to parse

---
 src/C3PValue/KeyValuePair.cpp          | 3 +++
 src/C3PValue/KeyValuePair.h            | 4 ++++
 src/Storage/RecordTypes/ConfRecord.cpp | 2 +-
 3 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/C3PValue/KeyValuePair.cpp b/src/C3PValue/KeyValuePair.cpp
index 57c7211..4c5904f 100644
--- a/src/C3PValue/KeyValuePair.cpp
+++ b/src/C3PValue/KeyValuePair.cpp
@@ -431,6 +431,7 @@ void CBORArgListener::_caaa(KeyValuePair* nu) {
     }
   }
 
+  _mem_error |= nu->memError();
   if (0 < _wait_array) _wait_array--;
 
   if ((nullptr != built) && (nullptr != *built)) {
@@ -468,6 +469,7 @@ void CBORArgListener::on_string(char* val) {
       _caaa(nu_kvp);
     }
   }
+  else _mem_error = true;
 };
 
 void CBORArgListener::on_bytes(uint8_t* data, int size) {
@@ -490,6 +492,7 @@ void CBORArgListener::on_bytes(uint8_t* data, int size) {
       nu_kvp->reapValue(true);
       _caaa(nu_kvp);
     }
+    else _mem_error = true;
   }
 };
 
diff --git a/src/C3PValue/KeyValuePair.h b/src/C3PValue/KeyValuePair.h
index 3852ea1..3586a02 100644
--- a/src/C3PValue/KeyValuePair.h
+++ b/src/C3PValue/KeyValuePair.h
@@ -272,12 +272,16 @@ class KeyValuePair : public C3PValue {
       void on_extra_tag(unsigned long long tag);
       void on_extra_special(unsigned long long tag);
 
+      // Without memory, keys and values are lost, and can't be properly paired.
+      inline bool memError() {  return _mem_error;  };
+
     private:
       KeyValuePair** built               = nullptr;
       char*          _wait               = nullptr;
       int            _wait_map           = 0;
       int            _wait_array         = 0;
       TCode          _pending_c3p_tag = TCode::NONE;
+      bool           _mem_error       = false;
 
       /* Please forgive the stupid name. */
       void _caaa(KeyValuePair*);
diff --git a/src/Storage/RecordTypes/ConfRecord.cpp b/src/Storage/RecordTypes/ConfRecord.cpp
index b133ef8..49e9167 100644
--- a/src/Storage/RecordTypes/ConfRecord.cpp
+++ b/src/Storage/RecordTypes/ConfRecord.cpp
@@ -297,7 +297,7 @@ int8_t ConfRecord::deserialize(StringBuilder* raw, TCode format) {
         cbor::input_static input(raw->string(), raw->length());
         cbor::decoder decoder(input, cl);
         decoder.run();
-        ret = (decoder.failed() ? -2 : 0);
+        ret = ((decoder.failed() || cl.memError()) ? -2 : 0);
         if (nullptr != loaded) {
           if (0 == ret) {
             _adopt_values(loaded);
-- 
2.43.0


From ff5e1bf64940bed2946178e049db1f87519bb694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:07 +0000
Subject: [PATCH 109/213] fix: SensorFilter's window bookkeeping follows its
 memory

A failed or empty resize left the filter claiming to be initialized with no
memory behind it, and purge() left the write index (and in SensorFilter3 the
fullness and cached statistics) where they were.
---
 src/TimeSeries/SensorFilter.h | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/src/TimeSeries/SensorFilter.h b/src/TimeSeries/SensorFilter.h
index 2b0d1c2..78f1fbe 100644
--- a/src/TimeSeries/SensorFilter.h
+++ b/src/TimeSeries/SensorFilter.h
@@ -270,8 +270,7 @@ template <class T> int8_t SensorFilter<T>::init() {
   else {
     uint32_t tmp_window_size = _window_size;
     _window_size = 0;
-    int8_t ret = _reallocate_sample_window(tmp_window_size);
-    _filter_initd = (0 == ret);
+    _reallocate_sample_window(tmp_window_size);
   }
   return _filter_initd ? 0 : -1;
 }
@@ -282,10 +281,11 @@ template <class T> int8_t SensorFilter<T>::init() {
 */
 template <class T> int8_t SensorFilter<T>::_reallocate_sample_window(uint32_t win) {
   int8_t ret = -1;
-  if (win != _window_size) {
+  if ((win != _window_size) | (nullptr == samples)) {
     if (!_static_alloc) {
-      _window_size = win;
-      _window_full = false;
+      _window_size  = win;
+      _window_full  = false;
+      _filter_initd = false;
       if (nullptr != samples) {
         free(samples);
         samples = nullptr;
@@ -293,7 +293,7 @@ template <class T> int8_t SensorFilter<T>::_reallocate_sample_window(uint32_t wi
       if (_window_size > 0) {
         samples = (T*) malloc(_window_size * sizeof(T));
         ret = _zero_samples();
-        _sample_idx = 0;
+        _filter_initd = (0 == ret);
       }
       else {   // Program asked for no sample depth.
         ret = 0;
@@ -318,6 +318,7 @@ template <class T> int8_t SensorFilter<T>::_reallocate_sample_window(uint32_t wi
 template <class T> int8_t SensorFilter<T>::_zero_samples() {
   int8_t ret = -1;
   _samples_total = 0;
+  _sample_idx    = 0;
   last_value = T(0);
   min_value  = T(0);
   max_value  = T(0);
@@ -588,8 +589,7 @@ template <class T> int8_t SensorFilter3<T>::init() {
   else {
     uint32_t tmp_window_size = _window_size;
     _window_size = 0;
-    int8_t ret = _reallocate_sample_window(tmp_window_size);
-    _filter_initd = (0 == ret);
+    _reallocate_sample_window(tmp_window_size);
   }
   return _filter_initd ? 0 : -1;
 }
@@ -618,10 +618,11 @@ template <class T> int8_t SensorFilter3<T>::feedFilter() {
 */
 template <class T> int8_t SensorFilter3<T>::_reallocate_sample_window(uint32_t win) {
   int8_t ret = -1;
-  if (win != _window_size) {
+  if ((win != _window_size) | (nullptr == samples)) {
     if (!_static_alloc) {
-      _window_size = win;
-      _window_full = false;
+      _window_size  = win;
+      _window_full  = false;
+      _filter_initd = false;
       if (nullptr != samples) {
         free(samples);
         samples = nullptr;
@@ -629,7 +630,7 @@ template <class T> int8_t SensorFilter3<T>::_reallocate_sample_window(uint32_t w
       if (_window_size > 0) {
         samples = (Vector3<T>*) malloc(_window_size * sizeof(Vector3<T>));
         ret = _zero_samples();
-        _sample_idx = 0;
+        _filter_initd = (0 == ret);
       }
       else {   // Program asked for no sample depth.
         ret = 0;
@@ -654,10 +655,15 @@ template <class T> int8_t SensorFilter3<T>::_reallocate_sample_window(uint32_t w
 template <class T> int8_t SensorFilter3<T>::_zero_samples() {
   int8_t ret = -1;
   _samples_total = 0;
+  _sample_idx    = 0;
   last_value(T(0), T(0), T(0));
+  min_value(T(0), T(0), T(0));
+  max_value(T(0), T(0), T(0));
   _mean(T(0), T(0), T(0));
   _rms(T(0), T(0), T(0));
   _stdev(T(0), T(0), T(0));
+  invalidateStats();
+  _window_full = false;
   if (nullptr != samples) {
     if (_window_size > 0) {
       ret = 0;
-- 
2.43.0


From d53ec4cf1a7fbc33959a752b5c8be66ccd4ed749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:07 +0000
Subject: [PATCH 110/213] fix: TimeSeries::copyValueRange() missed the newest
 sample of a relative range

---
 src/TimeSeries/TimeSeries.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/TimeSeries/TimeSeries.h b/src/TimeSeries/TimeSeries.h
index 350956a..4f216b0 100644
--- a/src/TimeSeries/TimeSeries.h
+++ b/src/TimeSeries/TimeSeries.h
@@ -495,7 +495,7 @@ template <class T> int8_t TimeSeries<T>::copyValueRange(T* buf, const uint32_t C
     if (COUNT > 0) {
       ret--;
       if (_samples_total >= (COUNT + OFFSET)) {  // Do so many samples exist?
-        const uint32_t PRE_MOD_IDX = (ABS_IDX ? OFFSET : ((windowSize() + OFFSET + _sample_idx) - (COUNT+1)));
+        const uint32_t PRE_MOD_IDX = (ABS_IDX ? OFFSET : ((windowSize() + OFFSET + _sample_idx) - COUNT));
         markClean();  // Do this here (specifically) to minimize concurrency grief.
         // TODO: Inefficient for the sake of expediency. Should be a split copy
         //   and a single modulus operation.
-- 
2.43.0


From 6a80a12d10016cbca4fc098566ac00de229cba50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:32 +0000
Subject: [PATCH 111/213] fix: C3PValue deleted a TimeSeries through an
 incomplete type

The destructor was never run, so the series' sample memory was leaked.
---
 src/C3PValue/C3PType.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/C3PValue/C3PType.cpp b/src/C3PValue/C3PType.cpp
index c986561..6bab340 100644
--- a/src/C3PValue/C3PType.cpp
+++ b/src/C3PValue/C3PType.cpp
@@ -28,6 +28,7 @@ This file contains the implementation of type constraints for our wrapped types.
 #include "KeyValuePair.h"
 #include "../StringBuilder.h"
 #include "../TimerTools/TimerTools.h"
+#include "../TimeSeries/TimeSeries.h"
 
 /* CBOR support should probably be required to parse/pack. */
 #if defined(CONFIG_C3P_CBOR)
-- 
2.43.0


From 9cce4079ed79cf60941f63152ab9ddcf24e35349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:05 +0000
Subject: [PATCH 112/213] fix: a SensorFilter of one sample did not keep its
 sample

Every statistic of the window read as those of an empty one.
---
 src/TimeSeries/SensorFilter.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/TimeSeries/SensorFilter.h b/src/TimeSeries/SensorFilter.h
index 78f1fbe..1e9a82e 100644
--- a/src/TimeSeries/SensorFilter.h
+++ b/src/TimeSeries/SensorFilter.h
@@ -420,8 +420,10 @@ template <class T> int8_t SensorFilter<T>::feedFilter(T val) {
       }
     }
     else {   // This is a null filter with extra steps.
-      last_value = val;
+      samples[0]   = val;
+      last_value   = val;
       _window_full = true;
+      _samples_total++;
       ret = 1;
     }
 
@@ -782,7 +784,10 @@ template <class T> int8_t SensorFilter3<T>::feedFilter(T x, T y, T z) {
       }
     }
     else {   // This is a null filter with extra steps.
+      samples[0](x, y, z);
       last_value(x, y, z);
+      _window_full = true;
+      _samples_total++;
       ret = 1;
     }
 
-- 
2.43.0


From aa2f331a3e5e5e2369db2b2a772e40a4bbb521ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:05 +0000
Subject: [PATCH 113/213] fix: SensorFilter3's rms() and stdev() counted
 samples not yet taken

Both were computed over the zeros of a window that was not full, and then
held as current.
---
 src/TimeSeries/SensorFilter.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/TimeSeries/SensorFilter.h b/src/TimeSeries/SensorFilter.h
index 1e9a82e..5b27b7e 100644
--- a/src/TimeSeries/SensorFilter.h
+++ b/src/TimeSeries/SensorFilter.h
@@ -872,7 +872,7 @@ template <class T> int8_t SensorFilter3<T>::_calculate_mean() {
 */
 template <class T> int8_t SensorFilter3<T>::_calculate_rms() {
   int8_t ret = -1;
-  if (windowSize() > 0) {
+  if (_filter_initd && _window_full) {
     Vector3f64 squared_samples;
     for (uint32_t i = 0; i < _window_size; i++) {
       Vector3f64 tmp((double) samples[i].x, (double) samples[i].y, (double) samples[i].z);
@@ -903,7 +903,7 @@ template <class T> int8_t SensorFilter3<T>::_calculate_rms() {
 */
 template <class T> int8_t SensorFilter3<T>::_calculate_stdev() {
   int8_t ret = -1;
-  if ((_window_size > 1) && (nullptr != samples)) {
+  if ((_window_size > 1) && _filter_initd && _window_full) {
     Vector3f64 deviation_sum;
     if (_stale_mean) _calculate_mean();
     for (uint32_t i = 0; i < _window_size; i++) {
-- 
2.43.0


From decfc072d5935a0a5c0e15a616c015b2f28e8d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:14 +0000
Subject: [PATCH 114/213] fix: a TimeSeries recovers from a resize that failed

A failed windowSize() left the old statistics readable, and neither asking
again for the same size nor init() would bring the series back.
---
 src/TimeSeries/TimeSeries.h | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/src/TimeSeries/TimeSeries.h b/src/TimeSeries/TimeSeries.h
index 4f216b0..412d314 100644
--- a/src/TimeSeries/TimeSeries.h
+++ b/src/TimeSeries/TimeSeries.h
@@ -344,26 +344,21 @@ template <class T> int8_t TimeSeries<T>::feedSeries() {
 */
 template <class T> int8_t TimeSeries<T>::_reallocate_sample_window(uint32_t win) {
   int8_t ret = -1;
-  if (win != _window_size) {
+  if ((win != _window_size) | (nullptr == samples)) {
     if (_self_allocated())  {
       _set_flags(false, TIMESERIES_FLAG_FILTER_INITD);
-      _sample_idx    = 0;
-      _samples_total = 0;
       if (nullptr != samples) {
         free(samples);
         samples = nullptr;
       }
+      _window_size = win;
       if (win > 0) {
         samples = (T*) malloc(win * sizeof(T));
-        if (nullptr != samples) {
-          _window_size = win;
-          ret = _zero_samples();
-        }
-      }
-      else {       // Program asked for no sample depth. Return success, having
-        ret = 0;   //   basically de-initialized the class.
-        _window_size = 0;
       }
+      ret = _zero_samples();   // Fails if there is no sample memory.
+      if (0 == win) {
+        ret = 0;   // Program asked for no sample depth. Return success, having
+      }            //   basically de-initialized the class.
     }
     else {         // We can't reallocate if we were constructed with
       ret--;       //   an external buffer.
-- 
2.43.0


From 14e67611d28ddf8f09543f413e8a741ab030d40b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:14 +0000
Subject: [PATCH 115/213] fix: SensorFilter::median() of a filter without
 memory dereferenced null

---
 src/TimeSeries/SensorFilter.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/TimeSeries/SensorFilter.h b/src/TimeSeries/SensorFilter.h
index 5b27b7e..da70345 100644
--- a/src/TimeSeries/SensorFilter.h
+++ b/src/TimeSeries/SensorFilter.h
@@ -533,8 +533,9 @@ template <class T> double SensorFilter<T>::_calculate_stdev() {
 * @return the median of the contents of the filter.
 */
 template <class T> T SensorFilter<T>::_calculate_median() {
-  T sorted[_window_size];
   T ret = T(0);
+  if (!_filter_initd) {  return ret;  }
+  T sorted[_window_size];
   for (uint32_t i = 0; i < _window_size; i++) {
     sorted[i] = samples[i];
   }
-- 
2.43.0


From bc65e5ee40bf2e96b5930126834fc358314ab8ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:35 +0000
Subject: [PATCH 116/213] fix: the median of two wide integers overflowed

---
 src/TimeSeries/SensorFilter.h |  2 +-
 src/TimeSeries/TimeSeries.h   | 15 ++++++++++++++-
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/TimeSeries/SensorFilter.h b/src/TimeSeries/SensorFilter.h
index da70345..1c32b65 100644
--- a/src/TimeSeries/SensorFilter.h
+++ b/src/TimeSeries/SensorFilter.h
@@ -562,7 +562,7 @@ template <class T> T SensorFilter<T>::_calculate_median() {
     // ...otherwise, we take the mean to the two middle values.
     uint32_t lower = (_window_size-1) >> 1;
     uint32_t upper = lower + 1;
-    ret = (sorted[upper] + sorted[lower]) / 2;
+    ret = mean_of_pair(sorted[lower], sorted[upper]);
   }
   return ret;
 }
diff --git a/src/TimeSeries/TimeSeries.h b/src/TimeSeries/TimeSeries.h
index 412d314..c725e24 100644
--- a/src/TimeSeries/TimeSeries.h
+++ b/src/TimeSeries/TimeSeries.h
@@ -273,6 +273,19 @@ template <class T> class TimeSeries3 : public TimeSeriesBase {
 
 
 
+/**
+* The mean of two values, taken without leaving the range of their type.
+*
+* @param lower must not be greater than upper.
+*/
+template <class T> inline T mean_of_pair(const T lower, const T upper) {
+  if ((lower < T(0)) != (upper < T(0))) {  return (T) ((lower + upper) / 2);  }
+  if (lower < T(0)) {                      return (T) (upper - ((upper - lower) / 2));  }
+  return (T) (lower + ((upper - lower) / 2));
+}
+
+
+
 /*******************************************************************************
 * Single-value variant
 *******************************************************************************/
@@ -634,7 +647,7 @@ template <class T> int8_t TimeSeries<T>::_calculate_median() {
       // ...otherwise, we take the mean to the two middle values.
       uint32_t lower = (_window_size-1) >> 1;
       uint32_t upper = lower + 1;
-      _median = (sorted[upper] + sorted[lower]) / 2;
+      _median = mean_of_pair(sorted[lower], sorted[upper]);
     }
     _set_flags(true, TIMESERIES_FLAG_VALID_MEDIAN);
   }
-- 
2.43.0


From e0fe061c07dc5446d5cd5b3f547adf4044da4189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:58 +0000
Subject: [PATCH 117/213] fix: a SensorFilter resized to nothing kept the
 statistics of its old window

---
 src/TimeSeries/SensorFilter.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/TimeSeries/SensorFilter.h b/src/TimeSeries/SensorFilter.h
index 1c32b65..abb574a 100644
--- a/src/TimeSeries/SensorFilter.h
+++ b/src/TimeSeries/SensorFilter.h
@@ -296,6 +296,7 @@ template <class T> int8_t SensorFilter<T>::_reallocate_sample_window(uint32_t wi
         _filter_initd = (0 == ret);
       }
       else {   // Program asked for no sample depth.
+        _zero_samples();
         ret = 0;
       }
     }
@@ -636,6 +637,7 @@ template <class T> int8_t SensorFilter3<T>::_reallocate_sample_window(uint32_t w
         _filter_initd = (0 == ret);
       }
       else {   // Program asked for no sample depth.
+        _zero_samples();
         ret = 0;
       }
     }
-- 
2.43.0


From 84d84a33d1df10f43eb8b2a0a0889fa6e1a54597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:53 +0000
Subject: [PATCH 118/213] fix: M2MLink keeps the part of a message that the
 transport has yet to take

---
 src/M2MLink/M2MLink.cpp | 38 ++++++++++++++++++++++++++++++++++----
 src/M2MLink/M2MLink.h   |  2 ++
 2 files changed, 36 insertions(+), 4 deletions(-)

diff --git a/src/M2MLink/M2MLink.cpp b/src/M2MLink/M2MLink.cpp
index 4191608..daa371c 100644
--- a/src/M2MLink/M2MLink.cpp
+++ b/src/M2MLink/M2MLink.cpp
@@ -269,6 +269,7 @@ int8_t M2MLink::poll(StringBuilder* log_ret) {
     case M2MLinkState::HUNGUP:
       break;
     default:
+      _flush_output_remainder();
       _process_input_buffer();
       _churn_inbound();
       _churn_outbound();
@@ -423,7 +424,7 @@ bool M2MLink::linkIdle() {
     if (0 == _outbound_messages.size()) {
       if (0 == _inbound_messages.size()) {
         if (nullptr == _working) {
-          return (_inbound_buf.isEmpty());
+          return (_inbound_buf.isEmpty() & _outbound_buf.isEmpty());
         }
       }
     }
@@ -1032,6 +1033,7 @@ int8_t M2MLink::_handle_msg_log(M2MMsg* msg) {
 */
 void M2MLink::_reset_class() {
   _inbound_buf.clear();
+  _outbound_buf.clear();
   _purge_inbound();
   _purge_outbound();
   if (nullptr != _working) {
@@ -1056,10 +1058,38 @@ void M2MLink::_reset_class() {
 }
 
 
+/**
+* The transport is allowed to take only part of what it is offered. What it has
+*   yet to take of a message must precede anything else that is sent to it.
+*
+* @return -2 if the transport has yet to take it all
+*         -1 on error (no transport set)
+*          0 if there is nothing left to send
+*/
+int8_t M2MLink::_flush_output_remainder() {
+  int8_t ret = 0;
+  if (!_outbound_buf.isEmpty()) {
+    ret = -1;
+    if (nullptr != _efferant) {
+      if (1 == _efferant->pushBuffer(&_outbound_buf)) {
+        _outbound_buf.clear();
+      }
+      ret = (_outbound_buf.isEmpty()) ? 0 : -2;
+      if (0 == ret) {
+        _ms_last_send = millis();
+      }
+    }
+  }
+  return ret;
+}
+
+
 /**
 * Calling this function with the ID of a message we previously sent will cause
 *   that message to be released from the outbound queue, and is tantamount to
 *   satisfying the reply.
+* If the transport takes only part of the buffer, the link retains the rest, and
+*   the buffer is considered to have been sent.
 *
 * @param buf The StringBuilder containing the bytes to send to the transport.
 * @return -2 on error (transport rejected data)
@@ -1077,9 +1107,9 @@ int8_t M2MLink::_relay_to_output_target(StringBuilder* buf) {
       c3p_log(LOG_LEV_INFO, __PRETTY_FUNCTION__, &tmp_log);
     }
 
-    switch (_efferant->pushBuffer(buf)) {
+    switch ((0 == _flush_output_remainder()) ? _efferant->pushBuffer(buf) : -1) {
       case 0:
-        buf->clear();  // If the BufferPipe didn't claim the buffer, clear it.
+        _outbound_buf.concatHandoff(buf);  // Retain what wasn't taken.
         // NOTE: No break;
       case 1:
         _ms_last_send = millis();
@@ -1573,7 +1603,7 @@ int8_t M2MLink::_fsm_poll() {
     // Exit conditions: The outbound queue is empty, and at least one HANGUP
     //   message has been sent, and either ACK'd or given up on.
     case M2MLinkState::PENDING_HANGUP:
-      if (!_outbound_messages.hasNext()) {
+      if (!_outbound_messages.hasNext() & _outbound_buf.isEmpty()) {
         fsm_advance = _flags.value(M2MLINK_FLAG_HANGUP_TXD);
       }
       break;
diff --git a/src/M2MLink/M2MLink.h b/src/M2MLink/M2MLink.h
index 95214cc..2815fb6 100644
--- a/src/M2MLink/M2MLink.h
+++ b/src/M2MLink/M2MLink.h
@@ -534,6 +534,7 @@ class M2MLink : public StateMachine<M2MLinkState>, public BufferCoDec {
     M2MLinkCB       _lnk_callback   = nullptr;  // The application-provided callback for state changes.
     M2MMsgCB        _msg_callback   = nullptr;  // The application-provided callback for incoming messages.
     StringBuilder   _inbound_buf;   // TODO: Replace with a RingBuffer<uint8_t> and finally resolve the MTU feature.
+    StringBuilder   _outbound_buf;  // The part of a sent message that the transport has yet to take.
     StringBuilder   _remote_log;
 
     /* Message queue management */
@@ -549,6 +550,7 @@ class M2MLink : public StateMachine<M2MLinkState>, public BufferCoDec {
 
     /* Buffers, parsing, and scattered low-level functions */
     void   _reset_class();
+    int8_t _flush_output_remainder();
     int8_t _relay_to_output_target(StringBuilder*);
     int8_t _invoke_msg_callback(M2MMsg*);
     int8_t _offer_msg_to_service(uint8_t slot, M2MMsg*);
-- 
2.43.0


From e876ed4a35eaeddedf79853adad16d6ac94a3679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:18 +0000
Subject: [PATCH 119/213] fix: a hangup that is already planned is not planned
 again

---
 src/M2MLink/M2MLink.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/M2MLink/M2MLink.cpp b/src/M2MLink/M2MLink.cpp
index daa371c..d138eab 100644
--- a/src/M2MLink/M2MLink.cpp
+++ b/src/M2MLink/M2MLink.cpp
@@ -316,7 +316,10 @@ int8_t M2MLink::hangup(bool graceful) {
     case M2MLinkState::LIVE:
       forced_hangup = !graceful;
       if (graceful) {
-        ret = _fsm_append_route(2, M2MLinkState::PENDING_HANGUP, M2MLinkState::HUNGUP);
+        ret = -2;
+        if (!_fsm_state_planned(M2MLinkState::HUNGUP)) {
+          ret = _fsm_append_route(2, M2MLinkState::PENDING_HANGUP, M2MLinkState::HUNGUP);
+        }
       }
       break;
 
@@ -756,7 +759,9 @@ int8_t M2MLink::_churn_inbound() {
             if (0 == _send_msg(temp)) {
               gc_message = false;
               _flags.set(M2MLINK_FLAG_HANGUP_RXD);
-              _fsm_append_route(2, M2MLinkState::PENDING_HANGUP, M2MLinkState::HUNGUP);
+              if (!_fsm_state_planned(M2MLinkState::HUNGUP)) {
+                _fsm_append_route(2, M2MLinkState::PENDING_HANGUP, M2MLinkState::HUNGUP);
+              }
             }
           }
           if (gc_message & (_verbosity >= LOG_LEV_ERROR)) {
-- 
2.43.0


From deb5af65864ad68fb41d30fddacc5587bdb8a919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:46 +0000
Subject: [PATCH 120/213] fix: GPSWrapper judges each line on its own, however
 the bytes arrive

Splitting on the line ending loses it: A line that was the last of a
buffer was taken to be incomplete, and was then run together with the
line that followed. One good sentence in a batch also caused the rest of
the batch to be counted (and reported) as good.
---
 .../BufferAccepter/GPSWrapper/GPSWrapper.cpp  | 27 ++++++++++++-------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp b/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp
index c878c85..6f1d90a 100644
--- a/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp
+++ b/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp
@@ -219,14 +219,24 @@ enum minmea_sentence_id GPSWrapper::_sentence_id(const char *sentence, bool stri
 
 
 bool GPSWrapper::_attempt_parse() {
-  if (_accumulator.split("\n") == 0) return false;
-  char* line = nullptr;
-  bool local_success = false;
-  bool emit_callback = false;
-
-  // Always assume that the last token in the accumulator is an incomplete line.
-  while (_accumulator.count() > 1) {
-    line = _accumulator.position(0);
+  int line_end = _accumulator.locate("\n");
+
+  // Whatever follows the last line ending is an incomplete line.
+  while (0 <= line_end) {
+    const int LINE_LEN = (line_end + 1);
+    char line[MINMEA_MAX_LENGTH + 4];
+    // Anything too long for this buffer is too long to be a sentence.
+    const int COPY_LEN = (LINE_LEN < (int) sizeof(line)) ? LINE_LEN : 0;
+    _accumulator.copyToBuffer((uint8_t*) line, COPY_LEN);
+    line[COPY_LEN] = '\0';
+    _accumulator.cull(LINE_LEN);
+    line_end = _accumulator.locate("\n");
+    if (1 == LINE_LEN) {
+      continue;   // Blank lines count for nothing.
+    }
+
+    bool local_success = false;
+    bool emit_callback = false;
     enum minmea_sentence_id id = _sentence_id(line, false);
     switch (id) {
       case MINMEA_SENTENCE_GSA:
@@ -348,7 +358,6 @@ bool GPSWrapper::_attempt_parse() {
       _sentences_rejected++;
       //_log.concatf("$xx%s sentence is not parsed: \n%s\n", _get_string_by_sentence_id(id), (const char*) line);
     }
-    _accumulator.drop_position(0);
   }
   return true;
 }
-- 
2.43.0


From 85d22f378691f38cd108c3b4a35a0531970c3bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:46 +0000
Subject: [PATCH 121/213] fix: noise without a line ending left GPSWrapper with
 no room for anything else

And the number of bytes to throw away was taken from before the parse,
so that a long buffer cost the incomplete line at the end of it.
---
 src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp b/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp
index 6f1d90a..c0ba674 100644
--- a/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp
+++ b/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp
@@ -139,6 +139,7 @@ static inline float minmea_tocoord(struct minmea_float *f) {
 * GPS-specific functions                                                       *
 *******************************************************************************/
 #define GPSWRAPPER_MAX_ACCUMULATOR_LEN   1024
+#define GPSWRAPPER_MAX_INCOMPLETE_LEN    (MINMEA_MAX_LENGTH + 4)
 
 /**
 * Takes a buffer from outside of this class. Typically a comm port.
@@ -149,13 +150,16 @@ static inline float minmea_tocoord(struct minmea_float *f) {
 */
 int8_t GPSWrapper::pushBuffer(StringBuilder* buf) {
   _accumulator.concatHandoff(buf);
-  const int32_t ACC_LEN = _accumulator.length();
-  if (MINMEA_MAX_LENGTH < ACC_LEN) {
+  if (MINMEA_MAX_LENGTH < _accumulator.length()) {
     _attempt_parse();
   }
 
-  if (ACC_LEN > GPSWRAPPER_MAX_ACCUMULATOR_LEN) {
-    _accumulator.cull(ACC_LEN - GPSWRAPPER_MAX_ACCUMULATOR_LEN);
+  // An incomplete line that is already too long will be rejected when it ends.
+  //   Until then, enough of it is kept to know that it was too long, so that
+  //   there is always room for what might follow it.
+  const int32_t ACC_LEN = _accumulator.length();
+  if (ACC_LEN > GPSWRAPPER_MAX_INCOMPLETE_LEN) {
+    _accumulator.cull(ACC_LEN - GPSWRAPPER_MAX_INCOMPLETE_LEN);
   }
   return 1;
 }
-- 
2.43.0


From 67a2d13ed1155c5d0490a0894595f2d83f91f2bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:46 +0000
Subject: [PATCH 122/213] fix: GPSWrapper reported the unknown altitudes and
 speeds of a receiver without a fix

---
 src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp b/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp
index c0ba674..0d91c68 100644
--- a/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp
+++ b/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp
@@ -292,9 +292,11 @@ bool GPSWrapper::_attempt_parse() {
           struct minmea_sentence_gga frame;
           if (_parse_gga(&frame, line)) {
             _loc_frame.sat_count = frame.satellites_tracked;
-            switch (frame.altitude_units) {
-              case 'M': _loc_frame.altitude = (int) (minmea_tofloat(&frame.altitude) * 1000.0);   break;
-              default:  break;
+            if (0 != frame.altitude.scale) {   // Unknown without a fix.
+              switch (frame.altitude_units) {
+                case 'M': _loc_frame.altitude = (int) (minmea_tofloat(&frame.altitude) * 1000.0);   break;
+                default:  break;
+              }
             }
             //_log.concatf("$xxGGA: fix quality: %d\n", frame.fix_quality);
             local_success = true;
@@ -342,7 +344,9 @@ bool GPSWrapper::_attempt_parse() {
           struct minmea_sentence_vtg frame;
           if (_parse_vtg(&frame, line)) {
             _loc_frame.mag_bearing = minmea_tofloat(&frame.magnetic_track_degrees);
-            _loc_frame.speed       = (minmea_tofloat(&frame.speed_kph) * 1000000) / 3600;  // Convert to mm/sec
+            if (0 != frame.speed_kph.scale) {   // Unknown without a fix.
+              _loc_frame.speed     = (minmea_tofloat(&frame.speed_kph) * 1000000) / 3600;  // Convert to mm/sec
+            }
             local_success = true;
             emit_callback = true;
           }
-- 
2.43.0


From 39fdd91c9cb739628dcace3985764a0767d1ff43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:46 +0000
Subject: [PATCH 123/213] fix: GPS coordinates with many decimal places
 overflowed

---
 src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp b/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp
index 0d91c68..2760a2f 100644
--- a/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp
+++ b/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp
@@ -128,9 +128,12 @@ static inline float minmea_tofloat(struct minmea_float *f) {
 */
 static inline float minmea_tocoord(struct minmea_float *f) {
   if (f->scale == 0) {     return NAN;     }
-  int_least32_t degrees = f->value / (f->scale * 100);
-  int_least32_t minutes = f->value % (f->scale * 100);
-  return (float) degrees + (float) minutes / (60 * f->scale);
+  // Near to the equator and the meridian, there are digits to spare for a scale
+  //   that won't tolerate being multiplied in 32 bits.
+  const int64_t DEG_SCALE = ((int64_t) f->scale * 100);
+  int_least32_t degrees = (int_least32_t) (f->value / DEG_SCALE);
+  int_least32_t minutes = (int_least32_t) (f->value % DEG_SCALE);
+  return (float) degrees + (float) minutes / (float) ((int64_t) f->scale * 60);
 }
 
 
-- 
2.43.0


From 1957840af3ffe597f941acb35afb595650bcac18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:46 +0000
Subject: [PATCH 124/213] fix: GPSWrapper took the UTC time of the receiver to
 be local time

---
 .../BufferAccepter/GPSWrapper/GPSWrapper.cpp  | 30 +++++++++----------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp b/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp
index 2760a2f..b08f294 100644
--- a/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp
+++ b/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp
@@ -897,21 +897,21 @@ bool GPSWrapper::_parse_vtg(struct minmea_sentence_vtg *frame, const char *sente
 
 int GPSWrapper::_gettime(struct timespec *ts, const struct minmea_date* dval, const struct minmea_time* tval) {
   if (dval->year != -1 && tval->hours != -1) {
-    struct tm tm;
-    memset(&tm, 0, sizeof(tm));
-    tm.tm_year = 2000 + dval->year - 1900;
-    tm.tm_mon  = dval->month - 1;
-    tm.tm_mday = dval->day;
-    tm.tm_hour = tval->hours;
-    tm.tm_min  = tval->minutes;
-    tm.tm_sec  = tval->seconds;
-
-    //time_t timestamp = timegm(&tm); /* See README.md if your system lacks timegm(). */
-    time_t timestamp = mktime(&tm); /* See README.md if your system lacks timegm(). */
-    if (timestamp != -1) {
-      ts->tv_sec = timestamp;
-      ts->tv_nsec = tval->microseconds * 1000;
-      return 0;
+    // The time is UTC, so mktime() won't do (it assumes local time), and not
+    //   every platform has timegm().
+    const int DAYS_BEFORE_MONTH[12] = {0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334};
+    if ((dval->month >= 1) && (dval->month <= 12)) {
+      // Every fourth year from 2000 to 2099 is a leap year.
+      int64_t timestamp = 10957;    // Days from the UNIX epoch to 2000.01.01.
+      timestamp += (dval->year * 365) + ((dval->year + 3) / 4);
+      timestamp += DAYS_BEFORE_MONTH[dval->month - 1] + (dval->day - 1);
+      timestamp += (((dval->year & 0x03) == 0) && (dval->month > 2)) ? 1 : 0;
+      timestamp = (timestamp * 86400) + (tval->hours * 3600) + (tval->minutes * 60) + tval->seconds;
+      ts->tv_sec = (time_t) timestamp;
+      if (timestamp == ts->tv_sec) {   // Not every platform's time_t is good past 2038.
+        ts->tv_nsec = tval->microseconds * 1000;
+        return 0;
+      }
     }
   }
   return -1;
-- 
2.43.0


From cbf264583f4d9fe896704067cc49f66847a8e654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:50 +0000
Subject: [PATCH 125/213] fix: TripleAxisTerminus: an accepted vector is not
 reported as refused

---
 src/Pipes/TripleAxisPipe/TripleAxisPipe.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Pipes/TripleAxisPipe/TripleAxisPipe.cpp b/src/Pipes/TripleAxisPipe/TripleAxisPipe.cpp
index 3c9906b..318a6ce 100644
--- a/src/Pipes/TripleAxisPipe/TripleAxisPipe.cpp
+++ b/src/Pipes/TripleAxisPipe/TripleAxisPipe.cpp
@@ -183,6 +183,7 @@ int8_t TripleAxisTerminus::getDataWithErr(Vector3f* d, Vector3f* e, uint32_t* c)
 FAST_FUNC int8_t TripleAxisTerminus::pushVector(const SpatialSense s, Vector3f* data, Vector3f* error) {
   int8_t ret = -1;
   if (_SENSE == s) {
+    ret = 0;
     _last_update = millis();
     _update_count++;
     _DATA.set(data);
-- 
2.43.0


From 9819596e612effc44577c0bb0e1318e15d3e822b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:50 +0000
Subject: [PATCH 126/213] fix: TripleAxisTerminus: a vector without an error
 figure does not inherit the last one

---
 src/Pipes/TripleAxisPipe/TripleAxisPipe.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Pipes/TripleAxisPipe/TripleAxisPipe.cpp b/src/Pipes/TripleAxisPipe/TripleAxisPipe.cpp
index 318a6ce..20b7387 100644
--- a/src/Pipes/TripleAxisPipe/TripleAxisPipe.cpp
+++ b/src/Pipes/TripleAxisPipe/TripleAxisPipe.cpp
@@ -187,9 +187,9 @@ FAST_FUNC int8_t TripleAxisTerminus::pushVector(const SpatialSense s, Vector3f*
     _last_update = millis();
     _update_count++;
     _DATA.set(data);
-    if (nullptr != error) {
+    _has_error = (nullptr != error);   // The error figure belongs to its own vector.
+    if (_has_error) {
       _ERR.set(error);
-      _has_error = true;
     }
     if (nullptr != _CALLBACK) {
       _fresh_data = (0 != _CALLBACK(_SENSE, &_DATA, (_has_error ? &_ERR : nullptr), _update_count));
-- 
2.43.0


From 1305bcdd1dd7012de24c1b76252afbad9ca65519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:50 +0000
Subject: [PATCH 127/213] fix: TripleAxisFork: asynchronous success is success

---
 src/Pipes/TripleAxisPipe/TripleAxisPipe.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Pipes/TripleAxisPipe/TripleAxisPipe.cpp b/src/Pipes/TripleAxisPipe/TripleAxisPipe.cpp
index 20b7387..00cc93a 100644
--- a/src/Pipes/TripleAxisPipe/TripleAxisPipe.cpp
+++ b/src/Pipes/TripleAxisPipe/TripleAxisPipe.cpp
@@ -53,10 +53,10 @@ const char* TripleAxisPipe::spatialSenseStr(SpatialSense s) {
 */
 FAST_FUNC int8_t TripleAxisFork::pushVector(const SpatialSense s, Vector3f* data, Vector3f* error) {
   int8_t ret = -2;
-  if ((nullptr != _LEFT) && (0 == _LEFT->pushVector(s, data, error))) {
+  if ((nullptr != _LEFT) && (0 <= _LEFT->pushVector(s, data, error))) {
     ret++;
   }
-  if ((nullptr != _RIGHT) && (0 == _RIGHT->pushVector(s, data, error))) {
+  if ((nullptr != _RIGHT) && (0 <= _RIGHT->pushVector(s, data, error))) {
     ret++;
   }
   return ret;
-- 
2.43.0


From 91429acd5ccd764518e5c0e9fadf419d463aec1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:50 +0000
Subject: [PATCH 128/213] fix: TripleAxisConvention: return the code from
 downstream, as documented

---
 src/Pipes/TripleAxisPipe/TripleAxisPipe.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/Pipes/TripleAxisPipe/TripleAxisPipe.cpp b/src/Pipes/TripleAxisPipe/TripleAxisPipe.cpp
index 00cc93a..f4ea340 100644
--- a/src/Pipes/TripleAxisPipe/TripleAxisPipe.cpp
+++ b/src/Pipes/TripleAxisPipe/TripleAxisPipe.cpp
@@ -94,7 +94,6 @@ FAST_FUNC int8_t TripleAxisConvention::pushVector(const SpatialSense s, Vector3f
   float inversion = 1.0;
   int8_t ret = -2;
   if (nullptr != _NXT) {
-    ret++;
     switch (_SRC_FMT) {
       case GnomonType::RH_NEG_X:
       case GnomonType::LH_POS_X:
@@ -128,9 +127,7 @@ FAST_FUNC int8_t TripleAxisConvention::pushVector(const SpatialSense s, Vector3f
         }
         break;
     }
-    if (0 == _NXT->pushVector(s, &stacked_dat, (nullptr != error) ? &stacked_err : nullptr)) {
-      ret = 0;
-    }
+    ret = _NXT->pushVector(s, &stacked_dat, (nullptr != error) ? &stacked_err : nullptr);
   }
   return ret;
 }
-- 
2.43.0


From b791df11cbbb960ec51d4e8c86435bd0f68286cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:50 +0000
Subject: [PATCH 129/213] fix: TripleAxisSingleFilter: accept a vector without
 an error figure, and pass none on

---
 src/Pipes/TripleAxisPipe/TripleAxisPipe.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/Pipes/TripleAxisPipe/TripleAxisPipe.cpp b/src/Pipes/TripleAxisPipe/TripleAxisPipe.cpp
index f4ea340..d6adf77 100644
--- a/src/Pipes/TripleAxisPipe/TripleAxisPipe.cpp
+++ b/src/Pipes/TripleAxisPipe/TripleAxisPipe.cpp
@@ -268,14 +268,17 @@ FAST_FUNC int8_t TripleAxisSingleFilter::pushVector(const SpatialSense s, Vector
   if (initialized()) {
     ret = -1;
     if (_SENSE == s) {
-      Vector3f tmp_err(error);
+      Vector3f tmp_err;
+      if (nullptr != error) {
+        tmp_err.set(error);
+      }
       ret = 0;
       switch (feedFilter(data)) {
         case 0:    // Value accepted into filter. No new result.
           break;
         case 1:    // Value accepted into filter. New result ready.
-          if (nullptr != error) {
-            _has_error = true;
+          _has_error = (nullptr != error);
+          if (_has_error) {
             switch (strategy()) {
               case FilteringStrategy::RAW:
                 _ERR.set(&tmp_err);
@@ -304,7 +307,7 @@ FAST_FUNC int8_t TripleAxisSingleFilter::pushVector(const SpatialSense s, Vector
           if (nullptr != _NXT) {
             // If the vector was pushed downstream, we consider it noted. If it
             //   was rejected, we leave the class marked dirty.
-            _filter_dirty = (0 > _NXT->pushVector(s, value(), &_ERR));
+            _filter_dirty = (0 > _NXT->pushVector(s, value(), (_has_error ? &_ERR : nullptr)));
           }
           break;
         default:   // Catch-all error case. Should never happen with the earlier init().
-- 
2.43.0


From 3f054680bf5e1a96028170119442dfeb064b4bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:50 +0000
Subject: [PATCH 130/213] fix: TripleAxisSingleFilter: relay only if there is a
 next stage, and report what it says

---
 src/Pipes/TripleAxisPipe/TripleAxisPipe.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Pipes/TripleAxisPipe/TripleAxisPipe.cpp b/src/Pipes/TripleAxisPipe/TripleAxisPipe.cpp
index d6adf77..f3d89cb 100644
--- a/src/Pipes/TripleAxisPipe/TripleAxisPipe.cpp
+++ b/src/Pipes/TripleAxisPipe/TripleAxisPipe.cpp
@@ -317,8 +317,8 @@ FAST_FUNC int8_t TripleAxisSingleFilter::pushVector(const SpatialSense s, Vector
     }
     else {
       // We blindly relay vectors of SpatialSense's we aren't configured for.
-      if (0 == _NXT->pushVector(s, data, error)) {
-        ret = -5;
+      if (nullptr != _NXT) {
+        ret = _NXT->pushVector(s, data, error);
       }
     }
   }
-- 
2.43.0


From cc6d888b6d3e2a87e81f93b1135d0487d021c65d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:52 +0000
Subject: [PATCH 131/213] fix: Identity::fromBuffer() refuses a record whose
 name or UUID runs past the buffer

---
 src/Identity/Identity.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/Identity/Identity.cpp b/src/Identity/Identity.cpp
index 3d2b991..a661d9a 100644
--- a/src/Identity/Identity.cpp
+++ b/src/Identity/Identity.cpp
@@ -114,7 +114,13 @@ Identity* Identity::fromBuffer(uint8_t* buf, int len) {
           // TODO: Ill-conceived? Why persist a hardware serial number???
           break;
         case IdentFormat::UUID:
-          return_value = (Identity*) new IdentityUUID(buf, (uint16_t) len);
+          {
+            // The name must end within the buffer, and the UUID must follow it.
+            const uint8_t* nul = (const uint8_t*) memchr(buf, 0, len);
+            if ((nullptr != nul) && ((len - (int) (nul - buf) - 1) >= (int) sizeof(UUID))) {
+              return_value = (Identity*) new IdentityUUID(buf, (uint16_t) len);
+            }
+          }
           break;
         case IdentFormat::L2_MAC:
           // TODO: This
-- 
2.43.0


From e237808f0b3dd5aef215e8a1bfc8359c1e75449a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:52 +0000
Subject: [PATCH 132/213] fix: Identity::getIdentity() compares names, rather
 than the addresses of them

---
 src/Identity/Identity.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Identity/Identity.cpp b/src/Identity/Identity.cpp
index a661d9a..4976130 100644
--- a/src/Identity/Identity.cpp
+++ b/src/Identity/Identity.cpp
@@ -307,7 +307,7 @@ Identity* Identity::getIdentity(IdentFormat fmt) {
 * @return     An instance of Identity that is of the given format.
 */
 Identity* Identity::getIdentity(const char* nom) {
-  if (nom == _handle) {  // TODO: Direct comparison won't work here.
+  if ((nullptr != nom) && (0 == strcmp(nom, getHandle()))) {
     return this;
   }
   else if (_next) {
-- 
2.43.0


From 318a70d687b4a650bf58f088f781bb7a58938e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:32 +0000
Subject: [PATCH 133/213] fix: Identity: a name that couldn't be kept isn't
 counted in length()

---
 src/Identity/Identity.cpp     | 3 +++
 src/Identity/IdentityUUID.cpp | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Identity/Identity.cpp b/src/Identity/Identity.cpp
index 4976130..0506c07 100644
--- a/src/Identity/Identity.cpp
+++ b/src/Identity/Identity.cpp
@@ -223,6 +223,9 @@ Identity::Identity(const char* nom, IdentFormat _f) {
     // Also copies the required null-terminator.
     for (int i = 0; i < _ident_len+1; i++) *(_handle + i) = *(nom+i);
   }
+  else {
+    _ident_len = 0;   // A name that couldn't be kept won't be serialized.
+  }
   _ident_len += IDENTITY_BASE_PERSIST_LENGTH;
 }
 
diff --git a/src/Identity/IdentityUUID.cpp b/src/Identity/IdentityUUID.cpp
index 44b9fcc..4ef956a 100644
--- a/src/Identity/IdentityUUID.cpp
+++ b/src/Identity/IdentityUUID.cpp
@@ -47,7 +47,7 @@ IdentityUUID::IdentityUUID(const char* nom, char* uuid_str) : Identity(nom, Iden
 
 
 IdentityUUID::IdentityUUID(uint8_t* buf, uint16_t len) : Identity((const char*) buf, IdentFormat::UUID) {
-  const int offset = _ident_len-5;
+  const int offset = strlen((const char*) buf) + 1;   // The UUID follows the name.
   if ((len - offset) >= 16) {
     // If there are at least 16 non-string bytes left in the buffer...
     for (int i = 0; i < 16; i++) *(((uint8_t*)&uuid.id) + i) = *(buf + i + offset);
-- 
2.43.0


From 45b5d29f855580045228e0294ccab055706a3452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:02 +0000
Subject: [PATCH 134/213] fix: C3PLogger: printTime(), printSeverity() and
 printTag() set their own flags

---
 src/C3PLogger.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/C3PLogger.h b/src/C3PLogger.h
index fa4a05b..d870f4d 100644
--- a/src/C3PLogger.h
+++ b/src/C3PLogger.h
@@ -67,9 +67,9 @@ class C3PLogger {
     inline bool    printSeverity() {         return _class_flag(LOGGER_FLAG_PRINT_LEVEL);    };
     inline bool    printTime() {             return _class_flag(LOGGER_FLAG_PRINT_TIME);     };
     inline bool    printTag() {              return _class_flag(LOGGER_FLAG_PRINT_TAG);      };
-    inline void    printSeverity(bool x) {   _class_set_flag(LOGGER_FLAG_PRINT_LEVEL, x);    };
-    inline void    printTime(bool x) {       _class_set_flag(LOGGER_FLAG_PRINT_TIME, x);     };
-    inline void    printTag(bool x) {        _class_set_flag(LOGGER_FLAG_PRINT_TAG, x);      };
+    inline void    printSeverity(bool x) {   _class_set_flag(x, LOGGER_FLAG_PRINT_LEVEL);    };
+    inline void    printTime(bool x) {       _class_set_flag(x, LOGGER_FLAG_PRINT_TIME);     };
+    inline void    printTag(bool x) {        _class_set_flag(x, LOGGER_FLAG_PRINT_TAG);      };
 
 
   private:
-- 
2.43.0


From 65bf3bab97b8b25d1890f45e4f0b7e9a5224dfda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:21 +0000
Subject: [PATCH 135/213] fix: C3PLogger: pad the tag column to the longest
 tag, and truncate what exceeds the limit

---
 src/AbstractPlatform.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/AbstractPlatform.cpp b/src/AbstractPlatform.cpp
index c304078..ed67e8e 100644
--- a/src/AbstractPlatform.cpp
+++ b/src/AbstractPlatform.cpp
@@ -446,14 +446,13 @@ int8_t C3PLogger::print(uint8_t severity, const char* tag, StringBuilder* msg) {
     if (printTime()) {       line.concatf("%10u ", millis());                 }
     if (printSeverity()) {   line.concat(c3p_log_severity_string(severity));  }
     if (printTag()) {
-      const uint8_t TAG_LEN = (uint8_t) strlen(tag);
-      if (_tag_ident < LOG_TAG_MAX_LEN) {
-        _tag_ident = strict_min(_tag_ident, strict_min((uint8_t) LOG_TAG_MAX_LEN, TAG_LEN));
-      }
+      // The column is as wide as the longest tag so far.
+      const uint8_t TAG_LEN = (uint8_t) strict_min((uint32_t) LOG_TAG_MAX_LEN, (uint32_t) strlen(tag));
+      _tag_ident = strict_max(_tag_ident, TAG_LEN);
       const uint32_t MAX_FMT_STR_SZ = 12;
       char ufmt_str[MAX_FMT_STR_SZ];
       memset(ufmt_str, 0, MAX_FMT_STR_SZ);
-      sprintf(ufmt_str, "%%%ds ", _tag_ident);
+      sprintf(ufmt_str, "%%%d.%ds ", _tag_ident, LOG_TAG_MAX_LEN);
       line.concatf(ufmt_str, tag);
     }
     line.concatHandoff(msg);
-- 
2.43.0


From 1c1220ec285e16f49f3686368a7b67313a9b56e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:33 +0000
Subject: [PATCH 136/213] fix: C3PLogger: keep the part of the log that its
 sink did not claim, and its order

---
 src/AbstractPlatform.cpp | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/src/AbstractPlatform.cpp b/src/AbstractPlatform.cpp
index ed67e8e..16ff8c8 100644
--- a/src/AbstractPlatform.cpp
+++ b/src/AbstractPlatform.cpp
@@ -479,18 +479,13 @@ int8_t C3PLogger::print(uint8_t severity, const char* tag, StringBuilder* msg) {
 * @param log_line is the new item to append to the log.
 */
 void C3PLogger::_store_or_forward(StringBuilder* log_line) {
-  bool store_to_buffer = true;
   if (nullptr != _sink) {
-    bool backlog_remaining = !_log.isEmpty();
-    if (backlog_remaining) {
-      backlog_remaining = (0 != _sink->pushBuffer(&_log));
-    }
-    if (!backlog_remaining && (0 == _sink->pushBuffer(log_line))) {
-      // NOTE: Short-circuit evaluation above is important for ordering.
-      store_to_buffer = false;
-    }
+    // The sink might claim only part of what it is offered. The line is offered
+    //   only after all that precedes it has been claimed.
+    if (!_log.isEmpty()) {  _sink->pushBuffer(&_log);     }
+    if (_log.isEmpty()) {   _sink->pushBuffer(log_line);  }
   }
-  if (store_to_buffer) {
+  if (!log_line->isEmpty()) {
     _log.concatHandoff(log_line);
   }
 }
-- 
2.43.0


From 50e08ee978f1d1ac645ff301995a5e3a5e590ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:52 +0000
Subject: [PATCH 137/213] fix: stringToTimestamp() counts the leap day of every
 prior leap year

---
 src/CppPotpourri.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CppPotpourri.cpp b/src/CppPotpourri.cpp
index 9fd5626..03c2fa8 100644
--- a/src/CppPotpourri.cpp
+++ b/src/CppPotpourri.cpp
@@ -79,7 +79,7 @@ uint64_t stringToTimestamp(const char* str) {
 
   if (year >= 1972) {
     // Check for leap year.
-    days += ((year - 1972) >> 2);  // Extra days caused by leap-years.
+    days += ((year - 1969) >> 2);  // Extra days caused by leap-years prior to this one.
     if ((((year - 1972) % 4) == 0) && (month > 2)) {
       // If it is at-least March of this year, and this year is a leap-year, add another 86400.
       days++;
-- 
2.43.0


From 5f25026eb4ee161c09c3c836441818a64fec544c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:54 +0000
Subject: [PATCH 138/213] fix: stringToTimestamp() refuses a day of zero, and
 negative hours and minutes

---
 src/CppPotpourri.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CppPotpourri.cpp b/src/CppPotpourri.cpp
index 03c2fa8..cd04e65 100644
--- a/src/CppPotpourri.cpp
+++ b/src/CppPotpourri.cpp
@@ -71,7 +71,7 @@ uint64_t stringToTimestamp(const char* str) {
   //printf("%d-%d-%u %d:%d:%u\n",year, month, days, hour, minute, seconds);
 
   // Boundary-checks
-  if ((days > 31) || (month > 12) || (year < 1970) || (seconds > 59) || (minute > 59) || (hour > 23)) {
+  if ((days < 1) || (days > 31) || (month > 12) || (year < 1970) || (seconds > 59) || (minute < 0) || (minute > 59) || (hour < 0) || (hour > 23)) {
     // All of these conditions are bad.
     // NOTE: we ignore the possibility of some other system calling midnight "24:00".
     return 0;
-- 
2.43.0


From 496e4cceead926368e189f68cba5d92b7645c4fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:40 +0000
Subject: [PATCH 139/213] fix: C3P_pRNG::init() keeps the times that seed it
 from cancelling each other

---
 src/CppPotpourri.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/CppPotpourri.cpp b/src/CppPotpourri.cpp
index cd04e65..4029b2b 100644
--- a/src/CppPotpourri.cpp
+++ b/src/CppPotpourri.cpp
@@ -278,9 +278,10 @@ int8_t C3P_pRNG::init(const uint64_t SEED) {
   uint64_t safe_seed = SEED;
   if (0 == SEED) {
     // Seed the PRNG from the program start time.
-    safe_seed = (uint64_t) micros() | (((uint64_t) micros()) << 32);
+    // NOTE: The two readings are kept apart, since they would otherwise cancel.
+    safe_seed = (uint64_t) ((uint32_t) micros());
     sleep_ms(1);  // Incorporate jitter.
-    safe_seed = safe_seed ^ ((((uint64_t) micros()) << 32) | (uint64_t) micros());
+    safe_seed = safe_seed | (((uint64_t) micros()) << 32);
   }
   _pcg32_srandom(safe_seed, 7);
   return 0;
-- 
2.43.0


From 18bbc9a0f397f4feb45938e9774ed211f891768b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:42 +0000
Subject: [PATCH 140/213] fix: haversineDistance() returns the distance, and
 not half of it

---
 src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp b/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp
index b08f294..e1036ff 100644
--- a/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp
+++ b/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp
@@ -82,7 +82,8 @@ int32_t GPSWrapper::haversineDistance(LocationFrame* p0, LocationFrame* p1) {
   double half_delta_theta  = sin(delta_theta / 2);
   double half_delta_lambda = sin(delta_lambda / 2);
   double haversine_angle   = (half_delta_theta * half_delta_theta) + cos(theta0) * cos(theta1) * (half_delta_lambda * half_delta_lambda);
-  double haversine_arctan  = atan2(sqrt(haversine_angle), sqrt(1 - haversine_angle));
+  if (haversine_angle > 1.0) haversine_angle = 1.0;   // Antipodes can round beyond the end of the domain.
+  double haversine_arctan  = 2.0 * atan2(sqrt(haversine_angle), sqrt(1.0 - haversine_angle));
   ret = (int32_t) (MEAN_RADIUS_OF_EARTH * haversine_arctan);
   return ret;
 }
-- 
2.43.0


From 4894ddc04deb96dec1f48095474537fb5b1f4259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:51 +0000
Subject: [PATCH 141/213] fix: LocationFrame::printDebug() prints the
 satellites, and not the top of the timestamp

---
 src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp b/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp
index e1036ff..06f921f 100644
--- a/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp
+++ b/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp
@@ -38,7 +38,7 @@ extern "C" {
 *******************************************************************************/
 
 void LocationFrame::printDebug(StringBuilder* output) {
-  output->concatf("\tTimestamp: %u\n\tSat count: %u\n", timestamp, sat_count);
+  output->concatf("\tTimestamp: %u\n\tSat count: %u\n", (uint32_t) timestamp, sat_count);
   output->concatf("\t(%.6f, %.6f) heading %.2f at %u m/s\n", (double) lat, (double) lon, (double) mag_bearing, (speed / 1000));
   output->concatf("\tDOP horiz: %.3f\n\tDOP vert:  %.3f\n", (double) dop_horiz, (double) dop_vert);
 }
-- 
2.43.0


From c8f24950d856d0a8160d43d99c9688ef7e6ba26a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:37 +0000
Subject: [PATCH 142/213] fix: Image refuses pixels that are not within its
 buffer, and setPixel() says whether it set one

---
 src/Image/Image.cpp | 14 ++++++++------
 src/Image/Image.h   |  3 +++
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/Image/Image.cpp b/src/Image/Image.cpp
index d59501c..c780cea 100644
--- a/src/Image/Image.cpp
+++ b/src/Image/Image.cpp
@@ -898,11 +898,10 @@ void Image::_remap_for_orientation(PixUInt* xn, PixUInt* yn) {
 */
 uint32_t Image::getPixel(PixUInt x, PixUInt y) {
   uint32_t ret = 0;
-  uint32_t sz = bytesUsed();
   _remap_for_orientation(&x, &y);
   uint32_t offset = _pixel_offset(x, y);
 
-  if (offset < sz) {
+  if (_pixel_exists(x, y)) {
     switch (_buf_fmt) {
       case ImgBufferFormat::R8_G8_B8_ALPHA:    // 32-bit color
         // TODO: Presumption of little-endian framebuffer.
@@ -1042,6 +1041,9 @@ uint32_t Image::getPixelAsFormat(PixUInt x, PixUInt y, ImgBufferFormat target_fm
 */
 bool Image::setPixel(PixUInt x, PixUInt y, uint32_t c) {
   _remap_for_orientation(&x, &y);
+  if (!_pixel_exists(x, y)) {
+    return false;   // Addressed pixel is out-of-bounds
+  }
   switch (_buf_fmt) {
     case ImgBufferFormat::R3_G3_B2:          // 8-bit color
     case ImgBufferFormat::GREY_8:            // 8-bit greyscale
@@ -1069,9 +1071,9 @@ bool Image::setPixel(PixUInt x, PixUInt y, uint32_t c) {
       break;
     case ImgBufferFormat::UNALLOCATED:       // Buffer unallocated
     default:
-      break;;
+      return false;
   }
-  return false;
+  return true;
 }
 
 
@@ -1080,9 +1082,8 @@ bool Image::setPixel(PixUInt x, PixUInt y, uint32_t c) {
 */
 bool Image::setPixel(PixUInt x, PixUInt y, uint8_t r, uint8_t g, uint8_t b) {
   _remap_for_orientation(&x, &y);
-  uint32_t sz = bytesUsed();
   uint32_t offset = _pixel_offset(x, y);
-  if (offset < sz) {
+  if (_pixel_exists(x, y)) {
     switch (_buf_fmt) {
       case ImgBufferFormat::GREY_24:           // 24-bit greyscale   TODO: Wrong. Has to be.
       case ImgBufferFormat::R8_G8_B8:          // 24-bit color
@@ -1924,6 +1925,7 @@ void Image::drawBitmap(PixUInt x, PixUInt y, const uint8_t* bitmap, PixUInt w, P
 */
 void Image::fill(uint32_t color) {
   //uint8_t bpp = _bits_per_pixel();
+  if (!allocated()) return;
   _lock(true);
   switch (_bits_per_pixel()) {
     case 32:
diff --git a/src/Image/Image.h b/src/Image/Image.h
index 26f10c3..a633594 100644
--- a/src/Image/Image.h
+++ b/src/Image/Image.h
@@ -321,6 +321,9 @@ class Image {
       *(_buffer + _pixel_number(x, y)) = (uint8_t) c;
     };
 
+    /* Is there a buffer, and does it hold the given (already remapped) pixel? */
+    inline bool _pixel_exists(PixUInt x, PixUInt y) {   return (allocated() && (x < _x) && (y < _y));   };
+
     /* Linearizes the X/y value in preparation for array indexing. */
     inline uint32_t _pixel_number(uint32_t x, uint32_t y) {      return ((y * _x) + x);    };
 
-- 
2.43.0


From 7f2cf51f11524b025c8790639261a9061f8533bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:37 +0000
Subject: [PATCH 143/213] fix: setPixel() and fill() put a 24-bit pixel where
 getPixel() looks for it

---
 src/Image/Image.cpp | 6 +++---
 src/Image/Image.h   | 6 ++++--
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/Image/Image.cpp b/src/Image/Image.cpp
index c780cea..e73f8aa 100644
--- a/src/Image/Image.cpp
+++ b/src/Image/Image.cpp
@@ -1935,9 +1935,9 @@ void Image::fill(uint32_t color) {
       break;
     case 24:
       for (uint32_t i=0; i < (_x * _y); i++) {
-        *(_buffer + (i << 2) + 0) = (uint8_t) (color >> 16) & 0xFF;
-        *(_buffer + (i << 2) + 1) = (uint8_t) (color >> 8) & 0xFF;
-        *(_buffer + (i << 2) + 2) = (uint8_t) (color & 0xFF);
+        *(_buffer + (i * 3) + 0) = (uint8_t) (color >> 16) & 0xFF;
+        *(_buffer + (i * 3) + 1) = (uint8_t) (color >> 8) & 0xFF;
+        *(_buffer + (i * 3) + 2) = (uint8_t) (color & 0xFF);
       }
       break;
     case 16:
diff --git a/src/Image/Image.h b/src/Image/Image.h
index a633594..c3bf2fa 100644
--- a/src/Image/Image.h
+++ b/src/Image/Image.h
@@ -311,8 +311,10 @@ class Image {
       *((uint32_t*) (_buffer + (_pixel_number(x, y) << 2))) = c;
     };
     inline void _set_pixel_24(PixUInt x, PixUInt y, uint32_t c) {
-      // TODO: Wrong.
-      *((uint32_t*) (_buffer + (_pixel_number(x, y) << 2))) = c;
+      uint8_t* px = (_buffer + (_pixel_number(x, y) * 3));
+      *(px + 0) = (uint8_t) (c >> 16);
+      *(px + 1) = (uint8_t) (c >> 8);
+      *(px + 2) = (uint8_t) c;
     };
     inline void _set_pixel_16(PixUInt x, PixUInt y, uint32_t c) {
       *((uint16_t*) (_buffer + (_pixel_number(x, y) << 1))) = (uint16_t) c;
-- 
2.43.0


From 6eefecb1be73102f49db1787beee4d7acebc05f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:37 +0000
Subject: [PATCH 144/213] fix: setPixel() keeps the high bits of each channel
 of a discrete color

---
 src/Image/Image.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Image/Image.cpp b/src/Image/Image.cpp
index e73f8aa..8fc3a46 100644
--- a/src/Image/Image.cpp
+++ b/src/Image/Image.cpp
@@ -1093,12 +1093,12 @@ bool Image::setPixel(PixUInt x, PixUInt y, uint8_t r, uint8_t g, uint8_t b) {
         break;
       case ImgBufferFormat::GREY_16:           // 16-bit greyscale   TODO: Wrong. Has to be.
       case ImgBufferFormat::R5_G6_B5:          // 16-bit color
-        *(_buffer + offset + 0) = ((uint16_t) ((r << 3) & 0xF8) << 8) | ((g >> 3) & 0x07);
-        *(_buffer + offset + 1) = ((uint16_t) ((g << 5) & 0xE0) << 8) | ((b >> 3) & 0x1F);
+        *(_buffer + offset + 0) = (r & 0xF8) | (g >> 5);
+        *(_buffer + offset + 1) = ((g << 3) & 0xE0) | (b >> 3);
         break;
       case ImgBufferFormat::GREY_8:            // 8-bit greyscale    TODO: Wrong. Has to be.
       case ImgBufferFormat::R3_G3_B2:          // 8-bit color
-        *(_buffer + offset) = ((uint8_t) (r << 6) & 0xE0) | ((uint8_t) (g << 2) & 0x1C) | (b & 0x07);
+        *(_buffer + offset) = (r & 0xE0) | ((g >> 3) & 0x1C) | (b >> 6);
         break;
       case ImgBufferFormat::MONOCHROME:        // Monochrome
         {
-- 
2.43.0


From 490d7dada9de175296a199816298236e5cb08a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:38 +0000
Subject: [PATCH 145/213] fix: Image does not outgrow a buffer which isn't its
 own

---
 src/Image/Image.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Image/Image.cpp b/src/Image/Image.cpp
index 8fc3a46..a63223f 100644
--- a/src/Image/Image.cpp
+++ b/src/Image/Image.cpp
@@ -536,6 +536,7 @@ bool Image::setBufferByCopy(uint8_t* buf, ImgBufferFormat fmt) {
         memcpy(_buffer, buf, bytesUsed());
         return true;
       }
+      _buf_fmt = old_fmt;   // Whatever buffer there is has not changed.
     }
   }
   else {
@@ -550,6 +551,9 @@ bool Image::setBufferByCopy(uint8_t* buf, ImgBufferFormat fmt) {
 
 
 bool Image::setSize(PixUInt x, PixUInt y) {
+  if (allocated() && !_is_ours()) {
+    return false;   // The size of someone else's buffer isn't ours to decide.
+  }
   _x = x;
   _y = y;
   return (0 == _buffer_allocator());
-- 
2.43.0


From 8aebc49ea14fa4531da2fecb02a40c9a3fb79a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:01 +0000
Subject: [PATCH 146/213] fix: Image::deserialize() reads the header that
 serialize() writes, and checks the size that it implies

---
 src/Image/Image.cpp | 47 ++++++++++++++++++++-------------------------
 1 file changed, 21 insertions(+), 26 deletions(-)

diff --git a/src/Image/Image.cpp b/src/Image/Image.cpp
index a63223f..204ae1c 100644
--- a/src/Image/Image.cpp
+++ b/src/Image/Image.cpp
@@ -707,32 +707,27 @@ int8_t Image::serializeWithoutBuffer(uint8_t* buf, uint32_t* len) {
 */
 int8_t Image::deserialize(uint8_t* buf, uint32_t len) {
   if (ImgBufferFormat::UNALLOCATED == _buf_fmt) {
-    // TODO: This is awful, and will absolutely wreck someone later.
-    //   Shunt this responsibility to C3PType.
-    const uint8_t PIX_AND_FMT_LEN = (sizeof(PixUInt) + 1);
-    if (len > PIX_AND_FMT_LEN) {
-      #if(9 > CONFIG_C3P_IMG_COORD_BITS)
-        PixUInt temp_x = (PixUInt) *(buf + 0);
-        PixUInt temp_y = (PixUInt) *(buf + 1);
-      #elif(17 > CONFIG_C3P_IMG_COORD_BITS)
-        PixUInt temp_x = ((PixUInt) *(buf + 0) << 8) | ((PixUInt) *(buf + 1));
-        PixUInt temp_y = ((PixUInt) *(buf + 2) << 8) | ((PixUInt) *(buf + 3));
-      #elif(33 > CONFIG_C3P_IMG_COORD_BITS)
-        PixUInt temp_x = ((PixUInt) *(buf + 0) << 24) | ((PixUInt) *(buf + 1) << 16) | ((PixUInt) *(buf + 2) << 8) | ((PixUInt) *(buf + 3));
-        PixUInt temp_y = ((PixUInt) *(buf + 4) << 24) | ((PixUInt) *(buf + 5) << 16) | ((PixUInt) *(buf + 6) << 8) | ((PixUInt) *(buf + 7));
-      #else
-        #error Integers for holding pixel addresses cannot be larger than 32-bit.
-      #endif
-      ImgBufferFormat temp_fmt = (ImgBufferFormat) *(buf + (PIX_AND_FMT_LEN-1));
-      uint32_t temp_f = *(buf + PIX_AND_FMT_LEN);
-      uint32_t proposed_size = (_bits_per_pixel(temp_fmt) * temp_x * temp_y) >> 3;
-      if (proposed_size == (len - (PIX_AND_FMT_LEN+1))) {
-        // The derived and declared sizes match.
-        _x = temp_x;
-        _y = temp_y;
-        _buf_fmt  = temp_fmt;
-        _imgflags = temp_f;
-        return setBufferByCopy(buf + (PIX_AND_FMT_LEN+1)) ? 0 : -2;
+    // TODO: Shunt this responsibility to C3PType.
+    // The header is of a fixed size, and doesn't depend on the width of PixUInt.
+    const uint8_t HEADER_LEN = 10;
+    if (len > HEADER_LEN) {
+      const uint32_t temp_x = ((uint32_t) *(buf + 0) << 24) | ((uint32_t) *(buf + 1) << 16) | ((uint32_t) *(buf + 2) << 8) | ((uint32_t) *(buf + 3));
+      const uint32_t temp_y = ((uint32_t) *(buf + 4) << 24) | ((uint32_t) *(buf + 5) << 16) | ((uint32_t) *(buf + 6) << 8) | ((uint32_t) *(buf + 7));
+      const ImgBufferFormat temp_fmt = (ImgBufferFormat) *(buf + 8);
+      if (((PixUInt) temp_x == temp_x) && ((PixUInt) temp_y == temp_y)) {
+        const uint64_t proposed_bits = ((uint64_t) temp_x * temp_y) * _bits_per_pixel(temp_fmt);
+        if (((proposed_bits + 7) >> 3) == (len - HEADER_LEN)) {
+          // The derived and declared sizes match.
+          _x = (PixUInt) temp_x;
+          _y = (PixUInt) temp_y;
+          _buf_fmt  = temp_fmt;
+          _imgflags = (*(buf + 9) & ~C3P_IMG_FLAG_BUFFER_OURS);   // Ownership isn't transferrable.
+          if (setBufferByCopy(buf + HEADER_LEN)) {
+            return 0;
+          }
+          wipe();
+          return -2;
+        }
       }
     }
   }
-- 
2.43.0


From 88b89633c6f9502fd22ee804f599ae3a882ce817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:01 +0000
Subject: [PATCH 147/213] fix: Image refuses the rows that a monochrome buffer
 has no place for

---
 src/Image/Image.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/Image/Image.h b/src/Image/Image.h
index c3bf2fa..16d234a 100644
--- a/src/Image/Image.h
+++ b/src/Image/Image.h
@@ -324,7 +324,11 @@ class Image {
     };
 
     /* Is there a buffer, and does it hold the given (already remapped) pixel? */
-    inline bool _pixel_exists(PixUInt x, PixUInt y) {   return (allocated() && (x < _x) && (y < _y));   };
+    inline bool _pixel_exists(PixUInt x, PixUInt y) {
+      // NOTE: A monochrome buffer has no place for a partial band of eight rows.
+      const PixUInt ROWS = (ImgBufferFormat::MONOCHROME == _buf_fmt) ? (_y & ~((PixUInt) 7)) : _y;
+      return (allocated() && (x < _x) && (y < ROWS));
+    };
 
     /* Linearizes the X/y value in preparation for array indexing. */
     inline uint32_t _pixel_number(uint32_t x, uint32_t y) {      return ((y * _x) + x);    };
-- 
2.43.0


From 1e90afc28147102863256e1405400990afa8c87a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:49 +0000
Subject: [PATCH 148/213] fix: straight lines and rectangles of no extent draw
 nothing, and are clipped by every edge

---
 src/Image/Image.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/Image/Image.cpp b/src/Image/Image.cpp
index 204ae1c..4166ad3 100644
--- a/src/Image/Image.cpp
+++ b/src/Image/Image.cpp
@@ -1520,8 +1520,11 @@ void Image::drawFastVLine(PixUInt x, PixUInt y, PixUInt h, uint32_t color) {
   // Overwrite in subclasses if startWrite is defined!
   // Can be just drawLine(x, y, x, y+h-1, color);
   // or fillRect(x, y, 1, h, color);
+  // NOTE: Coordinates wrap, so a line that begins ahead of the edge is clipped by it.
   _lock(true);
-  drawLine(x, y, x, y+h-1, color);
+  for (PixUInt i = 0; i < h; i++) {
+    setPixel(x, (PixUInt) (y + i), color);
+  }
   _lock(false);
 }
 
@@ -1537,8 +1540,11 @@ void Image::drawFastHLine(PixUInt x, PixUInt y, PixUInt w, uint32_t color) {
   // Overwrite in subclasses if startWrite is defined!
   // Example: drawLine(x, y, x+w-1, y, color);
   // or fillRect(x, y, w, 1, color);
+  // NOTE: Coordinates wrap, so a line that begins ahead of the edge is clipped by it.
   _lock(true);
-  drawLine(x, y, x+w-1, y, color);
+  for (PixUInt i = 0; i < w; i++) {
+    setPixel((PixUInt) (x + i), y, color);
+  }
   _lock(false);
 }
 
@@ -1553,8 +1559,8 @@ void Image::drawFastHLine(PixUInt x, PixUInt y, PixUInt w, uint32_t color) {
 */
 void Image::fillRect(PixUInt x, PixUInt y, PixUInt w, PixUInt h, uint32_t color) {
   _lock(true);
-  for (uint32_t i=x; i<x+w; i++) {
-    drawLine(i, y, i, y+h-1, color);
+  for (PixUInt i = 0; i < w; i++) {
+    drawFastVLine((PixUInt) (x + i), y, h, color);
   }
   _lock(false);
 }
-- 
2.43.0


From ffdb26f9c0da896f21fb8ff462cc78484d0a5308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:49 +0000
Subject: [PATCH 149/213] fix: drawLine() ends, wherever its end is

---
 src/Image/Image.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Image/Image.cpp b/src/Image/Image.cpp
index 4166ad3..5144dd0 100644
--- a/src/Image/Image.cpp
+++ b/src/Image/Image.cpp
@@ -2001,6 +2001,9 @@ void Image::drawLine(PixUInt x0, PixUInt y0, PixUInt x1, PixUInt y1, uint32_t co
       y0 += ystep;
       err += dx;
     }
+    if (x0 == x1) {
+      break;   // The end might be the greatest value that PixUInt can have.
+    }
     x0++;
   }
 }
-- 
2.43.0


From a3b07fd4f27b5f10510649dde6276ae5ed1c4b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:49 +0000
Subject: [PATCH 150/213] fix: fillTriangle() fills triangles of any slope, and
 those with a side on the first row

---
 src/Image/Image.cpp | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/src/Image/Image.cpp b/src/Image/Image.cpp
index 5144dd0..1e65cd1 100644
--- a/src/Image/Image.cpp
+++ b/src/Image/Image.cpp
@@ -1654,7 +1654,7 @@ void Image::drawTriangle(PixUInt x0, PixUInt y0, PixUInt x1, PixUInt y1, PixUInt
     @param    color 16-bit 5-6-5 Color to fill/draw with
 */
 void Image::fillTriangle(PixUInt x0, PixUInt y0, PixUInt x1, PixUInt y1, PixUInt x2, PixUInt y2, uint32_t color) {
-  PixUInt a, b, y, last;
+  int32_t a, b, y, last;
   // Sort coordinates by Y order (y2 >= y1 >= y0)
   if (y0 > y1) {
     strict_swap(&y0, &y1);
@@ -1670,18 +1670,19 @@ void Image::fillTriangle(PixUInt x0, PixUInt y0, PixUInt x1, PixUInt y1, PixUInt
   }
 
   if (y0 == y2) { // Handle awkward all-on-same-line case as its own thing
-    a = b = x0;
-    if (x1 < a) {       a = x1;   }
-    else if (x1 > b) {  b = x1;   }
-    if (x2 < a) {       a = x2;   }
-    else if (x2 > b) {  b = x2;   }
+    a = b = (int32_t) x0;
+    if ((int32_t) x1 < a) {       a = x1;   }
+    else if ((int32_t) x1 > b) {  b = x1;   }
+    if ((int32_t) x2 < a) {       a = x2;   }
+    else if ((int32_t) x2 > b) {  b = x2;   }
     drawFastHLine(a, y0, b - a + 1, color);
     return;
   }
 
-  PixUInt dx01 = x1 - x0, dy01 = y1 - y0, dx02 = x2 - x0, dy02 = y2 - y0,
-          dx12 = x2 - x1, dy12 = y2 - y1;
-  PixUInt sa = 0, sb = 0;
+  int32_t dx01 = (int32_t) x1 - (int32_t) x0, dy01 = (int32_t) y1 - (int32_t) y0;
+  int32_t dx02 = (int32_t) x2 - (int32_t) x0, dy02 = (int32_t) y2 - (int32_t) y0;
+  int32_t dx12 = (int32_t) x2 - (int32_t) x1, dy12 = (int32_t) y2 - (int32_t) y1;
+  int32_t sa = 0, sb = 0;
 
   // For upper part of triangle, find scanline crossings for segments
   // 0-1 and 0-2.  If y1=y2 (flat-bottomed triangle), the scanline y1
@@ -1689,8 +1690,8 @@ void Image::fillTriangle(PixUInt x0, PixUInt y0, PixUInt x1, PixUInt y1, PixUInt
   // error there), otherwise scanline y1 is skipped here and handled
   // in the second loop...which also avoids a /0 error here if y0=y1
   // (flat-topped triangle).
-  if (y1 == y2) {    last = y1;       }  // Include y1 scanline
-  else {             last = y1 - 1;   }  // Skip it
+  if (y1 == y2) {    last = (int32_t) y1;       }  // Include y1 scanline
+  else {             last = (int32_t) y1 - 1;   }  // Skip it
 
   for (y = y0; y <= last; y++) {
     a = x0 + sa / dy01;
@@ -1707,9 +1708,9 @@ void Image::fillTriangle(PixUInt x0, PixUInt y0, PixUInt x1, PixUInt y1, PixUInt
 
   // For lower part of triangle, find scanline crossings for segments
   // 0-2 and 1-2.  This loop is skipped if y1=y2.
-  sa = (int32_t)dx12 * (y - y1);
-  sb = (int32_t)dx02 * (y - y0);
-  for (; y <= y2; y++) {
+  sa = dx12 * (y - (int32_t) y1);
+  sb = dx02 * (y - (int32_t) y0);
+  for (; y <= (int32_t) y2; y++) {
     a = x1 + sa / dy12;
     b = x0 + sb / dy02;
     sa += dx12;
-- 
2.43.0


From 86e892b53d104e31d168121fedac730a1e70f524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:49 +0000
Subject: [PATCH 151/213] fix: getTextBounds() of a buffer measures the text,
 and not the rest of the address space

---
 src/Image/Image.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Image/Image.cpp b/src/Image/Image.cpp
index 1e65cd1..150e1b6 100644
--- a/src/Image/Image.cpp
+++ b/src/Image/Image.cpp
@@ -1490,8 +1490,8 @@ void Image::getTextBounds(const uint8_t* str, PixUInt x, PixUInt y, PixUInt* x1,
 
   PixUInt minx = _x;
   PixUInt miny = _y;
-  PixUInt maxx = -1;
-  PixUInt maxy = -1;
+  PixUInt maxx = 0;
+  PixUInt maxy = 0;
 
   while((c = *s++)) {
     _char_bounds(c, &x, &y, &minx, &miny, &maxx, &maxy);
-- 
2.43.0


From 741e2f95125323687f5cb5656a9afbe012b00dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:34 +0000
Subject: [PATCH 152/213] fix: Image does not free a caller's buffer that
 follows a failed allocation

---
 src/Image/Image.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Image/Image.cpp b/src/Image/Image.cpp
index 150e1b6..e6519a9 100644
--- a/src/Image/Image.cpp
+++ b/src/Image/Image.cpp
@@ -593,8 +593,8 @@ int8_t Image::_buffer_allocator() {
     }
     ret--;
     _buffer = (uint8_t*) malloc(bytesUsed());
+    _ours(allocated());
     if (allocated()) {
-      _ours(true);
       memset(_buffer, 0, bytesUsed());
       ret = 0;
     }
-- 
2.43.0


From 2c537c86578c3657f3c81985b3fcc2d351d61773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:19 +0000
Subject: [PATCH 153/213] fix: getTextBounds() measures the tabs, blanks and
 high characters that writeString() draws

---
 src/Image/Image.cpp | 52 ++++++++++++++++++++++++---------------------
 1 file changed, 28 insertions(+), 24 deletions(-)

diff --git a/src/Image/Image.cpp b/src/Image/Image.cpp
index e6519a9..17f0efe 100644
--- a/src/Image/Image.cpp
+++ b/src/Image/Image.cpp
@@ -1371,26 +1371,28 @@ void Image::_char_bounds(char c, PixUInt* x, PixUInt* y, PixUInt* minx, PixUInt*
     else if (c != '\r') { // Not a carriage return; is normal char
       uint8_t first = _gfxFont->first;
       uint8_t last  = _gfxFont->last;
-      if((c >= first) && (c <= last)) { // Char present in this font?
-        GFXglyph* glyph = &(((GFXglyph*) _gfxFont->glyph))[c - first];
+      if(((uint8_t) c >= first) && ((uint8_t) c <= last)) { // Char present in this font?
+        GFXglyph* glyph = &(((GFXglyph*) _gfxFont->glyph))[(uint8_t) c - first];
         uint8_t gw = glyph->width;
         uint8_t gh = glyph->height;
         uint8_t xa = glyph->xAdvance;
         int8_t  xo = glyph->xOffset;
         int8_t  yo = glyph->yOffset;
-        if(textWrap() && ((*x+(((int16_t)xo+gw) * _textsize)) > _x)) {
-          *x  = 0; // Reset x to zero, advance y by one line
-          *y += _textsize * (uint8_t) _gfxFont->yAdvance;
+        const int16_t ts = (int16_t) _textsize;
+        if ((gw > 0) && (gh > 0)) { // Is there an associated bitmap?
+          if(textWrap() && ((*x+(((int16_t)xo+gw) * _textsize)) > _x)) {
+            *x  = 0; // Reset x to zero, advance y by one line
+            *y += _textsize * (uint8_t) _gfxFont->yAdvance;
+          }
+          PixUInt x1 = *x + xo * ts;
+          PixUInt y1 = *y + yo * ts;
+          PixUInt x2 = x1 + gw * ts - 1;
+          PixUInt y2 = y1 + gh * ts - 1;
+          if(x1 < *minx) *minx = x1;
+          if(y1 < *miny) *miny = y1;
+          if(x2 > *maxx) *maxx = x2;
+          if(y2 > *maxy) *maxy = y2;
         }
-        int16_t ts = (int16_t) _textsize;
-        PixUInt x1 = *x + xo * ts;
-        PixUInt y1 = *y + yo * ts;
-        PixUInt x2 = x1 + gw * ts - 1;
-        PixUInt y2 = y1 + gh * ts - 1;
-        if(x1 < *minx) *minx = x1;
-        if(y1 < *miny) *miny = y1;
-        if(x2 > *maxx) *maxx = x2;
-        if(y2 > *maxy) *maxy = y2;
         *x += xa * ts;
       }
     }
@@ -1402,17 +1404,19 @@ void Image::_char_bounds(char c, PixUInt* x, PixUInt* y, PixUInt* minx, PixUInt*
       // min/max x/y unchaged -- that waits for next 'normal' character
     }
     else if (c != '\r') {  // Normal char; ignore carriage returns
-      if (textWrap() && ((*x + _textsize * 6) > _x)) { // Off right?
-        *x  = 0;                    // Reset x to zero,
-        *y += _textsize * 8;         // advance y one line
+      for (uint8_t n = ('\t' == c) ? 2 : 1; n > 0; n--) {   // A tab is drawn as two spaces.
+        if (textWrap() && ((*x + _textsize * 6) > _x)) { // Off right?
+          *x  = 0;                    // Reset x to zero,
+          *y += _textsize * 8;         // advance y one line
+        }
+        int32_t x2 = *x + _textsize * 6 - 1; // Lower-right pixel of char
+        int32_t y2 = *y + _textsize * 8 - 1;
+        if(x2 > (int32_t) *maxx) {  *maxx = x2;  }      // Track max x, y
+        if(y2 > (int32_t) *maxy) {  *maxy = y2;  }
+        if(*x < *minx) {  *minx = *x;  }      // Track min x, y
+        if(*y < *miny) {  *miny = *y;  }
+        *x += _textsize * 6;             // Advance x one char
       }
-      int32_t x2 = *x + _textsize * 6 - 1; // Lower-right pixel of char
-      int32_t y2 = *y + _textsize * 8 - 1;
-      if(x2 > (int32_t) *maxx) {  *maxx = x2;  }      // Track max x, y
-      if(y2 > (int32_t) *maxy) {  *maxy = y2;  }
-      if(*x < *minx) {  *minx = *x;  }      // Track min x, y
-      if(*y < *miny) {  *miny = *y;  }
-      *x += _textsize * 6;             // Advance x one char
     }
   }
 }
-- 
2.43.0


From 5529f14a09465b1c4ddb61b82672121d04f1145c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:34 +0000
Subject: [PATCH 154/213] fix: a GfxUILayout takes the border sizes it is
 given, not the margins

---
 src/Image/GfxUI.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Image/GfxUI.h b/src/Image/GfxUI.h
index fe12149..383e9ad 100644
--- a/src/Image/GfxUI.h
+++ b/src/Image/GfxUI.h
@@ -232,7 +232,8 @@ class GfxUILayout {
 
     /* Constructor that specifies each margin specifically. */
     GfxUILayout(PixUInt x, PixUInt y, PixUInt w, PixUInt h, uint8_t m_t, uint8_t m_b, uint8_t m_l, uint8_t m_r) :
-      _x(x), _y(y), _w(w), _h(h), _mrgn_t(m_t), _mrgn_b(m_b), _mrgn_l(m_l), _mrgn_r(m_r) {};
+      _x(x), _y(y), _w(w), _h(h), _mrgn_t(m_t), _mrgn_b(m_b), _mrgn_l(m_l), _mrgn_r(m_r),
+      _bordr_t(0), _bordr_b(0), _bordr_l(0), _bordr_r(0) {};
 
     /* Fully-specified constructor. */
     GfxUILayout(
@@ -242,7 +243,7 @@ class GfxUILayout {
     ) :
       _x(x), _y(y), _w(w), _h(h),
       _mrgn_t(m_t), _mrgn_b(m_b), _mrgn_l(m_l), _mrgn_r(m_r),
-      _bordr_t(m_t), _bordr_b(m_b), _bordr_l(m_l), _bordr_r(m_r) {};
+      _bordr_t(b_t), _bordr_b(b_b), _bordr_l(b_l), _bordr_r(b_r) {};
 
     /* Copy constructor. */
     GfxUILayout(const GfxUILayout &src) :
-- 
2.43.0


From 1b8ff350cd9af9bc9e53b4388210c3eab462b390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:34 +0000
Subject: [PATCH 155/213] fix: a GfxUIElement built from a layout alone takes
 the default style

---
 src/Image/GfxUI/GfxUI.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/Image/GfxUI/GfxUI.cpp b/src/Image/GfxUI/GfxUI.cpp
index 92d9ef3..89f0ffd 100644
--- a/src/Image/GfxUI/GfxUI.cpp
+++ b/src/Image/GfxUI/GfxUI.cpp
@@ -70,8 +70,13 @@ GfxUIElement::GfxUIElement(const GfxUILayout layout, const GfxUIStyle style, uin
 /* Constructor with fully-specified paramters. */
 GfxUIElement::GfxUIElement(GfxUILayout* layout, GfxUIStyle* style, uint32_t f) :
   GfxUILayout(layout),
-  _style(style),
-  _flags(f | GFXUI_FLAG_NEED_RERENDER) {}
+  _style(),
+  _flags(f | GFXUI_FLAG_NEED_RERENDER)
+{
+  if (nullptr != style) {
+    _style = GfxUIStyle(style);
+  }
+}
 
 
 GfxUIElement::~GfxUIElement() {
-- 
2.43.0


From 91e83c54b38e3c76af9e728c4e7c1e5d6f7e6130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:34 +0000
Subject: [PATCH 156/213] fix: scrolling down from the first tab of a
 GfxUITabBar reaches the last

---
 src/Image/GfxUI/GfxUITabBar.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Image/GfxUI/GfxUITabBar.cpp b/src/Image/GfxUI/GfxUITabBar.cpp
index 1e10904..ec8d1ac 100644
--- a/src/Image/GfxUI/GfxUITabBar.cpp
+++ b/src/Image/GfxUI/GfxUITabBar.cpp
@@ -59,7 +59,7 @@ bool GfxUITabBar::_notify(const GfxUIEvent GFX_EVNT, PixUInt x, PixUInt y, Prior
         for (uint32_t btn_idx = 0; btn_idx < BTN_COUNT; btn_idx++) {
           GfxUIButton* btn_cur = (GfxUIButton*) _children.get(btn_idx);
           if (btn_cur->pressed()) {
-            if (1 == _set_active_tab((btn_idx + movement_dir) % BTN_COUNT)) {
+            if (1 == _set_active_tab((btn_idx + BTN_COUNT + movement_dir) % BTN_COUNT)) {
               break;   // Break from the loop.
             }
           }
-- 
2.43.0


From 62d9d626fdd4155e5c4281ceb8dab02364d0b7a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:34 +0000
Subject: [PATCH 157/213] fix: the mark of a GfxUIZoomSlider goes where it is
 put and does not turn inside out

---
 src/Image/GfxUI/GfxUISlider.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/Image/GfxUI/GfxUISlider.cpp b/src/Image/GfxUI/GfxUISlider.cpp
index 872e589..8983029 100644
--- a/src/Image/GfxUI/GfxUISlider.cpp
+++ b/src/Image/GfxUI/GfxUISlider.cpp
@@ -99,7 +99,7 @@ float GfxUIZoomSlider::value() {
 void GfxUIZoomSlider::value(const float NEW_CENTER) {
   const float WIDTH       = markWidth();
   const float HALF_WIDTH  = (WIDTH / 2.0f);
-  const float TMP_FRAC    = 1.0f - strict_min(1.0f, strict_max(0.0f, NEW_CENTER));
+  const float TMP_FRAC    = strict_min(1.0f, strict_max(0.0f, NEW_CENTER));
   const float RESIDUE_0   = strict_max(0.0, (TMP_FRAC - HALF_WIDTH));
   const float RESIDUE_1   = strict_min(1.0, (TMP_FRAC + HALF_WIDTH));
   const float PROJ_ANTIPODE_0 = (RESIDUE_1 - WIDTH);
@@ -151,7 +151,8 @@ bool GfxUIZoomSlider::_notify(const GfxUIEvent GFX_EVNT, PixUInt x, PixUInt y, P
       {
         const PixUInt FIELD_WIDTH_PX = (_class_flag(GFXUI_SLIDER_FLAG_VERTICAL) ? internalHeight() : internalWidth());
         const float   PIX_POS_REL    = (_class_flag(GFXUI_SLIDER_FLAG_VERTICAL) ? (y - internalPosY()) : (x - internalPosX()));
-        const float TMP_FRAC    = 1.0f - strict_min(1.0f, strict_max(0.0f, (PIX_POS_REL / (float) FIELD_WIDTH_PX)));
+        const float FIELD_FRAC  = strict_min(1.0f, strict_max(0.0f, (PIX_POS_REL / (float) FIELD_WIDTH_PX)));
+        const float TMP_FRAC    = (_class_flag(GFXUI_SLIDER_FLAG_VERTICAL) ? (1.0f - FIELD_FRAC) : FIELD_FRAC);
         const float WIDTH       = markWidth();
         const float HALF_WIDTH  = (WIDTH / 2.0f);
         const float RESIDUE_0   = strict_max(0.0, (TMP_FRAC - HALF_WIDTH));
@@ -179,8 +180,9 @@ bool GfxUIZoomSlider::_notify(const GfxUIEvent GFX_EVNT, PixUInt x, PixUInt y, P
 
     case GfxUIEvent::MOVE_DOWN:
       // Scrolling up will decrease the righthand bound, and increase the lefthand bound.
-      tmp_frac_0 = strict_min(1.0, (_frac_0 + 0.005));
-      tmp_frac_1 = strict_max(0.0, (_frac_1 - 0.005));
+      //   The bounds meet in the middle of the mark, and do not pass each other.
+      tmp_frac_0 = strict_min(value(), (float) (_frac_0 + 0.005));
+      tmp_frac_1 = strict_max(value(), (float) (_frac_1 - 0.005));
       change_log->insert(this, (int) GFX_EVNT);
       ret = true;
       break;
-- 
2.43.0


From 7aed3382cf053836d56af9cc7737aed42e603fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:34 +0000
Subject: [PATCH 158/213] fix: progress bars clear their unfilled part and
 nothing beyond their own box

---
 src/Image/ImageUtils/ImageUtils.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Image/ImageUtils/ImageUtils.cpp b/src/Image/ImageUtils/ImageUtils.cpp
index cbf7d28..360b20a 100644
--- a/src/Image/ImageUtils/ImageUtils.cpp
+++ b/src/Image/ImageUtils/ImageUtils.cpp
@@ -64,7 +64,7 @@ void UIGfxWrapper::drawProgressBarH(
   }
   PixUInt pix_width = percent * (w-2);
   int blackout_x = x+1+pix_width;
-  int blackout_w = (w+2)-pix_width;
+  int blackout_w = (w-2)-pix_width;
 
   _img->fillRoundRect(blackout_x, y+1, blackout_w, h-2, 3, bg_color);
   _img->fillRoundRect(x+1, y+1, pix_width, h-2, 3, color);
@@ -96,7 +96,7 @@ void UIGfxWrapper::drawProgressBarV(
     _img->fillRect(x, y, w, h, bg_color);
   }
   PixUInt pix_height = percent * (h-2);
-  int blackout_h = y+(h-1)-pix_height;
+  int blackout_h = (h-2)-pix_height;
   _img->fillRoundRect(x+1, y+1, w-2, blackout_h, 3, bg_color);
   _img->fillRoundRect(x+1, (y+h-1)-pix_height, w-2, pix_height, 3, color);
   _img->drawRoundRect(x, y, w, h, 3, fg_color);
-- 
2.43.0


From f7f063e65cc85912701317ba12fcd8d40729d99e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:34 +0000
Subject: [PATCH 159/213] fix: zoom bars draw their mark inside their box

---
 src/Image/ImageUtils/ImageUtils.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Image/ImageUtils/ImageUtils.cpp b/src/Image/ImageUtils/ImageUtils.cpp
index 360b20a..c0f903f 100644
--- a/src/Image/ImageUtils/ImageUtils.cpp
+++ b/src/Image/ImageUtils/ImageUtils.cpp
@@ -131,7 +131,7 @@ void UIGfxWrapper::drawZoomBarH(
   const PixUInt PIX_M_WIDTH = strict_abs_delta(PIX_M_RIGHT, PIX_M_LEFT);
   const PixUInt PIX_RADIUS  = strict_min(w, h) / 5;
 
-  _img->fillRoundRect((x+PIX_M_LEFT), (y+1), PIX_M_WIDTH, (h-2), PIX_RADIUS, color);
+  _img->fillRoundRect((x+1+strict_min(PIX_M_LEFT, PIX_M_RIGHT)), (y+1), PIX_M_WIDTH, (h-2), PIX_RADIUS, color);
   _img->drawRoundRect(x, y, w, h, PIX_RADIUS, fg_color);
 
 
@@ -164,7 +164,7 @@ void UIGfxWrapper::drawZoomBarV(
   const PixUInt PIX_M_BOT    = fraction_bot * (h-2);
   const PixUInt PIX_M_HEIGHT = strict_abs_delta(PIX_M_TOP, PIX_M_BOT);
   const PixUInt PIX_RADIUS   = strict_min(w, h) / 5;
-  _img->fillRoundRect((x+1), ((y+h)-PIX_M_TOP+1), (w-2), PIX_M_HEIGHT, PIX_RADIUS, color);
+  _img->fillRoundRect((x+1), ((y+h-1)-strict_max(PIX_M_TOP, PIX_M_BOT)), (w-2), PIX_M_HEIGHT, PIX_RADIUS, color);
   _img->drawRoundRect(x, y, w, h, PIX_RADIUS, fg_color);
 
   if (draw_val && ((w-4) >= 15)) {
-- 
2.43.0


From 4ed2911a20b28329e8ff082307e1e652adac65e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:34 +0000
Subject: [PATCH 160/213] fix: the third axis of drawVector stays inside its
 box

---
 src/Image/ImageUtils/ImageUtils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Image/ImageUtils/ImageUtils.cpp b/src/Image/ImageUtils/ImageUtils.cpp
index c0f903f..2ffe256 100644
--- a/src/Image/ImageUtils/ImageUtils.cpp
+++ b/src/Image/ImageUtils/ImageUtils.cpp
@@ -288,7 +288,7 @@ void UIGfxWrapper::drawVector(
   if (draw_axes) {   // Draw the axes? The origin is in the middle of the field.
     _img->drawFastVLine(origin_x, y, h, fg_color);
     _img->drawFastHLine(x, origin_y, w, fg_color);
-    _img->drawLine(x, (y+h), w, y, fg_color);
+    _img->drawLine(x, (y+h-1), (x+w-1), y, fg_color);
     // Only 1/8 of a cube (all vector components are positive).
     //_img->drawFastVLine(x, y, h, fg_color);
     //_img->drawFastHLine(x, (y+h), w, fg_color);
-- 
2.43.0


From 549b28607c232fcd17e5d66fce792e888def438a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:34 +0000
Subject: [PATCH 161/213] fix: ImageScaler samples across the source when it
 scales down

---
 src/Image/ImageUtils/ImageScalers.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Image/ImageUtils/ImageScalers.cpp b/src/Image/ImageUtils/ImageScalers.cpp
index fc77a98..14fa0bd 100644
--- a/src/Image/ImageUtils/ImageScalers.cpp
+++ b/src/Image/ImageUtils/ImageScalers.cpp
@@ -50,7 +50,9 @@ int8_t ImageScaler::apply() {
   const PixUInt TGT_X_RANGE_END   = (_t_x + (_scale * _s_w));
   const PixUInt TGT_Y_RANGE_START = _t_y;
   const PixUInt TGT_Y_RANGE_END   = (_t_y + (_scale * _s_h));
-  const PixUInt SQUARE_SIZE       = (PixUInt) _scale;
+  // The integer ratio between source and target. In which direction it applies
+  //   depends on the scale. The bias keeps a ratio like (1/3) from truncating.
+  const PixUInt SQUARE_SIZE       = (PixUInt) ((_scale < 1.0f) ? ((1.0f / _scale) + 0.01f) : _scale);
 
   int8_t ret = -1;
   if (_source->allocated() && _target->allocated()) {
-- 
2.43.0


From 85b18cc68e528bdb0cbb4e98f181c9115792735f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:07 +0000
Subject: [PATCH 162/213] fix: a graph of floats keeps its lowest points inside
 its box

---
 src/Image/ImageUtils/ImageGraph.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Image/ImageUtils/ImageGraph.cpp b/src/Image/ImageUtils/ImageGraph.cpp
index 56db5dd..ba786b7 100644
--- a/src/Image/ImageUtils/ImageGraph.cpp
+++ b/src/Image/ImageUtils/ImageGraph.cpp
@@ -230,7 +230,7 @@ template <> void ImageGraph<float>::drawGraph(Image* img, const PixUInt POS_X, c
         const float    DATA_VALUE = *(tmp_ptr + i);
         const uint32_t DELTA_Y    = ((DATA_VALUE - trace0.minValue()) * trace0.v_scale());
         const PixUInt PNT_X_POS  = (GRAPH_X + i);
-        const PixUInt PNT_Y_POS  = ((GRAPH_Y + FRUS_H) - DELTA_Y);
+        const PixUInt PNT_Y_POS  = (GRAPH_Y + (GRAPH_H - DELTA_Y));
         if ((int32_t) i != trace0.accented_idx) {
           // Draw a normal point on the curve.
           img->setPixel(PNT_X_POS, PNT_Y_POS, trace0.color);
-- 
2.43.0


From a9eebb7f20d2168729fea300010d014d3820ed4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:07 +0000
Subject: [PATCH 163/213] fix: a graph with only minor grid divisions set does
 not divide by zero

---
 src/Image/ImageUtils/ImageGraph.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Image/ImageUtils/ImageGraph.h b/src/Image/ImageUtils/ImageGraph.h
index a60926f..72cbc59 100644
--- a/src/Image/ImageUtils/ImageGraph.h
+++ b/src/Image/ImageUtils/ImageGraph.h
@@ -54,8 +54,8 @@ template <class T> class ImageGraphTrace {
 
     void findBounds(const PixUInt w, const PixUInt h);
 
-    bool drawVGrid() {   return (draw_grid && ((0 != major_grid_x) | (0 != minor_grid_x)));  };
-    bool drawHGrid() {   return (draw_grid && ((0 != major_grid_y) | (0 != minor_grid_y)));  };
+    bool drawVGrid() {   return (draw_grid && (0 != major_grid_x));  };
+    bool drawHGrid() {   return (draw_grid && (0 != major_grid_y));  };
     float v_scale() {    return _v_scale;  };
 
 
-- 
2.43.0


From 3799a27b4d9f7c2b18607780cb90310e1a1848aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:07 +0000
Subject: [PATCH 164/213] fix: a graph of a trace without data draws its frame
 and reads nothing

---
 src/Image/ImageUtils/ImageGraph.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Image/ImageUtils/ImageGraph.cpp b/src/Image/ImageUtils/ImageGraph.cpp
index ba786b7..5b86cfd 100644
--- a/src/Image/ImageUtils/ImageGraph.cpp
+++ b/src/Image/ImageUtils/ImageGraph.cpp
@@ -34,7 +34,7 @@ template <> void ImageGraph<uint32_t>::drawGraph(Image* img, const PixUInt POS_X
     img->drawFastVLine((GRAPH_X - 1), GRAPH_Y, FRUS_H, fg_color);
     img->drawFastHLine((GRAPH_X - 1), (GRAPH_Y + (FRUS_H - 1)), FRUS_W, fg_color);
 
-    if (trace0.enabled) {
+    if (trace0.enabled && (nullptr != trace0.dataset) && (0 < trace0.data_len)) {
       const PixUInt TXT_PIXEL_HEIGHT = img->getFontHeight();
       const PixUInt TXT_PIXEL_WIDTH  = img->getFontWidth();
       trace0.findBounds(GRAPH_W, GRAPH_H);
@@ -222,7 +222,7 @@ template <> void ImageGraph<float>::drawGraph(Image* img, const PixUInt POS_X, c
     img->drawFastVLine((GRAPH_X - 1), GRAPH_Y, FRUS_H, fg_color);
     img->drawFastHLine((GRAPH_X - 1), (GRAPH_Y + (FRUS_H - 1)), FRUS_W, fg_color);
 
-    if (trace0.enabled) {
+    if (trace0.enabled && (nullptr != trace0.dataset) && (0 < trace0.data_len)) {
       trace0.findBounds((FRUS_W - INSET_X), (FRUS_H - INSET_Y));
       float*    tmp_ptr = trace0.dataset;
       uint32_t  tmp_len = strict_min((uint32_t) GRAPH_W, trace0.data_len);
-- 
2.43.0


From 493720f8e1fcc1a28c749b3000250b7340275d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:26 +0000
Subject: [PATCH 165/213] fix: BlobPlotterLinear keeps every square inside its
 area

---
 src/Image/ImageUtils/BlobPlotter.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/Image/ImageUtils/BlobPlotter.cpp b/src/Image/ImageUtils/BlobPlotter.cpp
index 5e17e1d..c01661a 100644
--- a/src/Image/ImageUtils/BlobPlotter.cpp
+++ b/src/Image/ImageUtils/BlobPlotter.cpp
@@ -430,6 +430,10 @@ int8_t BlobPlotterLinear::_curve_render(const uint8_t* PTR, const uint32_t OFFSE
   int8_t ret = -1;
   const uint32_t PIX_AVAILABLE = (_t_h * _t_w);
   if (0 == _calculate_square_size(LEN, PIX_AVAILABLE)) {
+    // Whole squares need to fit in both directions.
+    while ((1 < _square_size) && (LEN > (uint32_t) ((_t_w / _square_size) * (_t_h / _square_size)))) {
+      _square_size--;
+    }
     _bytes_wide  = (_t_w / _square_size);
     _bytes_high = (LEN / _bytes_wide);    // This is also certain to be properly scaled, but...
     if ((_bytes_wide * _bytes_high) < LEN) {  _bytes_high++;  }  // ...account for possible rounding error...
@@ -440,7 +444,7 @@ int8_t BlobPlotterLinear::_curve_render(const uint8_t* PTR, const uint32_t OFFSE
     for (uint32_t i = 0; i < LEN; i++) {
       if (0 < i) {  // TODO: Letting the compiler optimize this slop away bugs me. Just write it cleaner.
         //if (0 == (i % BYTES_PER_ROW)) {
-        if ((target_x + _square_size) >= (_t_x + _t_w)) {
+        if ((target_x + (_square_size << 1)) > (_t_x + _t_w)) {
           target_x  = _t_x;
           target_y += _square_size;
         }
-- 
2.43.0


From 89304957d31c58088d65cf6eb578468420028458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:25 +0000
Subject: [PATCH 166/213] fix: the mark of a GfxUIZoomSlider keeps its width at
 the ends of its range

---
 src/Image/GfxUI/GfxUISlider.cpp | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/src/Image/GfxUI/GfxUISlider.cpp b/src/Image/GfxUI/GfxUISlider.cpp
index 8983029..48ebfb2 100644
--- a/src/Image/GfxUI/GfxUISlider.cpp
+++ b/src/Image/GfxUI/GfxUISlider.cpp
@@ -100,12 +100,9 @@ void GfxUIZoomSlider::value(const float NEW_CENTER) {
   const float WIDTH       = markWidth();
   const float HALF_WIDTH  = (WIDTH / 2.0f);
   const float TMP_FRAC    = strict_min(1.0f, strict_max(0.0f, NEW_CENTER));
-  const float RESIDUE_0   = strict_max(0.0, (TMP_FRAC - HALF_WIDTH));
-  const float RESIDUE_1   = strict_min(1.0, (TMP_FRAC + HALF_WIDTH));
-  const float PROJ_ANTIPODE_0 = (RESIDUE_1 - WIDTH);
-  const float PROJ_ANTIPODE_1 = (RESIDUE_0 + WIDTH);
-  _frac_0 = strict_min(RESIDUE_0, PROJ_ANTIPODE_0);
-  _frac_1 = strict_max(RESIDUE_1, PROJ_ANTIPODE_1);
+  // The mark keeps its width, and stops at the ends.
+  _frac_0 = strict_max(0.0f, strict_min((1.0f - WIDTH), (TMP_FRAC - HALF_WIDTH)));
+  _frac_1 = strict_min(1.0f, (_frac_0 + WIDTH));
 }
 
 
@@ -155,12 +152,9 @@ bool GfxUIZoomSlider::_notify(const GfxUIEvent GFX_EVNT, PixUInt x, PixUInt y, P
         const float TMP_FRAC    = (_class_flag(GFXUI_SLIDER_FLAG_VERTICAL) ? (1.0f - FIELD_FRAC) : FIELD_FRAC);
         const float WIDTH       = markWidth();
         const float HALF_WIDTH  = (WIDTH / 2.0f);
-        const float RESIDUE_0   = strict_max(0.0, (TMP_FRAC - HALF_WIDTH));
-        const float RESIDUE_1   = strict_min(1.0, (TMP_FRAC + HALF_WIDTH));
-        const float PROJ_ANTIPODE_0 = (RESIDUE_1 - WIDTH);
-        const float PROJ_ANTIPODE_1 = (RESIDUE_0 + WIDTH);
-        tmp_frac_0 = strict_min(RESIDUE_0, PROJ_ANTIPODE_0);
-        tmp_frac_1 = strict_max(RESIDUE_1, PROJ_ANTIPODE_1);
+        // The mark keeps its width, and stops at the ends.
+        tmp_frac_0 = strict_max(0.0f, strict_min((1.0f - WIDTH), (TMP_FRAC - HALF_WIDTH)));
+        tmp_frac_1 = strict_min(1.0f, (tmp_frac_0 + WIDTH));
       }
       ret = true;
       break;
-- 
2.43.0


From bedd38a9532cc32b95b45c728eec067d27f69ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:32 +0000
Subject: [PATCH 167/213] fix: cbor::input_stringbuilder reads 16-bit fields in
 network order

---
 src/cbor-cpp/cbor.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cbor-cpp/cbor.cpp b/src/cbor-cpp/cbor.cpp
index 4256d59..008bdaf 100644
--- a/src/cbor-cpp/cbor.cpp
+++ b/src/cbor-cpp/cbor.cpp
@@ -70,8 +70,8 @@ uint16_t input_stringbuilder::get_short() {
   if (nullptr != _str_bldr) {
     uint8_t buf[2] = {0, 0};
     const int THIS_SIZE = _str_bldr->copyToBuffer(buf, 2, _offset);
-    value |= ((uint16_t) buf[1] << 8);
-    value |= ((uint16_t) buf[0]);
+    value |= ((uint16_t) buf[0] << 8);
+    value |= ((uint16_t) buf[1]);
     _update_local_vars(THIS_SIZE);
   }
   return value;
-- 
2.43.0


From 5598725e2973a6878f6289ceeec81d76f7a28efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:32 +0000
Subject: [PATCH 168/213] fix: cbor::output_static frees its buffer as it was
 allocated

---
 src/cbor-cpp/cbor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cbor-cpp/cbor.cpp b/src/cbor-cpp/cbor.cpp
index 008bdaf..d36e1fe 100644
--- a/src/cbor-cpp/cbor.cpp
+++ b/src/cbor-cpp/cbor.cpp
@@ -208,7 +208,7 @@ output_static::output_static(uint32_t cap, uint8_t* buf) : _buffer(buf), _capaci
 
 output_static::~output_static() {
   if (_should_free & (nullptr != _buffer)) {
-    delete _buffer;
+    free(_buffer);
     _buffer = nullptr;
   }
 }
-- 
2.43.0


From cad3d5392f9190dc4834dea510c1b870ab3aa568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:32 +0000
Subject: [PATCH 169/213] fix: 64-bit integers print whole on platforms with a
 32-bit long

---
 src/C3PValue/C3PType.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/C3PValue/C3PType.cpp b/src/C3PValue/C3PType.cpp
index 6bab340..0e3d075 100644
--- a/src/C3PValue/C3PType.cpp
+++ b/src/C3PValue/C3PType.cpp
@@ -854,7 +854,7 @@ template <> int         C3PTypeConstraint<int32_t>::deserialize(void* obj, Strin
 ///
 template <> void        C3PTypeConstraint<int64_t>::to_string(void* obj, StringBuilder* out) {
   int64_t yuck = _load_from_mem(obj);
-  out->concatf("%ld", yuck);
+  out->concatf("%lld", (long long) yuck);
 }
 
 template <> int8_t C3PTypeConstraint<int64_t>::representable_by(const TCode DEST_TYPE) {
@@ -1400,7 +1400,7 @@ template <> int         C3PTypeConstraint<uint32_t>::deserialize(void* obj, Stri
 ///
 template <> void        C3PTypeConstraint<uint64_t>::to_string(void* obj, StringBuilder* out) {
   uint64_t yuck = _load_from_mem(obj);
-  out->concatf("%lu", yuck);
+  out->concatf("%llu", (unsigned long long) yuck);
 }
 
 template <> int8_t C3PTypeConstraint<uint64_t>::representable_by(const TCode DEST_TYPE) {
-- 
2.43.0


From 4d0c17055e0c583a9db5b2e3eeb69eb34fc049ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:32 +0000
Subject: [PATCH 170/213] fix: printing a set takes a nested set from the pair
 that holds it

---
 src/C3PValue/KeyValuePair.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/C3PValue/KeyValuePair.cpp b/src/C3PValue/KeyValuePair.cpp
index 4c5904f..405b606 100644
--- a/src/C3PValue/KeyValuePair.cpp
+++ b/src/C3PValue/KeyValuePair.cpp
@@ -366,7 +366,7 @@ int8_t KeyValuePair::_encode_to_printable(StringBuilder* out, const unsigned int
         {
           // If the value is a KVP, recurse with a deeper indentation to
           //   render it.
-          KeyValuePair* tmp = (KeyValuePair*) _type_pun_get();
+          KeyValuePair* tmp = (KeyValuePair*) src->_type_pun_get();
           if (nullptr != tmp) {
             out->concat("{\n");
             tmp->_encode_to_printable(out, (LEVEL+1));
-- 
2.43.0


From 9a7078b5527e7f916e521d0e807b0364c543dc3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:32 +0000
Subject: [PATCH 171/213] fix: serializing a pair whose nested set was never
 given

---
 src/C3PValue/C3PType.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/C3PValue/C3PType.cpp b/src/C3PValue/C3PType.cpp
index 0e3d075..59a59ea 100644
--- a/src/C3PValue/C3PType.cpp
+++ b/src/C3PValue/C3PType.cpp
@@ -2815,7 +2815,7 @@ template <> int         C3PTypeConstraint<KeyValuePair*>::serialize(void* obj, S
   KeyValuePair* subj = ((KeyValuePair*) obj);
   // NOTE: Hidden recursion. This function is almost certainly being called by
   //   some_other_subj->serialize(out, FORMAT). Keep your bearings...
-  return ((0 == subj->serialize(out, FORMAT)) ? 0 : -1);
+  return (((nullptr != subj) && (0 == subj->serialize(out, FORMAT))) ? 0 : -1);
 }
 
 
-- 
2.43.0


From 5fbab49a255f48c1b6fc5b75d4bbace035ec0901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:03 +0000
Subject: [PATCH 172/213] fix: a value that cannot be inflated does not
 bequeath its key to the next

---
 src/C3PValue/KeyValuePair.cpp | 16 ++++++++++++++++
 src/C3PValue/KeyValuePair.h   |  1 +
 2 files changed, 17 insertions(+)

diff --git a/src/C3PValue/KeyValuePair.cpp b/src/C3PValue/KeyValuePair.cpp
index 405b606..28f02ca 100644
--- a/src/C3PValue/KeyValuePair.cpp
+++ b/src/C3PValue/KeyValuePair.cpp
@@ -443,6 +443,19 @@ void CBORArgListener::_caaa(KeyValuePair* nu) {
 }
 
 
+/*
+* There is no way to represent the value that belongs to the waiting key. Lose
+*   the key as well, lest it be taken to belong to whatever comes next.
+*/
+void CBORArgListener::_drop_pair() {
+  if (0 < _wait_map) _wait_map--;
+  if (nullptr != _wait) {
+    free(_wait);
+    _wait = nullptr;
+  }
+}
+
+
 void CBORArgListener::on_string(char* val) {
   // Strings need special handling, because they might be used for map keys.
   int len = strlen(val);
@@ -481,6 +494,9 @@ void CBORArgListener::on_bytes(uint8_t* data, int size) {
     if (nullptr != temp_kvp) {
       _caaa(temp_kvp);
     }
+    else {
+      _drop_pair();
+    }
     _pending_c3p_tag = TCode::NONE;
   }
   else {
diff --git a/src/C3PValue/KeyValuePair.h b/src/C3PValue/KeyValuePair.h
index 3586a02..66273e2 100644
--- a/src/C3PValue/KeyValuePair.h
+++ b/src/C3PValue/KeyValuePair.h
@@ -285,6 +285,7 @@ class KeyValuePair : public C3PValue {
 
       /* Please forgive the stupid name. */
       void _caaa(KeyValuePair*);
+      void _drop_pair();
 
       KeyValuePair* _inflate_c3p_type(uint8_t* data, int size, const TCode);
   };
-- 
2.43.0


From e3beb8434d8cf1c25e42a4a56dcc6a0b08a187cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:03 +0000
Subject: [PATCH 173/213] fix: KeyValuePair::unserialize() gives nothing,
 rather than mispaired values, if memory runs out

---
 src/C3PValue/KeyValuePair.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/C3PValue/KeyValuePair.cpp b/src/C3PValue/KeyValuePair.cpp
index 28f02ca..6b75ebd 100644
--- a/src/C3PValue/KeyValuePair.cpp
+++ b/src/C3PValue/KeyValuePair.cpp
@@ -317,6 +317,11 @@ KeyValuePair* KeyValuePair::unserialize(uint8_t* src, unsigned int len, const TC
         cbor::input_static input(src, len);
         cbor::decoder decoder(input, listener);
         decoder.run();
+        if (listener.memError() && (nullptr != ret)) {
+          // Keys and values were lost, and what remains might be mispaired.
+          delete ret;
+          ret = nullptr;
+        }
       }
       break;
     #endif  // __BUILD_HAS_CBOR
-- 
2.43.0


From 507b09c8ea46c7a5fa51fdb7bf80402e1e430952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:11 +0000
Subject: [PATCH 174/213] fix: KeyValuePair::unserialize() restores maps within
 maps

---
 src/C3PValue/KeyValuePair.cpp | 68 +++++++++++++++++++++++++++++++++++
 src/C3PValue/KeyValuePair.h   | 14 ++++++++
 2 files changed, 82 insertions(+)

diff --git a/src/C3PValue/KeyValuePair.cpp b/src/C3PValue/KeyValuePair.cpp
index 6b75ebd..b1c27b8 100644
--- a/src/C3PValue/KeyValuePair.cpp
+++ b/src/C3PValue/KeyValuePair.cpp
@@ -416,6 +416,8 @@ int8_t KeyValuePair::_encode_to_printable(StringBuilder* out, const unsigned int
 CBORArgListener::CBORArgListener(KeyValuePair** target) {    built = target;    }
 
 CBORArgListener::~CBORArgListener() {
+  // If the input ended early, keep what was taken of the maps within the map.
+  while (nullptr != _nest) {  _close_nest();  }
   // JIC...
   if (nullptr != _wait) {
     free(_wait);
@@ -445,6 +447,60 @@ void CBORArgListener::_caaa(KeyValuePair* nu) {
   else {
     *built = nu;
   }
+  if ((nullptr != _nest) && (0 == _wait_map)) {
+    _close_nest();
+  }
+}
+
+
+/*
+* The value that belongs to the waiting key is itself a map. Its content will be
+*   collected apart, until all of it has arrived.
+*/
+void CBORArgListener::_open_nest(int size) {
+  int depth = 0;
+  for (CBORNest* n = _nest; (nullptr != n); n = n->outer) {  depth++;  }
+  CBORNest* nu = (CBOR_MAX_NEST_DEPTH > depth) ? (CBORNest*) malloc(sizeof(CBORNest)) : nullptr;
+  if (nullptr != nu) {
+    nu->outer    = _nest;
+    nu->built    = built;
+    nu->inner    = nullptr;
+    nu->key      = _wait;
+    nu->wait_map = _wait_map;
+    _nest        = nu;
+    built        = &(nu->inner);
+    _wait        = nullptr;
+    _wait_map    = size;
+  }
+  else {
+    _mem_error = true;
+    _drop_pair();
+  }
+}
+
+
+/*
+* Restore the state of the enclosing map, and give it the one that was nested.
+*/
+void CBORArgListener::_close_nest() {
+  CBORNest* n = _nest;
+  if (nullptr != _wait) {   // A key that never got its value.
+    free(_wait);
+  }
+  _nest     = n->outer;
+  built     = n->built;
+  _wait     = n->key;
+  _wait_map = n->wait_map;
+  if (nullptr != n->inner) {
+    KeyValuePair* nu = new KeyValuePair(n->inner);
+    nu->reapValue(true);
+    free(n);
+    _caaa(nu);
+  }
+  else {
+    free(n);
+    _drop_pair();
+  }
 }
 
 
@@ -458,6 +514,9 @@ void CBORArgListener::_drop_pair() {
     free(_wait);
     _wait = nullptr;
   }
+  if ((nullptr != _nest) && (0 == _wait_map)) {
+    _close_nest();
+  }
 }
 
 
@@ -551,6 +610,15 @@ void CBORArgListener::on_array(int size) {
 };
 
 void CBORArgListener::on_map(int size) {
+  if ((0 < _wait_map) && (nullptr != _wait)) {
+    if (0 < size) {
+      _open_nest(size);
+    }
+    else {
+      _drop_pair();   // There is no such thing as an empty KeyValuePair.
+    }
+    return;
+  }
   _wait_map   = (int32_t) size;
   if (nullptr != _wait) {
     // Flush so we can discover problems.
diff --git a/src/C3PValue/KeyValuePair.h b/src/C3PValue/KeyValuePair.h
index 66273e2..28c6fae 100644
--- a/src/C3PValue/KeyValuePair.h
+++ b/src/C3PValue/KeyValuePair.h
@@ -241,6 +241,8 @@ class KeyValuePair : public C3PValue {
 
 /* If we have CBOR support, we define a helper class to assist decomposition. */
 #if defined(CONFIG_C3P_CBOR)
+  #define CBOR_MAX_NEST_DEPTH   32   // The most maps that may be within one another.
+
   class CBORArgListener : public cbor::listener {
     public:
       CBORArgListener(KeyValuePair**);
@@ -276,7 +278,17 @@ class KeyValuePair : public C3PValue {
       inline bool memError() {  return _mem_error;  };
 
     private:
+      /* State of the enclosing map, while one of its values is being collected. */
+      struct CBORNest {
+        CBORNest*      outer;
+        KeyValuePair** built;
+        KeyValuePair*  inner;
+        char*          key;
+        int            wait_map;
+      };
+
       KeyValuePair** built               = nullptr;
+      CBORNest*      _nest               = nullptr;
       char*          _wait               = nullptr;
       int            _wait_map           = 0;
       int            _wait_array         = 0;
@@ -286,6 +298,8 @@ class KeyValuePair : public C3PValue {
       /* Please forgive the stupid name. */
       void _caaa(KeyValuePair*);
       void _drop_pair();
+      void _open_nest(int size);
+      void _close_nest();
 
       KeyValuePair* _inflate_c3p_type(uint8_t* data, int size, const TCode);
   };
-- 
2.43.0


From cb0a2756384409d2efbe5627572a7228664fc428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:16 +0000
Subject: [PATCH 175/213] fix: the CBOR decoder reads negative integers of more
 than 32 bits in the 4-byte form

---
 src/cbor-cpp/cbor.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/cbor-cpp/cbor.cpp b/src/cbor-cpp/cbor.cpp
index d36e1fe..e079516 100644
--- a/src/cbor-cpp/cbor.cpp
+++ b/src/cbor-cpp/cbor.cpp
@@ -703,10 +703,8 @@ void decoder::run() {
           temp = _in->get_int();
           if(temp <= INT32_MAX) {
             _listener->on_integer(((int32_t) -(temp+1)));
-          } else if(temp == 2147483648u) {
-            _listener->on_integer((int32_t) INT32_MIN);
-          } else {
-            _listener->on_extra_integer(temp, -1);
+          } else {   // It takes more than 32 bits to hold.
+            _listener->on_integer((int64_t) (-1 - ((int64_t) temp)));
           }
           _state = STATE_TYPE;
           break;
-- 
2.43.0


From a44aa52b17d09b8554e113aeda28fb5f620843f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:16 +0000
Subject: [PATCH 176/213] fix: images in key-value pairs can be set, read back,
 and serialized as one value

---
 src/C3PValue/C3PType.cpp      | 51 ++++++++++++++++++++---------------
 src/C3PValue/KeyValuePair.cpp | 10 ++++---
 2 files changed, 35 insertions(+), 26 deletions(-)

diff --git a/src/C3PValue/C3PType.cpp b/src/C3PValue/C3PType.cpp
index 59a59ea..87a7ba3 100644
--- a/src/C3PValue/C3PType.cpp
+++ b/src/C3PValue/C3PType.cpp
@@ -2827,24 +2827,37 @@ template <> int8_t      C3PTypeConstraint<Image*>::destruct(void* obj) {
   int8_t ret = -1;  if (_pointer_safety_check(obj)) {  ret++;  delete ((Image*) obj);  }  return ret;
 }
 
-template <> uint32_t    C3PTypeConstraint<Image*>::length(void* obj) {  return ((Image*) obj)->bytesUsed();  }
+template <> uint32_t    C3PTypeConstraint<Image*>::length(void* obj) {  return ((nullptr != obj) ? ((Image*) obj)->bytesUsed() : 0);  }
 template <> void        C3PTypeConstraint<Image*>::to_string(void* obj, StringBuilder* out) {
-  Image* img = (Image*) obj;
-  img->printImageInfo(out, false);
+  if (nullptr != obj) {  ((Image*) obj)->printImageInfo(out, false);  }
 }
 
 template <> int8_t      C3PTypeConstraint<Image*>::set_from(void* dest, const TCode SRC_TYPE, void* src) {
-  switch (SRC_TYPE) {
-    default:  break;
+  int8_t ret = -1;
+  if (nullptr != dest) {
+    switch (SRC_TYPE) {
+      case TCode::IMAGE:
+        *((Image**) dest) = (Image*) src;
+        ret = 0;
+        break;
+      default:  break;
+    }
   }
-  return -1;
+  return ret;
 }
 
 template <> int8_t      C3PTypeConstraint<Image*>::get_as(void* src, const TCode DEST_TYPE, void* dest) {
-  switch (DEST_TYPE) {
-    default:  break;
+  int8_t ret = -1;
+  if (nullptr != dest) {
+    switch (DEST_TYPE) {
+      case TCode::IMAGE:
+        *((Image**) dest) = (Image*) src;
+        ret = 0;
+        break;
+      default:  break;
+    }
   }
-  return -1;
+  return ret;
 }
 
 template <> int         C3PTypeConstraint<Image*>::serialize(void* obj, StringBuilder* out, const TCode FORMAT) {
@@ -2857,19 +2870,13 @@ template <> int         C3PTypeConstraint<Image*>::serialize(void* obj, StringBu
 
     case TCode::CBOR:
       {
-        uint32_t sz_buf = img->bytesUsed();
-        if (sz_buf > 0) {
-          uint32_t nb_buf = 0;
-          uint8_t intermediary[32];
-          memset(intermediary, 0, 32);
-          if (0 == img->serializeWithoutBuffer(intermediary, &nb_buf)) {
-            cbor::output_stringbuilder output(out);
-            cbor::encoder encoder(output);
-            encoder.write_tag(C3P_CBOR_VENDOR_CODE | TcodeToInt(TCODE));
-            encoder.write_bytes(intermediary, nb_buf);   // TODO: This might cause two discrete CBOR objects.
-            encoder.write_bytes(img->buffer(), sz_buf);
-            ret = 0;   // TODO: Safe SB API.
-          }
+        StringBuilder img_blob;   // The header and the pixels are a single value.
+        if ((nullptr != img) && (0 == img->serialize(&img_blob))) {
+          cbor::output_stringbuilder output(out);
+          cbor::encoder encoder(output);
+          encoder.write_tag(C3P_CBOR_VENDOR_CODE | TcodeToInt(TCODE));
+          encoder.write_bytes(img_blob.string(), img_blob.length());
+          ret = 0;   // TODO: Safe SB API.
         }
       }
       break;
diff --git a/src/C3PValue/KeyValuePair.cpp b/src/C3PValue/KeyValuePair.cpp
index b1c27b8..0cdded4 100644
--- a/src/C3PValue/KeyValuePair.cpp
+++ b/src/C3PValue/KeyValuePair.cpp
@@ -754,10 +754,12 @@ KeyValuePair* CBORArgListener::_inflate_c3p_type(uint8_t* data, int size, const
         {
           Image* tmp = new Image();
           if (tmp) {
-            tmp->deserialize(data, size);
-            if (tmp->allocated()) {
+            if (0 == tmp->deserialize(data, size)) {
+              ret = new KeyValuePair(tmp);
+            }
+            else {
+              delete tmp;
             }
-            ret = new KeyValuePair(tmp);
           }
         }
         break;
@@ -772,7 +774,7 @@ KeyValuePair* CBORArgListener::_inflate_c3p_type(uint8_t* data, int size, const
   // If we can't fit the value into the KVP class, it means we new'd it.
   if (nullptr != ret) {
     ret->reapContainer(true);
-    ret->reapValue(!typeIsPointerPunned(TC));
+    ret->reapValue(true);
   }
   return ret;
 }
-- 
2.43.0


From ac12562f770432b5695e6c7a8b602e0d7b63405f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:45 +0000
Subject: [PATCH 177/213] fix: CBORArgListener frees bytes that it had no
 memory to hold

---
 src/C3PValue/KeyValuePair.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/C3PValue/KeyValuePair.cpp b/src/C3PValue/KeyValuePair.cpp
index 0cdded4..01f2428 100644
--- a/src/C3PValue/KeyValuePair.cpp
+++ b/src/C3PValue/KeyValuePair.cpp
@@ -569,6 +569,9 @@ void CBORArgListener::on_bytes(uint8_t* data, int size) {
     if (nullptr != temp) {
       memcpy(temp, data, size);
       KeyValuePair* nu_kvp = new KeyValuePair(temp, size);
+      if (nu_kvp->memError()) {
+        free(temp);   // There was nowhere to put it.
+      }
       nu_kvp->reapValue(true);
       _caaa(nu_kvp);
     }
-- 
2.43.0


From a392d463175354bd0aa6108a4e8d96b9126be94f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:15 +0000
Subject: [PATCH 178/213] fix: KeyValuePair::unserialize() gives nothing,
 rather than fewer values, if an image does not fit

---
 src/C3PValue/KeyValuePair.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/C3PValue/KeyValuePair.cpp b/src/C3PValue/KeyValuePair.cpp
index 01f2428..9ab1d3d 100644
--- a/src/C3PValue/KeyValuePair.cpp
+++ b/src/C3PValue/KeyValuePair.cpp
@@ -757,10 +757,12 @@ KeyValuePair* CBORArgListener::_inflate_c3p_type(uint8_t* data, int size, const
         {
           Image* tmp = new Image();
           if (tmp) {
-            if (0 == tmp->deserialize(data, size)) {
+            const int8_t IMG_RET = tmp->deserialize(data, size);
+            if (0 == IMG_RET) {
               ret = new KeyValuePair(tmp);
             }
             else {
+              _mem_error |= (-2 == IMG_RET);   // The image is good, but will not fit.
               delete tmp;
             }
           }
-- 
2.43.0


From f83451f6a1fbf0ee2572faace924ce429d2e92c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:34 +0000
Subject: [PATCH 179/213] fix: KeyValuePair::unserialize() takes the nested
 maps that ended early before judging the result

---
 src/C3PValue/KeyValuePair.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/C3PValue/KeyValuePair.cpp b/src/C3PValue/KeyValuePair.cpp
index 9ab1d3d..9373602 100644
--- a/src/C3PValue/KeyValuePair.cpp
+++ b/src/C3PValue/KeyValuePair.cpp
@@ -313,11 +313,16 @@ KeyValuePair* KeyValuePair::unserialize(uint8_t* src, unsigned int len, const TC
     #if defined(__BUILD_HAS_CBOR)
     case TCode::CBOR:
       {
-        CBORArgListener listener(&ret);
-        cbor::input_static input(src, len);
-        cbor::decoder decoder(input, listener);
-        decoder.run();
-        if (listener.memError() && (nullptr != ret)) {
+        bool mem_error = false;
+        {
+          // The listener might hold maps that ended early, until it is destroyed.
+          CBORArgListener listener(&ret);
+          cbor::input_static input(src, len);
+          cbor::decoder decoder(input, listener);
+          decoder.run();
+          mem_error = listener.memError();
+        }
+        if (mem_error && (nullptr != ret)) {
           // Keys and values were lost, and what remains might be mispaired.
           delete ret;
           ret = nullptr;
-- 
2.43.0


From 3fb46c878269438b2e910a5d249ed0e53bb3522b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:57 +0000
Subject: [PATCH 180/213] fix: an empty value at the end of a consumed
 StringBuilder is decoded

---
 src/cbor-cpp/cbor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cbor-cpp/cbor.cpp b/src/cbor-cpp/cbor.cpp
index e079516..e2ed438 100644
--- a/src/cbor-cpp/cbor.cpp
+++ b/src/cbor-cpp/cbor.cpp
@@ -51,7 +51,7 @@ bool input_stringbuilder::has_bytes(int count) {
   if ((nullptr != _str_bldr) & (0 <= count)) {   // Lengths from the wire might exceed INT32_MAX.
     return ((_str_bldr->length() - (_consume_input ? 0 : _offset)) >= count);
   }
-  return false;
+  return (0 == count);   // An empty value might follow the last byte.
 }
 
 
-- 
2.43.0


From 271cc9ee76ce7a3a817d8a6504d80203c2b04c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:09 +0000
Subject: [PATCH 181/213] fix: only a map that is itself the value of a key is
 nested by KeyValuePair::unserialize()

---
 src/C3PValue/KeyValuePair.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/C3PValue/KeyValuePair.cpp b/src/C3PValue/KeyValuePair.cpp
index 9373602..a980b70 100644
--- a/src/C3PValue/KeyValuePair.cpp
+++ b/src/C3PValue/KeyValuePair.cpp
@@ -618,7 +618,7 @@ void CBORArgListener::on_array(int size) {
 };
 
 void CBORArgListener::on_map(int size) {
-  if ((0 < _wait_map) && (nullptr != _wait)) {
+  if ((0 < _wait_map) && (nullptr != _wait) && (0 == _wait_array)) {
     if (0 < size) {
       _open_nest(size);
     }
-- 
2.43.0


From 2738483998cdd6516d20d6741dda22715949f953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:02 +0000
Subject: [PATCH 182/213] fix: a configuration record is loaded with its
 metadata as the nested map that it is

---
 src/Storage/RecordTypes/ConfRecord.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/Storage/RecordTypes/ConfRecord.cpp b/src/Storage/RecordTypes/ConfRecord.cpp
index 49e9167..ede1aa7 100644
--- a/src/Storage/RecordTypes/ConfRecord.cpp
+++ b/src/Storage/RecordTypes/ConfRecord.cpp
@@ -325,10 +325,9 @@ int8_t ConfRecord::deserialize(StringBuilder* raw, TCode format) {
 * @param src is the head of the list of values, as they were parsed.
 */
 void ConfRecord::_adopt_values(KeyValuePair* src) {
-  // The list name is the only value without a key, and follows the metadata. The
-  //   parser makes nothing but KeyValuePairs, but nextKVP() would pass over it.
-  while ((nullptr != src) && (nullptr != src->getKey())) {
-    src = (KeyValuePair*) src->nextValue();
+  // The first value is the record's metadata.
+  if (nullptr != src) {
+    src = src->nextKVP();
   }
   while (nullptr != src) {
     KeyValuePair* dest = _kvp->valueWithKey(src->getKey());
-- 
2.43.0


From faa82808a46dba63e42d74c29b16e96fbe026bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:17 +0000
Subject: [PATCH 183/213] fix: a configuration record judges what it parsed
 once the parser is done

---
 src/Storage/RecordTypes/ConfRecord.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/Storage/RecordTypes/ConfRecord.cpp b/src/Storage/RecordTypes/ConfRecord.cpp
index ede1aa7..dc8d098 100644
--- a/src/Storage/RecordTypes/ConfRecord.cpp
+++ b/src/Storage/RecordTypes/ConfRecord.cpp
@@ -293,11 +293,14 @@ int8_t ConfRecord::deserialize(StringBuilder* raw, TCode format) {
       #if defined(__BUILD_HAS_CBOR)
       {
         KeyValuePair* loaded = nullptr;
-        CBORArgListener cl(&loaded);
-        cbor::input_static input(raw->string(), raw->length());
-        cbor::decoder decoder(input, cl);
-        decoder.run();
-        ret = ((decoder.failed() || cl.memError()) ? -2 : 0);
+        {
+          // The listener might hold maps that ended early, until it is destroyed.
+          CBORArgListener cl(&loaded);
+          cbor::input_static input(raw->string(), raw->length());
+          cbor::decoder decoder(input, cl);
+          decoder.run();
+          ret = ((decoder.failed() || cl.memError()) ? -2 : 0);
+        }
         if (nullptr != loaded) {
           if (0 == ret) {
             _adopt_values(loaded);
-- 
2.43.0


From ad3d9c4d84fe0b6eb29d588fc65c521072038b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:59 +0000
Subject: [PATCH 184/213] fix: the depth to which C3PValueDecoder recurses is
 not unlimited

---
 src/C3PValue/C3PValue.cpp | 6 +++++-
 src/C3PValue/C3PValue.h   | 3 +++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/C3PValue/C3PValue.cpp b/src/C3PValue/C3PValue.cpp
index cf3ba22..3f00c7c 100644
--- a/src/C3PValue/C3PValue.cpp
+++ b/src/C3PValue/C3PValue.cpp
@@ -861,7 +861,9 @@ C3PValue* C3PValueDecoder::_next(uint32_t* offset) {
   uint32_t local_offset  = *offset;
   bool consume_without_value = false;
 
-  if (INPUT_LEN > local_offset) {
+  // The depth of the recursion is chosen by whomever wrote the input.
+  if ((INPUT_LEN > local_offset) && (C3P_VALUE_DECODER_MAX_DEPTH >= _depth)) {
+    _depth++;
     uint64_t _length_extra  = 0;   // Length of data specified by the length field above.
     const uint8_t C_TYPE    = _in->byteAt(local_offset++);   // The first byte
     const uint8_t MAJORTYPE = (uint8_t) (C_TYPE >> 5);
@@ -874,6 +876,7 @@ C3PValue* C3PValueDecoder::_next(uint32_t* offset) {
         if (!_get_length_field(&local_offset, &_length_extra, MINORTYPE)) {
           // If we didn't have enough bytes to get the attached integer field,
           //   there is no hope, and for clarity's sake, we'll bail out here.
+          _depth--;
           return nullptr;
         }
         break;
@@ -1024,6 +1027,7 @@ C3PValue* C3PValueDecoder::_next(uint32_t* offset) {
         }
         break;
     }
+    _depth--;
   }
 
   if ((nullptr != value) && value->memError() && (TCode::NONE != value->tcode())) {
diff --git a/src/C3PValue/C3PValue.h b/src/C3PValue/C3PValue.h
index 04edeea..fd20138 100644
--- a/src/C3PValue/C3PValue.h
+++ b/src/C3PValue/C3PValue.h
@@ -335,6 +335,8 @@ class C3PValue {
 };
 
 
+#define C3P_VALUE_DECODER_MAX_DEPTH   32   // The most values that may be within one another.
+
 /*
 * This is a decoder class that prefers to rely on heap allocation of a
 *   complicated type-wrapper object to support unknown type flows.
@@ -349,6 +351,7 @@ class C3PValueDecoder {
 
   private:
     StringBuilder* _in;
+    uint8_t        _depth = 0;   // How many values is the current one within?
 
     bool       _get_length_field(uint32_t* offset, uint64_t* val_ret, uint8_t minorType);
     C3PValue*  _next(uint32_t* offset);
-- 
2.43.0


From d084a9a1e2c75cfc38dace787e8faeb124452468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:18 +0000
Subject: [PATCH 185/213] fix: a StringBuilder of very many fragments does not
 exhaust the stack

---
 src/StringBuilder.cpp | 51 ++++++++++++++++++++-----------------------
 1 file changed, 24 insertions(+), 27 deletions(-)

diff --git a/src/StringBuilder.cpp b/src/StringBuilder.cpp
index 7109e54..085ffbf 100644
--- a/src/StringBuilder.cpp
+++ b/src/StringBuilder.cpp
@@ -1540,15 +1540,19 @@ void StringBuilder::printDebug(StringBuilder* output) {
 * Private functions below this block
 *******************************************************************************/
 /**
-* Recursive function to get the length of string material starting from any
+* Get the length of string material starting from any
 *   particular node. Does not consider the collapsed buffer.
 *
 * @param node The StrLL to treat as the root.
 * @return The calculatedlength.
 */
 int StringBuilder::_total_str_len(StrLL* node) {
-  int len = ((node->next != nullptr) ? _total_str_len(node->next) : 0);
-  return (len + node->len);
+  int len = 0;
+  while (nullptr != node) {
+    len += node->len;
+    node = node->next;
+  }
+  return len;
 }
 
 
@@ -1557,26 +1561,21 @@ int StringBuilder::_total_str_len(StrLL* node) {
 *   offset. If the function returns a not-null pointer, offset will have been
 *   updated to contain the offset within that StrLL that corresponds to the
 *   offset originally requested. Thus, specific bytes can be asked for.
-* NOTE: Recursion in use.
 *
 * @param str_ll is the StrLL in which to begin searching.
-* @param offset is the pass-by-reference parameter mutated by the recursion.
+* @param offset is the pass-by-reference parameter mutated by the search.
 * @return A pointer to the StrLL containing the offset, or nullptr on failure.
 */
 StrLL* StringBuilder::_get_ll_containing_offset(StrLL* str_ll, int* offset) {
-  StrLL* ret = nullptr;
-  const int STACKED_OFFSET = *offset;
-  if (STACKED_OFFSET < str_ll->len) {    // If we weren't asked for an offset
-    ret = str_ll;                        //   past the end our bounds, we're
-  }                                      //   it. Otherwise, return nullptr.
-  else if (nullptr != str_ll->next) {    // Can we go deeper?
-    *offset = (STACKED_OFFSET - str_ll->len);
-    ret = _get_ll_containing_offset(str_ll->next, offset);
+  while ((*offset >= str_ll->len) && (nullptr != str_ll->next)) {
+    *offset -= str_ll->len;              // Can we go deeper?
+    str_ll = str_ll->next;
   }
-  else {           // We could simply fall through, but this adds some safety by
-    *offset = -1;  //   setting the mutated parameter to a single state that
-  }                //   indicates failure (it would otherwise be undefined).
-  return ret;
+  if (*offset < str_ll->len) {           // If we weren't asked for an offset
+    return str_ll;                       //   past the end our bounds, this is
+  }                                      //   it. Otherwise, return nullptr.
+  *offset = -1;    // Set the mutated parameter to a single state that indicates
+  return nullptr;  //   failure (it would otherwise be undefined).
 }
 
 
@@ -1620,7 +1619,7 @@ int StringBuilder::_deepcopy_ll_bytes(StrLL* src, StrLL* dest, const int COPY_LE
 
 
 /**
-* Recursive function to add a new string onto the end of the list.
+* Function to add a new string onto the end of the list.
 *
 * @param current The StrLL to treat as the root.
 * @param nu A newly-formed StrLL to be added to the list.
@@ -1628,14 +1627,14 @@ int StringBuilder::_deepcopy_ll_bytes(StrLL* src, StrLL* dest, const int COPY_LE
 */
 StrLL* StringBuilder::_stack_str_onto_list(StrLL* current, StrLL* nu) {
   if (nullptr != current) {
-    if (nullptr == current->next) current->next = nu;
-    else _stack_str_onto_list(current->next, nu);
+    while (nullptr != current->next) {  current = current->next;  }
+    current->next = nu;
   }
   return current;
 }
 
 /**
-* Non-recursive override to make additions less cumbersome.
+* Override to make additions less cumbersome.
 *
 * @param nu A newly-formed StrLL to be added to the list.
 * @return The StrLL reference that precedes the parameter nu in the list.
@@ -1732,17 +1731,15 @@ void StringBuilder::_destroy_str_ll(StrLL* r_node) {
     //pthread_mutex_lock(&_mutex);
   #elif defined(__BUILD_HAS_FREERTOS)
   #endif
-  if (r_node != nullptr) {
-    if (r_node->next != nullptr) {
-      _destroy_str_ll(r_node->next);
-      r_node->next  = nullptr;
-    }
+  while (r_node != nullptr) {
+    StrLL* next_node = r_node->next;
     const bool WAS_MERGED_MALLOC = (r_node->str == (((uint8_t*) r_node) + sizeof(StrLL)));
     if (!WAS_MERGED_MALLOC) {
       free(r_node->str);
     }
-    free(r_node);
     if (r_node == _root) _root = nullptr;
+    free(r_node);
+    r_node = next_node;
   }
   #if defined(__BUILD_HAS_PTHREADS)
     //pthread_mutex_unlock(&_mutex);
-- 
2.43.0


From 6b3066ac616be5375350d2bd69ef4671d486e123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:06 +0000
Subject: [PATCH 186/213] fix: writeRemoteLog() tells a link that is not
 established from an empty log

---
 src/M2MLink/M2MLink.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/M2MLink/M2MLink.cpp b/src/M2MLink/M2MLink.cpp
index d138eab..0098084 100644
--- a/src/M2MLink/M2MLink.cpp
+++ b/src/M2MLink/M2MLink.cpp
@@ -388,8 +388,8 @@ int8_t M2MLink::reset() {
 int8_t M2MLink::writeRemoteLog(StringBuilder* outbound_log, bool need_reply) {
   int8_t ret = -1;
   if (!outbound_log->isEmpty()) {
+    ret--;
     if (_flags.value(M2MLINK_FLAG_ESTABLISHED)) {
-      ret--;
       M2MMsgHdr hdr(M2MMsgCode::LOG, 0, (need_reply ? M2MMSGHDR_FLAG_EXPECTING_REPLY : 0));
       M2MMsg* msg = _allocate_m2mmsg(&hdr, BusOpcode::TX);
       ret--;
-- 
2.43.0


From 2cd64d161538f547b4bfb4dedccb960e972e345f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:58 +0000
Subject: [PATCH 187/213] fix: a TimeSeries that is not full is serialized
 without error

---
 src/TimeSeries/TimeSeries.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/TimeSeries/TimeSeries.cpp b/src/TimeSeries/TimeSeries.cpp
index 1245479..a19652f 100644
--- a/src/TimeSeries/TimeSeries.cpp
+++ b/src/TimeSeries/TimeSeries.cpp
@@ -239,8 +239,8 @@ template <> int C3PTypeConstraint<TimeSeriesBase*>::serialize(void* _obj, String
             for (uint32_t i = 0; i < RANGE_TO_SERIALIZE; i++) {
               obj->_serialize_value(&encoder, (real_idx + i) % obj->_window_size);
             }
-          ret = 0;
         }
+        ret = 0;
       }
       break;
     #endif  // __BUILD_HAS_CBOR
-- 
2.43.0


From 4ba28c927698eb3cb82e76440495a7404682d7ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:29 +0000
Subject: [PATCH 188/213] fix: a TimeSeries is read alike from pairs in any
 order, over any prior state, and of any type

---
 src/TimeSeries/TimeSeries.cpp | 42 ++++++++++++++++++++++++++---------
 1 file changed, 31 insertions(+), 11 deletions(-)

diff --git a/src/TimeSeries/TimeSeries.cpp b/src/TimeSeries/TimeSeries.cpp
index a19652f..de90d33 100644
--- a/src/TimeSeries/TimeSeries.cpp
+++ b/src/TimeSeries/TimeSeries.cpp
@@ -251,22 +251,32 @@ template <> int C3PTypeConstraint<TimeSeriesBase*>::serialize(void* _obj, String
 }
 
 
+/*
+* Take the value with the given key, but only if it can be had as the type of its
+*   destination. It came from elsewhere, and might be of any type at all.
+*/
+template <class T> static bool _take_value(KeyValuePair* kvp, const char* KEY, T* dest) {
+  KeyValuePair* val = kvp->valueWithKey(KEY);
+  return ((nullptr != val) && (0 == val->get_as(dest)));
+}
+
+
 template <> int8_t C3PTypeConstraint<TimeSeriesBase*>::construct(void* _obj, KeyValuePair* kvp) {
   int8_t ret = -1;
   if ((nullptr != _obj) & (nullptr != kvp)) {
     ret--;
     // Always take win, because it may indicate a re-windowing.
     uint32_t win_sz = 0;
-    const bool CONTAINED_WIN_KEY = (0 == kvp->valueWithKey("win", &win_sz));
+    const bool CONTAINED_WIN_KEY = _take_value(kvp, "win", &win_sz);
 
     TimeSeriesBase* obj = *((TimeSeriesBase**) _obj);
     if (nullptr == obj) {
       // TimeSeriesBase requires tc in order to allocate, and having windowSize
       //   up-front is also helpful (but not required). If the key isn't in the
       //   received structure, it will be left as zero.
-      TCode tc_val = TCode::NONE;
-      if (0 == kvp->valueWithKey("tc", (uint8_t*) &tc_val)) {
-        switch (tc_val) {
+      uint8_t tc_val = 0;
+      if (_take_value(kvp, "tc", &tc_val)) {
+        switch (IntToTcode(tc_val)) {
           case TCode::UINT8:   obj = (TimeSeriesBase*) new TimeSeries<uint8_t>(win_sz);   break;
           case TCode::UINT16:  obj = (TimeSeriesBase*) new TimeSeries<uint16_t>(win_sz);  break;
           case TCode::UINT32:  obj = (TimeSeriesBase*) new TimeSeries<uint32_t>(win_sz);  break;
@@ -296,8 +306,8 @@ template <> int8_t C3PTypeConstraint<TimeSeriesBase*>::construct(void* _obj, Key
       // First: Do the order invariant things.
       char* name_val   = nullptr;
       char* unit_val   = nullptr;
-      kvp->valueWithKey("n", &name_val);
-      kvp->valueWithKey("u", &unit_val);
+      _take_value(kvp, "n", &name_val);
+      _take_value(kvp, "u", &unit_val);
       if (name_val) {  obj->name(name_val);             }
       if (unit_val) {  obj->units((SIUnit*) unit_val);  }
 
@@ -307,22 +317,32 @@ template <> int8_t C3PTypeConstraint<TimeSeriesBase*>::construct(void* _obj, Key
         obj->windowSize(win_sz);  // This will initialize, as well.
       }
 
-      kvp->valueWithKey("ttl", &(obj->_samples_total));
+      if (_take_value(kvp, "ttl", &(obj->_samples_total)) && (0 < obj->windowSize())) {
+        // The next sample to be fed must overwrite the oldest.
+        obj->_sample_idx = (obj->_samples_total % obj->windowSize());
+      }
+      obj->invalidateStats();
 
       uint32_t idx_val = 0;
       C3PValue* dat_val = kvp->valueWithKey("dat");
-      const bool CONTAINED_IDX_KEY = (0 == kvp->valueWithKey("idx", &idx_val));
+      const bool CONTAINED_IDX_KEY = _take_value(kvp, "idx", &idx_val);
       if (CONTAINED_IDX_KEY & (nullptr != dat_val)) {
         // The dat and idx keys go together, and refer to the (samples)
         //   beginning at the (absolute index), respectively.
         // But because we took ttl already, we need to do a direct mem
         //   manipulation, rather than calling feedSeries().
-        const uint32_t SAMPLE_COUNT = strict_min(dat_val->count(), obj->windowSize());
-        const uint32_t ADJUSTED_IDX = idx_val + (SAMPLE_COUNT - dat_val->count());
+        // NOTE: Whatever follows dat in the map is not among the samples.
+        uint32_t dat_count = 1;
+        for (C3PValue* nxt = dat_val->nextValue(); ((nullptr != nxt) && !nxt->has_key()); nxt = nxt->nextValue()) {
+          dat_count++;
+        }
+        const uint32_t SAMPLE_COUNT = strict_min(dat_count, obj->windowSize());
         const uint32_t SIZE_OF_TYPE = sizeOfType(obj->tcode());
+        // How far ahead of the next sample to be fed does the data begin?
+        const uint32_t BACKSET = ((0 < SAMPLE_COUNT) ? ((obj->_samples_total - idx_val) % obj->windowSize()) : 0);
         uint32_t count = 0;
         while ((nullptr != dat_val) && (count < SAMPLE_COUNT)) {
-          const uint32_t ABS_MEM_IDX  = (count + (obj->_samples_total - ADJUSTED_IDX)) % obj->windowSize();
+          const uint32_t ABS_MEM_IDX  = ((obj->_sample_idx + (obj->windowSize() - BACKSET)) + count) % obj->windowSize();
           // NOTE: The strange casting dance below is to convince the compiler
           //   that we intend to increment the pointer by some byte quantity (as
           //   opposed to the size of some multi-byte type).
-- 
2.43.0


From a5a66da111bb067aab190cc32f53cd28011df93f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:29 +0000
Subject: [PATCH 189/213] fix: ImageCatcher takes only an ID that fits

---
 src/Image/ImageUtils/ImageCatcher.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Image/ImageUtils/ImageCatcher.cpp b/src/Image/ImageUtils/ImageCatcher.cpp
index ec8027e..afb17c9 100644
--- a/src/Image/ImageUtils/ImageCatcher.cpp
+++ b/src/Image/ImageUtils/ImageCatcher.cpp
@@ -46,7 +46,8 @@ int8_t ImageCatcher::apply(KeyValuePair* kvp) {
   int8_t ret = -1;
   if (nullptr != kvp) {
     uint32_t remote_id = 0;
-    if (0 == kvp->valueWithKey("id", &remote_id)) {
+    KeyValuePair* id_container = kvp->valueWithKey("id");
+    if ((nullptr != id_container) && (0 == id_container->get_as(&remote_id))) {
       if (0 != remote_id) {
         if (0 == _id) {
           // If the ID isn't yet assigned, we take whatever is in the payload. Going
-- 
2.43.0


From 817db8b1608494b37813d3ea9a554d76f6628c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:17 +0000
Subject: [PATCH 190/213] fix: a TimeSeries that is refused memory is not read
 as one that is lesser

---
 src/TimeSeries/TimeSeries.cpp | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/TimeSeries/TimeSeries.cpp b/src/TimeSeries/TimeSeries.cpp
index de90d33..c46e7de 100644
--- a/src/TimeSeries/TimeSeries.cpp
+++ b/src/TimeSeries/TimeSeries.cpp
@@ -270,7 +270,9 @@ template <> int8_t C3PTypeConstraint<TimeSeriesBase*>::construct(void* _obj, Key
     const bool CONTAINED_WIN_KEY = _take_value(kvp, "win", &win_sz);
 
     TimeSeriesBase* obj = *((TimeSeriesBase**) _obj);
-    if (nullptr == obj) {
+    const bool OBJ_IS_OURS = (nullptr == obj);
+    bool mem_fault = false;
+    if (OBJ_IS_OURS) {
       // TimeSeriesBase requires tc in order to allocate, and having windowSize
       //   up-front is also helpful (but not required). If the key isn't in the
       //   received structure, it will be left as zero.
@@ -291,10 +293,9 @@ template <> int8_t C3PTypeConstraint<TimeSeriesBase*>::construct(void* _obj, Key
             break;
         }
       }
-      *((TimeSeriesBase**) _obj) = obj; // And assign.
       if (nullptr != obj) {
         if (0 < win_sz) {
-          obj->init();  // Initialize if we have everything needed.
+          mem_fault |= (0 != obj->init());  // Initialize if we have everything needed.
         }
       }
     }
@@ -308,13 +309,13 @@ template <> int8_t C3PTypeConstraint<TimeSeriesBase*>::construct(void* _obj, Key
       char* unit_val   = nullptr;
       _take_value(kvp, "n", &name_val);
       _take_value(kvp, "u", &unit_val);
-      if (name_val) {  obj->name(name_val);             }
-      if (unit_val) {  obj->units((SIUnit*) unit_val);  }
+      if (name_val && *name_val) {  mem_fault |= (0 != obj->name(name_val));             }
+      if (unit_val && *unit_val) {  mem_fault |= (0 != obj->units((SIUnit*) unit_val));  }
 
       // Next, look for indications that the window size should be set, and
       //   change it if needed.
-      if (CONTAINED_WIN_KEY & (win_sz != obj->windowSize())) {
-        obj->windowSize(win_sz);  // This will initialize, as well.
+      if (CONTAINED_WIN_KEY & (win_sz != obj->windowSize()) & !mem_fault) {
+        mem_fault |= (0 != obj->windowSize(win_sz));  // This will initialize, as well.
       }
 
       if (_take_value(kvp, "ttl", &(obj->_samples_total)) && (0 < obj->windowSize())) {
@@ -352,7 +353,17 @@ template <> int8_t C3PTypeConstraint<TimeSeriesBase*>::construct(void* _obj, Key
           count++;
         }
       }
+
+      if (mem_fault) {
+        // Without memory for all of it, we'd have a different series.
+        ret = -3;
+        if (OBJ_IS_OURS) {
+          delete obj;
+          obj = nullptr;
+        }
+      }
     }
+    *((TimeSeriesBase**) _obj) = obj; // And assign.
   }
   return ret;
 }
-- 
2.43.0


From a7790cde5e282646dee2f67386d1c8f0c1ebdd6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:29 +0000
Subject: [PATCH 191/213] fix: a tag that CBORArgListener saw belongs to the
 next value only

---
 src/C3PValue/KeyValuePair.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/C3PValue/KeyValuePair.cpp b/src/C3PValue/KeyValuePair.cpp
index a980b70..1736a30 100644
--- a/src/C3PValue/KeyValuePair.cpp
+++ b/src/C3PValue/KeyValuePair.cpp
@@ -434,6 +434,7 @@ CBORArgListener::~CBORArgListener() {
 * Causes the KVP given as the argument to be added to the existing data.
 */
 void CBORArgListener::_caaa(KeyValuePair* nu) {
+  _pending_c3p_tag = TCode::NONE;   // A tag belongs to one value only.
   if (0 < _wait_map) {
     _wait_map--;
     if (nullptr != _wait) {
@@ -526,6 +527,7 @@ void CBORArgListener::_drop_pair() {
 
 
 void CBORArgListener::on_string(char* val) {
+  _pending_c3p_tag = TCode::NONE;
   // Strings need special handling, because they might be used for map keys.
   int len = strlen(val);
   char* temp = (char*) malloc(len+1);
@@ -614,10 +616,12 @@ void CBORArgListener::on_tag(unsigned int tag) {
 };
 
 void CBORArgListener::on_array(int size) {
+  _pending_c3p_tag = TCode::NONE;
   _wait_array = (int32_t) size;
 };
 
 void CBORArgListener::on_map(int size) {
+  _pending_c3p_tag = TCode::NONE;
   if ((0 < _wait_map) && (nullptr != _wait) && (0 == _wait_array)) {
     if (0 < size) {
       _open_nest(size);
-- 
2.43.0


From 409941479b9e6e29da2df5f1825a5c9706375c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:04 +0000
Subject: [PATCH 192/213] fix: a TimeSeries whose size can not be expressed is
 refused

---
 src/TimeSeries/TimeSeries.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/TimeSeries/TimeSeries.h b/src/TimeSeries/TimeSeries.h
index c725e24..40d09af 100644
--- a/src/TimeSeries/TimeSeries.h
+++ b/src/TimeSeries/TimeSeries.h
@@ -365,7 +365,7 @@ template <class T> int8_t TimeSeries<T>::_reallocate_sample_window(uint32_t win)
         samples = nullptr;
       }
       _window_size = win;
-      if (win > 0) {
+      if ((win > 0) & (win <= (UINT32_MAX / sizeof(T)))) {
         samples = (T*) malloc(win * sizeof(T));
       }
       ret = _zero_samples();   // Fails if there is no sample memory.
-- 
2.43.0


From 79272e170bc46ec84b5115cb51341693bffe3b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:04 +0000
Subject: [PATCH 193/213] fix: a StopWatch survives the wrapping of its count

---
 src/TimerTools/StopWatch.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/TimerTools/StopWatch.cpp b/src/TimerTools/StopWatch.cpp
index 4adfd09..7c73d3a 100644
--- a/src/TimerTools/StopWatch.cpp
+++ b/src/TimerTools/StopWatch.cpp
@@ -56,7 +56,7 @@ ISR_FUNC bool StopWatch::addRuntime(const unsigned long START_TIME, const unsign
   _run_time_best    = strict_min(_run_time_last, _run_time_best);
   _run_time_worst   = strict_max(_run_time_last, _run_time_worst);
   _run_time_total  += _run_time_last;
-  _run_time_average = _run_time_total / _executions;
+  _run_time_average = ((0 < _executions) ? (_run_time_total / _executions) : 0);   // The count might wrap.
   _start_micros     = 0;
   return true;
 }
-- 
2.43.0


From a34f0e6e22fe583481193329486bd5ef6a65e6fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:05 +0000
Subject: [PATCH 194/213] fix: a JitterProbe survives the wrapping of its count

---
 src/TimerTools/C3PScheduler.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/TimerTools/C3PScheduler.cpp b/src/TimerTools/C3PScheduler.cpp
index 0cf7394..685f48e 100644
--- a/src/TimerTools/C3PScheduler.cpp
+++ b/src/TimerTools/C3PScheduler.cpp
@@ -150,7 +150,7 @@ FAST_FUNC int8_t C3PScheduledJitterProbe::_execute() {
   if (jitter.initialized()) {
     const unsigned int NOW = micros();
     uint32_t wrapped_jitter = (NOW - nextExec());
-    if (nextExec() > NOW) {
+    if (0 > (int32_t) wrapped_jitter) {   // The counter might wrap between the two.
       wrapped_jitter = (nextExec() - NOW);
     }
     jitter.feedSeries(wrapped_jitter);
-- 
2.43.0


From 7bdc3c16a0af06f6e085006a846f008c078c1a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:25 +0000
Subject: [PATCH 195/213] fix: an I2CBusOp that is made with an address keeps
 it

---
 src/BusQueue/I2CBusOp.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/BusQueue/I2CBusOp.cpp b/src/BusQueue/I2CBusOp.cpp
index b8cb977..5445616 100644
--- a/src/BusQueue/I2CBusOp.cpp
+++ b/src/BusQueue/I2CBusOp.cpp
@@ -47,8 +47,8 @@ I2CBusOp::I2CBusOp(BusOpcode nu_op, BusOpCallback* requester) : I2CBusOp() {
 *   under the exclusive control of the caller.
 */
 I2CBusOp::I2CBusOp(BusOpcode nu_op, uint8_t dev_addr, int16_t sub_addr, uint8_t* buffer, uint16_t len) : I2CBusOp() {
-  dev_addr     = dev_addr;
-  sub_addr     = sub_addr;
+  this->dev_addr = dev_addr;
+  this->sub_addr = sub_addr;
   set_opcode(nu_op);
   setBuffer(buffer, len);
 };
-- 
2.43.0


From c1a8876bb66b23391be74d2e7ff9fc75b81e25ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:35 +0000
Subject: [PATCH 196/213] fix: printing a StringBuilder leaves it as it was

---
 src/StringBuilder.cpp | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/StringBuilder.cpp b/src/StringBuilder.cpp
index 085ffbf..8e24519 100644
--- a/src/StringBuilder.cpp
+++ b/src/StringBuilder.cpp
@@ -1516,23 +1516,21 @@ int StringBuilder::split(const char* delims) {
 
 /**
 * This method prints a minimal ASCII representations of the bytes this instance
-*   contains.
-* TODO: Unfortunately, it also mutates its structure...
+*   contains. It does not mutate its structure.
 *
 * @param output The StringBuilder object into which output is written.
 */
 void StringBuilder::printDebug(StringBuilder* output) {
-  uint8_t* temp = string();
-  int temp_len  = length();
-
-  if ((temp != nullptr) && (temp_len > 0)) {
-    StringBuilder tmp;
-    for (int i = 0; i < temp_len; i++) {
-      tmp.concatf("%02x ", *(temp + i));
+  StringBuilder tmp;
+  StrLL* current = _root;
+  while (nullptr != current) {
+    for (int i = 0; i < current->len; i++) {
+      tmp.concatf("%02x ", *(current->str + i));
     }
-    tmp.string();
-    output->concatHandoff(&tmp);
+    current = current->next;
   }
+  tmp.string();
+  output->concatHandoff(&tmp);
 }
 
 
-- 
2.43.0


From 504c7a119df6aae66b80092d3e44855c23272aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:12 +0000
Subject: [PATCH 197/213] fix: a record is hashed and parsed within its bounds
 without memory to gather it

---
 src/Storage/RecordTypes/ConfRecord.cpp |  6 +++++-
 src/Storage/SimpleDataRecord.cpp       | 20 ++++++++++++++++++--
 2 files changed, 23 insertions(+), 3 deletions(-)

diff --git a/src/Storage/RecordTypes/ConfRecord.cpp b/src/Storage/RecordTypes/ConfRecord.cpp
index dc8d098..9b92d4b 100644
--- a/src/Storage/RecordTypes/ConfRecord.cpp
+++ b/src/Storage/RecordTypes/ConfRecord.cpp
@@ -296,7 +296,11 @@ int8_t ConfRecord::deserialize(StringBuilder* raw, TCode format) {
         {
           // The listener might hold maps that ended early, until it is destroyed.
           CBORArgListener cl(&loaded);
-          cbor::input_static input(raw->string(), raw->length());
+          uint8_t* raw_buf = raw->string();
+          if (1 < raw->count()) {
+            return -2;   // There wasn't memory to gather it.
+          }
+          cbor::input_static input(raw_buf, raw->length());
           cbor::decoder decoder(input, cl);
           decoder.run();
           ret = ((decoder.failed() || cl.memError()) ? -2 : 0);
diff --git a/src/Storage/SimpleDataRecord.cpp b/src/Storage/SimpleDataRecord.cpp
index ddb9175..f66bc78 100644
--- a/src/Storage/SimpleDataRecord.cpp
+++ b/src/Storage/SimpleDataRecord.cpp
@@ -21,6 +21,22 @@ uint32_t static_hash_wrapper_fxn(const uint8_t* BUF, const uint32_t LEN) {
 }
 
 
+/* The same hash of a buffer that might not be contiguous in memory. */
+static uint32_t hash_of_buffer(StringBuilder* buf) {
+  uint32_t ret = 0x811C9DC5;
+  buf->string();   // NOTE: If there isn't memory to gather it, it is hashed in pieces.
+  const int FRAG_COUNT = buf->count();
+  for (int i = 0; i < FRAG_COUNT; i++) {
+    int len = 0;
+    const uint8_t* FRAG = buf->position(i, &len);
+    for (int n = 0; n < len; n++) {
+      ret = (ret ^ *(FRAG + n)) * 0x01000193;
+    }
+  }
+  return ret;
+}
+
+
 /*******************************************************************************
 * SimpleDataRecord base-class functions
 *******************************************************************************/
@@ -160,7 +176,7 @@ int8_t SimpleDataRecord::save(uint32_t storage_tag, const char* name, StringBuil
     _storage_tag = storage_tag;
     if (0 == serialize(outbound_buf, _format)) {
       ret--;
-      _hash = static_hash_wrapper_fxn(outbound_buf->string(), outbound_buf->length());
+      _hash = hash_of_buffer(outbound_buf);
       _data_length = outbound_buf->length();
       if (0 == _descriptor_serialize(outbound_buf)) {
         ret = 0;
@@ -273,7 +289,7 @@ uint32_t SimpleDataRecord::_calculate_hash() {
   uint32_t ret = 0;
   StringBuilder _record_bin;
   if (0 == serialize(&_record_bin, _format)) {
-    ret = static_hash_wrapper_fxn(_record_bin.string(), _record_bin.length());
+    ret = hash_of_buffer(&_record_bin);
   }
   return ret;
 }
-- 
2.43.0


From e4808f6d395df1f652122c2e11565d28e205d9ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:47 +0000
Subject: [PATCH 198/213] fix: the console's help doesn't depend on memory for
 its format

---
 src/Console/C3PConsole.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/Console/C3PConsole.cpp b/src/Console/C3PConsole.cpp
index cb1b21b..9ad2f71 100644
--- a/src/Console/C3PConsole.cpp
+++ b/src/Console/C3PConsole.cpp
@@ -389,8 +389,6 @@ void ParsingConsole::clearHistory() {
 */
 void ParsingConsole::printHelp(StringBuilder* output) {
   int count = _cmd_list.size();
-  StringBuilder fmt("%-");
-  fmt.concatf("%ds %%s   %%s\n", _max_cmd_len+2);
   StringBuilder::styleHeader2(output, "Help");
   ConsoleCommand* tmpcmd = nullptr;
   for (int i = 0; i < count; i++) {
@@ -402,7 +400,7 @@ void ParsingConsole::printHelp(StringBuilder* output) {
       sc_str[1] = tmpcmd->shortcut;
       sc_str[2] = ')';
     }
-    output->concatf((const char*) fmt.string(), tmpcmd->cmd, sc_str, tmpcmd->help_text);
+    output->concatf("%-*s %s   %s\n", (_max_cmd_len + 2), tmpcmd->cmd, sc_str, tmpcmd->help_text);
   }
 }
 
-- 
2.43.0


From edcbed71199af0bfb90f729cc5cd17c1ed945b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:13 +0000
Subject: [PATCH 199/213] fix: a value is serialized whole, or is not sent, if
 memory is refused

---
 src/C3PValue/C3PType.cpp                      | 14 +++++++++++---
 src/C3PValue/KeyValuePair.cpp                 | 13 +++++++++++--
 .../C3PTypePipe/C3PTypePipe.cpp               |  5 +++--
 src/cbor-cpp/cbor.cpp                         | 19 +++++++++++++++++--
 src/cbor-cpp/cbor.h                           |  6 +++++-
 5 files changed, 47 insertions(+), 10 deletions(-)

diff --git a/src/C3PValue/C3PType.cpp b/src/C3PValue/C3PType.cpp
index 87a7ba3..bb3c663 100644
--- a/src/C3PValue/C3PType.cpp
+++ b/src/C3PValue/C3PType.cpp
@@ -2543,9 +2543,13 @@ template <> int         C3PTypeConstraint<StringBuilder*>::serialize(void* obj,
       {
         StringBuilder* o = (StringBuilder*) obj;
         if (nullptr != o) {
+          char* str = (char*) o->string();
+          if (1 < o->count()) {
+            return -2;   // There was no memory to make the string contiguous.
+          }
           cbor::output_stringbuilder output(out);
           cbor::encoder encoder(output);
-          encoder.write_string((char*) o->string(), (uint32_t) o->length());
+          encoder.write_string(str, (uint32_t) o->length());
           ret = 0;   // TODO: Safe SB API.
         }
       }
@@ -2815,7 +2819,7 @@ template <> int         C3PTypeConstraint<KeyValuePair*>::serialize(void* obj, S
   KeyValuePair* subj = ((KeyValuePair*) obj);
   // NOTE: Hidden recursion. This function is almost certainly being called by
   //   some_other_subj->serialize(out, FORMAT). Keep your bearings...
-  return (((nullptr != subj) && (0 == subj->serialize(out, FORMAT))) ? 0 : -1);
+  return ((nullptr != subj) ? subj->serialize(out, FORMAT) : -1);
 }
 
 
@@ -2872,10 +2876,14 @@ template <> int         C3PTypeConstraint<Image*>::serialize(void* obj, StringBu
       {
         StringBuilder img_blob;   // The header and the pixels are a single value.
         if ((nullptr != img) && (0 == img->serialize(&img_blob))) {
+          uint8_t* blob = img_blob.string();
+          if (1 < img_blob.count()) {
+            return -2;   // There was no memory to make the blob contiguous.
+          }
           cbor::output_stringbuilder output(out);
           cbor::encoder encoder(output);
           encoder.write_tag(C3P_CBOR_VENDOR_CODE | TcodeToInt(TCODE));
-          encoder.write_bytes(img_blob.string(), img_blob.length());
+          encoder.write_bytes(blob, img_blob.length());
           ret = 0;   // TODO: Safe SB API.
         }
       }
diff --git a/src/C3PValue/KeyValuePair.cpp b/src/C3PValue/KeyValuePair.cpp
index 1736a30..e6b23d6 100644
--- a/src/C3PValue/KeyValuePair.cpp
+++ b/src/C3PValue/KeyValuePair.cpp
@@ -265,17 +265,21 @@ int8_t KeyValuePair::serialize(StringBuilder* out, const TCode FORMAT) {
         uint32_t kvp_count = 0;
         cbor::output_stringbuilder output(&local_output);
         cbor::encoder local_encoder(output);
-        while (nullptr != src) {
+        bool mem_error = false;
+        while ((nullptr != src) & !mem_error) {
           C3PType* t_helper = getTypeHelper(src->tcode());
           if ((nullptr != t_helper) && src->_has_storage()) {
             char* tmp_key = src->getKey();
             if ((nullptr != tmp_key) && (strlen(tmp_key) > 0)) {
               StringBuilder local_value;
               ret = t_helper->serialize(src->_type_pun_get(), &local_value, FORMAT);
+              // A value that was packed, but isn't there, was refused memory.
+              mem_error = (-2 == ret) | ((0 == ret) & local_value.isEmpty());
               if (!local_value.isEmpty()) {
                 // Without a value (if unset, for instance), a key would be taken
                 //   to belong to whatever comes next.
                 local_encoder.write_string(tmp_key);
+                mem_error |= output.memError();
                 local_output.concatHandoff(&local_value);
                 kvp_count++;
               }
@@ -286,10 +290,15 @@ int8_t KeyValuePair::serialize(StringBuilder* out, const TCode FORMAT) {
           }
           src = src->_next_sib_with_key();
         }
-        if (kvp_count > 0) {
+        if ((kvp_count > 0) & !mem_error) {
           cbor::output_stringbuilder top_output(out);
           cbor::encoder top_encoder(top_output);
           top_encoder.write_map(kvp_count);  // This is a map.
+          mem_error |= top_output.memError();
+        }
+        if (mem_error) {
+          local_output.clear();
+          ret = -2;
         }
       }
       break;
diff --git a/src/Pipes/BufferAccepter/C3PTypePipe/C3PTypePipe.cpp b/src/Pipes/BufferAccepter/C3PTypePipe/C3PTypePipe.cpp
index c44d759..ca0ce1c 100644
--- a/src/Pipes/BufferAccepter/C3PTypePipe/C3PTypePipe.cpp
+++ b/src/Pipes/BufferAccepter/C3PTypePipe/C3PTypePipe.cpp
@@ -85,12 +85,13 @@ int8_t C3PTypePipeSource::_private_push(const TCode TC, void* val) {
 * It is very important that this call be all-or-nothing.
 *
 * @param str_data is the buffer to push into the pipeline.
-* @return 0 on success, -1 if the data won't fit, -2 if it wasn't fully-claimed.
+* @return 0 on success, -1 if the data won't fit (or there wasn't memory to
+*   serialize it), -2 if it wasn't fully-claimed.
 */
 int8_t C3PTypePipeSource::_private_push(StringBuilder* str_data) {
   int8_t ret = -1;
   const int32_t INITIAL_LENTH = str_data->length();
-  if (INITIAL_LENTH <= _efferant->bufferAvailable()) {
+  if ((0 < INITIAL_LENTH) && (INITIAL_LENTH <= _efferant->bufferAvailable())) {
     ret--;
     if (1 == _efferant->pushBuffer(str_data)) {
       _byte_count += INITIAL_LENTH;
diff --git a/src/cbor-cpp/cbor.cpp b/src/cbor-cpp/cbor.cpp
index e2ed438..cfe5745 100644
--- a/src/cbor-cpp/cbor.cpp
+++ b/src/cbor-cpp/cbor.cpp
@@ -185,8 +185,23 @@ void input_stringbuilder::_update_local_vars(const int BYTES_USED) {
 
 uint8_t* output_stringbuilder::data() {   return _str_bldr->string();   }
 uint32_t output_stringbuilder::size() {   return _str_bldr->length();   }
-int8_t output_stringbuilder::put_byte(uint8_t x) {  _str_bldr->concat(&x, 1);  return 0;  }   // TODO: StringBuilder return codes.
-int8_t output_stringbuilder::put_bytes(const uint8_t* buf, int len) {  _str_bldr->concat((uint8_t*) buf, len);  return 0;  }  // TODO: StringBuilder return codes.
+int8_t output_stringbuilder::put_byte(uint8_t x) {  return put_bytes(&x, 1);  }
+
+/*
+* The encoder doesn't consider return codes. So if there isn't memory for some
+*   part of the output, all of it is withdrawn, and nothing further is taken.
+*/
+int8_t output_stringbuilder::put_bytes(const uint8_t* buf, int len) {
+  if (!_mem_error) {
+    const int LEN_BEFORE = _str_bldr->length();
+    _str_bldr->concat((uint8_t*) buf, len);
+    _mem_error = ((0 < len) && ((LEN_BEFORE + len) != _str_bldr->length()));
+    if (_mem_error) {
+      _str_bldr->cull(0, _initial_len);
+    }
+  }
+  return (_mem_error ? -1 : 0);
+}
 
 
 
diff --git a/src/cbor-cpp/cbor.h b/src/cbor-cpp/cbor.h
index f5e4c6e..c8ddab5 100644
--- a/src/cbor-cpp/cbor.h
+++ b/src/cbor-cpp/cbor.h
@@ -211,7 +211,7 @@ namespace cbor {
   /* For output to a length-undetermined StringBuilder. */
   class output_stringbuilder : public output {
     public:
-      output_stringbuilder(StringBuilder* sb) : _str_bldr(sb) {};
+      output_stringbuilder(StringBuilder* sb) : _str_bldr(sb), _initial_len(sb->length()) {};
       ~output_stringbuilder() {};
 
       uint8_t* data();
@@ -219,8 +219,12 @@ namespace cbor {
       int8_t put_byte(uint8_t value);
       int8_t put_bytes(const uint8_t* data, int size);
 
+      inline bool memError() {   return _mem_error;   };
+
     private:
       StringBuilder* _str_bldr;
+      const int      _initial_len;
+      bool           _mem_error = false;
   };
 
 
-- 
2.43.0


From 3d4c2c0d45d96e097d79953ac5a7aaa81ae933c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:13 +0000
Subject: [PATCH 200/213] fix: a message begun ahead of a resync isn't
 completed with what follows it

---
 src/M2MLink/M2MLink.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/M2MLink/M2MLink.cpp b/src/M2MLink/M2MLink.cpp
index 0098084..367f8cf 100644
--- a/src/M2MLink/M2MLink.cpp
+++ b/src/M2MLink/M2MLink.cpp
@@ -1218,6 +1218,12 @@ int8_t M2MLink::_process_input_buffer() {
   switch (currentState()) {
     // If the link is actively trying to attain sync...
     case M2MLinkState::SYNC_RESYNC:
+      // The search for sync disregards message boundaries. Whatever follows it
+      //   would not be the rest of a message that was begun ahead of it.
+      if (nullptr != _working) {
+        _reclaim_m2mmsg(_working);
+        _working = nullptr;
+      }
       switch (_process_for_sync()) {
         case -1:   // insufficient length. No change to input data.
         case 0:    // no sync was found and so the input data was maximally culled.
-- 
2.43.0


From 7ddf69e5351d3c1aa6f4b829ed50b84d2c519ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:13 +0000
Subject: [PATCH 201/213] fix: logging a failed CONNECT doesn't print a message
 that isn't there

---
 src/M2MLink/M2MLink.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/M2MLink/M2MLink.cpp b/src/M2MLink/M2MLink.cpp
index 367f8cf..041452a 100644
--- a/src/M2MLink/M2MLink.cpp
+++ b/src/M2MLink/M2MLink.cpp
@@ -1481,7 +1481,7 @@ int8_t M2MLink::_send_connect_message() {
     if (_verbosity >= LOG_LEV_CRIT) {
       StringBuilder tmp_log;
       tmp_log.concatf("Link 0x%08x failed to serialize a connect header.\n", _session_tag);
-      _working->printDebug(&tmp_log);
+      connect_msg.printDebug(&tmp_log);
       c3p_log(LOG_LEV_CRIT, __PRETTY_FUNCTION__, &tmp_log);
     }
   }
-- 
2.43.0


From b48456783cd367aba090d6cf7220ef189ba9e791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:13 +0000
Subject: [PATCH 202/213] fix: M2MMsg doesn't emit, or read past, what there
 was no memory to hold

---
 src/M2MLink/M2MLink.h     |  2 ++
 src/M2MLink/M2MMsg.cpp    | 49 +++++++++++++++++++++++++++++++--------
 src/M2MLink/M2MMsgHdr.cpp |  2 ++
 3 files changed, 43 insertions(+), 10 deletions(-)

diff --git a/src/M2MLink/M2MLink.h b/src/M2MLink/M2MLink.h
index 2815fb6..d6de42b 100644
--- a/src/M2MLink/M2MLink.h
+++ b/src/M2MLink/M2MLink.h
@@ -419,6 +419,8 @@ class M2MMsg {
       else    _flags &= ~_flag;
     };
 
+    KeyValuePair* _unserialize_payload();
+
     //static const EnumDefList<M2MMsgCode> _MSG_CODES;
 };
 
diff --git a/src/M2MLink/M2MMsg.cpp b/src/M2MLink/M2MMsg.cpp
index b1f7fc5..84dad23 100644
--- a/src/M2MLink/M2MMsg.cpp
+++ b/src/M2MLink/M2MMsg.cpp
@@ -54,7 +54,9 @@ int8_t M2MMsg::attempt_header_parse(M2MMsgHdr* hdr, StringBuilder* dat_in) {
   int8_t ret = -2;
   const int AVAILABLE_LEN = dat_in->length();
   if (AVAILABLE_LEN >= M2MMSGHDR_MINIMUM_HEADER_SIZE) {
-    uint8_t* tmp_buf = dat_in->string();
+    uint8_t header_bytes[9] = {0, 0, 0, 0, 0, 0, 0, 0, 0};  // Maximum size.
+    uint8_t* tmp_buf = &header_bytes[0];
+    dat_in->copyToBuffer(header_bytes, sizeof(header_bytes));
     hdr->msg_code = (M2MMsgCode) *(tmp_buf++);
     hdr->flags    = *(tmp_buf++);
 
@@ -238,6 +240,7 @@ int M2MMsg::reply(KeyValuePair* kvp, bool reply_expected) {
   if (BusOpcode::RX == _op) {
     // NOTE: No id check on purpose so that it also applies to SYNC_KA.
     ret--;
+    M2MMsgHdr inbound_header(_header);
     _op = BusOpcode::TX;
     _header.expectsReply(reply_expected);
     _header.isReply(true);
@@ -250,6 +253,10 @@ int M2MMsg::reply(KeyValuePair* kvp, bool reply_expected) {
     if (0 == serialize(&_accumulator)) {
       ret = 0;
     }
+    else {
+      _header = inbound_header;   // This is not a reply after all.
+      _op     = BusOpcode::RX;
+    }
     _kvp = nullptr;   // The caller retains ownership of the KVP.
   }
   return ret;
@@ -262,7 +269,7 @@ int M2MMsg::getPayload(KeyValuePair** payload) {
   if (rxComplete()) {
     ret--;
     //if (nullptr == _kvp) {
-      *payload = KeyValuePair::unserialize(_accumulator.string(), _accumulator.length(), _encoding);
+      *payload = _unserialize_payload();
       ret = 0;
     //}
   }
@@ -334,18 +341,23 @@ int M2MMsg::encoding(TCode enc) {
 int M2MMsg::serialize(StringBuilder* buf) {
   int ret = -1;
   if (_class_flag(M2MMSG_FLAG_ACCUMULATOR_COMPLETE)) {
-    buf->concat(_accumulator.string(), _accumulator.length());
-    ret = 0;
+    const int LEN_BEFORE = buf->length();
+    buf->concat(&_accumulator);
+    if ((LEN_BEFORE + _accumulator.length()) == buf->length()) {
+      ret = 0;
+    }
   }
   else {
     StringBuilder payload;
     int payload_len = 0;
     if (nullptr != _kvp) {
       ret--;
-      if (0 == _kvp->serialize(&payload, _encoding)) {
-        ret--;
-        payload_len = payload.length();
+      _kvp->serialize(&payload, _encoding);
+      if (payload.isEmpty()) {
+        return ret;
       }
+      ret--;
+      payload_len = payload.length();
     }
     if (_header.set_payload_length(payload_len)) {
       ret--;
@@ -388,19 +400,36 @@ int M2MMsg::accumulate(StringBuilder* buf) {
       }
     }
     else {   //
-      _accumulator.concat(buf->string(), bytes_remaining);
-      buf->cull(bytes_remaining);
+      _accumulator.concatHandoffLimit(buf, bytes_remaining);
+      if (_header.payload_length() > _accumulator.length()) {
+        ret = 0;   // No memory to split the buffer. Try again later.
+      }
     }
   }
   if (1 == ret) {
     if (nullptr == _kvp) {
-      _kvp = KeyValuePair::unserialize(_accumulator.string(), _accumulator.length(), _encoding);
+      _kvp = _unserialize_payload();
     }
   }
   return ret;
 }
 
 
+/**
+* Unserialize whatever is in the accumulator.
+*
+* @return the payload, which the caller owns, or nullptr if there was none, or
+*   no memory for it.
+*/
+KeyValuePair* M2MMsg::_unserialize_payload() {
+  uint8_t* buf = _accumulator.string();
+  if (1 < _accumulator.count()) {
+    return nullptr;   // There was no memory to make the payload contiguous.
+  }
+  return KeyValuePair::unserialize(buf, _accumulator.length(), _encoding);
+}
+
+
 /**
 * Debug support method. This fxn is only present in debug builds.
 *
diff --git a/src/M2MLink/M2MMsgHdr.cpp b/src/M2MLink/M2MMsgHdr.cpp
index 2b93476..b097065 100644
--- a/src/M2MLink/M2MMsgHdr.cpp
+++ b/src/M2MLink/M2MMsgHdr.cpp
@@ -135,7 +135,9 @@ bool M2MMsgHdr::serialize(StringBuilder* buf) {
     }
 
     *(tmp_buf++) = (uint8_t) chk_byte;
+    const int LEN_BEFORE = buf->length();
     buf->concat(header_bytes, header_length());
+    ret = ((LEN_BEFORE + header_length()) == buf->length());   // Was there memory for it?
   }
   return ret;
 }
-- 
2.43.0


From 6cda080db5a460b1d9541ea4a5e3b9bda11d6d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:13 +0000
Subject: [PATCH 203/213] fix: M2MLink keeps its queues in order when refused
 memory

---
 src/M2MLink/M2MLink.cpp | 36 +++++++++++++++++++++++++++---------
 1 file changed, 27 insertions(+), 9 deletions(-)

diff --git a/src/M2MLink/M2MLink.cpp b/src/M2MLink/M2MLink.cpp
index 041452a..cfc3fea 100644
--- a/src/M2MLink/M2MLink.cpp
+++ b/src/M2MLink/M2MLink.cpp
@@ -731,7 +731,10 @@ int8_t M2MLink::_churn_inbound() {
         }
         else if (temp->expectsReply()) {
           // NOTE: The reply goes straight to the transport, and isn't queued.
-          if ((0 != temp->ack()) & (_verbosity >= LOG_LEV_ERROR)) c3p_log(LOG_LEV_ERROR, __PRETTY_FUNCTION__, "Link 0x%08x Failed to reply to CONNECT\n", _session_tag);
+          if (0 != temp->ack()) {
+            if (_verbosity >= LOG_LEV_ERROR) c3p_log(LOG_LEV_ERROR, __PRETTY_FUNCTION__, "Link 0x%08x Failed to reply to CONNECT\n", _session_tag);
+            break;
+          }
           //if (_verbosity >= LOG_LEV_INFO) {
           //  StringBuilder tmp_log;
           //  tmp_log.concatf("Link 0x%08x responding with...\n", _session_tag);
@@ -739,8 +742,9 @@ int8_t M2MLink::_churn_inbound() {
           //  c3p_log(LOG_LEV_ERROR, __PRETTY_FUNCTION__, &tmp_log);
           //}
           StringBuilder temp_out;
-          temp->serialize(&temp_out);
-          _relay_to_output_target(&temp_out);
+          if (0 == temp->serialize(&temp_out)) {
+            _relay_to_output_target(&temp_out);
+          }
         }
         break;
 
@@ -810,8 +814,9 @@ int8_t M2MLink::_churn_inbound() {
           // TODO: Check if we require auth, and if so, do we have a remote identity?
           // We might choose to HANGUP if counterparty won't cooperate.
           if (temp->expectsReply()) {
-            temp->ack();
-            gc_message = (0 != _send_msg(temp));
+            if (0 == temp->ack()) {
+              gc_message = (0 != _send_msg(temp));
+            }
           }
         }
         else if (temp->expectsReply()) {
@@ -830,7 +835,9 @@ int8_t M2MLink::_churn_inbound() {
             //   hope the other side doesn't HANGUP.
             temp->ack();
           }
-          gc_message = (0 != _send_msg(temp));
+          if (BusOpcode::TX == temp->direction()) {   // Was it made into a reply?
+            gc_message = (0 != _send_msg(temp));
+          }
           if (gc_message & (_verbosity >= LOG_LEV_ERROR)) {
             c3p_log(LOG_LEV_ERROR, __PRETTY_FUNCTION__, "Link 0x%08x Failed to reply to WHO\n", _session_tag);
           }
@@ -905,6 +912,9 @@ int8_t M2MLink::_churn_outbound() {
     M2MMsg* temp = _outbound_messages.get(0);
     if (nullptr != temp) {
       int new_priority = (temp->msgCode() == M2MMsgCode::APPLICATION) ? M2MLINK_PRIORITY_APP : M2MLINK_PRIORITY_INTERNAL;
+      if (temp->wasSent()) {
+        new_priority = M2MLINK_PRIORITY_WAITING_FOR_ACK;
+      }
       bool gc_msg    = false;
       bool will_send = !temp->wasSent();
       switch (current_priority) {
@@ -953,8 +963,10 @@ int8_t M2MLink::_churn_outbound() {
         // NOTE: We skip the queue-size check, considering that we just pulled
         //   this object from this very queue.
         // A message that the transport has yet to accept keeps its place.
-        _outbound_messages.remove(temp);
-        _outbound_messages.insert(temp, new_priority);
+        // If there is no memory to move it, it stays where it is for now.
+        if (0 <= _outbound_messages.insert(temp, new_priority)) {
+          _outbound_messages.remove((new_priority > current_priority) ? 1 : 0);
+        }
       }
     }
   }
@@ -1291,7 +1303,9 @@ int8_t M2MLink::_process_input_buffer() {
           if (_working->isValidMsg()) {
             _seq_parse_errs = 0;
             if (CONFIG_C3PLINK_MAX_QUEUE_DEPTH > _inbound_messages.size()) {
-              _inbound_messages.insert(_working);
+              if (0 > _inbound_messages.insert(_working)) {
+                return ret;   // No memory to queue it. Try again later.
+              }
             }
             else {
               c3p_log(LOG_LEV_WARN, __PRETTY_FUNCTION__, "Link 0x%08x inbound message queue flood.\n", _session_tag);
@@ -1348,6 +1362,10 @@ int8_t M2MLink::_process_input_buffer() {
 int8_t M2MLink::_process_for_sync() {
   const int AVAILABLE_LEN = _inbound_buf.length();
   int ret = -1;
+  _inbound_buf.string();
+  if (1 < _inbound_buf.count()) {
+    return ret;   // No memory to make the buffer contiguous. Try again later.
+  }
   int i = _contains_sync_pattern(&_inbound_buf);
   if (0 <= i) {
     // Found sync data, and we are about to change the buffer. But before we
-- 
2.43.0


From 00f20060f07ff707c0703ae447145d3ad0785cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:54 +0000
Subject: [PATCH 204/213] fix: a record for which there is no memory isn't
 reported as saved

---
 src/Storage/RecordTypes/ConfRecord.cpp | 12 +++++++++---
 src/Storage/SimpleDataRecord.cpp       | 11 +++++++++++
 2 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/Storage/RecordTypes/ConfRecord.cpp b/src/Storage/RecordTypes/ConfRecord.cpp
index 9b92d4b..01c7919 100644
--- a/src/Storage/RecordTypes/ConfRecord.cpp
+++ b/src/Storage/RecordTypes/ConfRecord.cpp
@@ -261,15 +261,21 @@ int8_t ConfRecord::serialize(StringBuilder* out, TCode format) {
     case TCode::CBOR:
       #if defined(__BUILD_HAS_CBOR)
       {
+        const int INITIAL_LEN = out->length();
         cbor::output_stringbuilder output(out);
         cbor::encoder encoder(output);
         encoder.write_map(2);
           serialize_cbor_kvp_for_record(&encoder);  // Accounts for the first KVP.
           encoder.write_string(_list_name());    // Accounts for the second KVP.
           encoder.write_array(_key_count());
-          _kvp->serialize(out, format);
-
-        ret = 0;  // TODO: Error handling?
+        if (!output.memError()) {
+          if (-2 != _kvp->serialize(out, format)) {
+            ret = 0;
+          }
+          else {
+            out->cull(0, INITIAL_LEN);   // There was no memory for the values.
+          }
+        }
       }
       #endif
       break;
diff --git a/src/Storage/SimpleDataRecord.cpp b/src/Storage/SimpleDataRecord.cpp
index f66bc78..a43b5d2 100644
--- a/src/Storage/SimpleDataRecord.cpp
+++ b/src/Storage/SimpleDataRecord.cpp
@@ -62,6 +62,7 @@ void SimpleDataRecord::printDebug(StringBuilder* output) {
 * Craft a descriptor for this record.
 *
 * @return  0 on success
+*         -1 if there was no memory for it
 */
 int8_t SimpleDataRecord::_descriptor_serialize(StringBuilder* outbound_buf) {
   int8_t ret = 0;
@@ -99,7 +100,11 @@ int8_t SimpleDataRecord::_descriptor_serialize(StringBuilder* outbound_buf) {
   *(rec_desc + idx++) = (uint8_t) (_hash >> 24);
 
   // Prepend the record descriptor and dispatch the I/O.
+  const int LEN_WITH_DESC = (outbound_buf->length() + (int) idx);
   outbound_buf->prepend(rec_desc, idx);
+  if (LEN_WITH_DESC != outbound_buf->length()) {
+    ret = -1;   // There wasn't memory for it.
+  }
   return ret;
 }
 
@@ -176,11 +181,17 @@ int8_t SimpleDataRecord::save(uint32_t storage_tag, const char* name, StringBuil
     _storage_tag = storage_tag;
     if (0 == serialize(outbound_buf, _format)) {
       ret--;
+      const uint32_t PRIOR_HASH   = _hash;
+      const uint32_t PRIOR_LENGTH = _data_length;
       _hash = hash_of_buffer(outbound_buf);
       _data_length = outbound_buf->length();
       if (0 == _descriptor_serialize(outbound_buf)) {
         ret = 0;
       }
+      else {
+        _hash        = PRIOR_HASH;   // Nothing was saved.
+        _data_length = PRIOR_LENGTH;
+      }
     }
   }
   return ret;
-- 
2.43.0


From 7a9f2cd7bc73287535f46f3f175e4ddca0c3004f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:03 +0000
Subject: [PATCH 205/213] fix: an image for which there is no memory isn't
 serialized in part

---
 src/Image/Image.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/Image/Image.cpp b/src/Image/Image.cpp
index 17f0efe..1a1a0ab 100644
--- a/src/Image/Image.cpp
+++ b/src/Image/Image.cpp
@@ -624,6 +624,8 @@ void Image::wipe() {
 
 /**
 * NOTE: The serializer does not account for orientation.
+*
+* @return 0 on success, -1 if unallocated, -2 if there was no memory for it.
 */
 int8_t Image::serialize(StringBuilder* out) {
   if (ImgBufferFormat::UNALLOCATED != _buf_fmt) {
@@ -640,9 +642,14 @@ int8_t Image::serialize(StringBuilder* out) {
       buf[7] = (uint8_t) _y & 0xFF;
       buf[8] = (uint8_t) _buf_fmt;
       buf[9] = _imgflags;
+      const int LEN_BEFORE = out->length();
       out->concat(buf, 10);
       out->concat(_buffer, sz);
-      return 0;
+      if ((LEN_BEFORE + 10 + (int) sz) == out->length()) {
+        return 0;
+      }
+      out->cull(0, LEN_BEFORE);   // There was no memory for all of it.
+      return -2;
     }
   }
   return -1;
-- 
2.43.0


From d5a8733d5775bf5ee56aeaa8603dbf82e9299bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:03 +0000
Subject: [PATCH 206/213] fix: serializing a value reports failure if there was
 no memory for it

---
 src/C3PValue/C3PType.cpp      | 55 ++++++++++++++++++-----------------
 src/TimeSeries/TimeSeries.cpp |  2 +-
 src/TimerTools/StopWatch.cpp  |  2 +-
 3 files changed, 31 insertions(+), 28 deletions(-)

diff --git a/src/C3PValue/C3PType.cpp b/src/C3PValue/C3PType.cpp
index bb3c663..c83a11a 100644
--- a/src/C3PValue/C3PType.cpp
+++ b/src/C3PValue/C3PType.cpp
@@ -375,7 +375,7 @@ int C3PType::_type_blind_serialize(void* obj, StringBuilder* out, const TCode FO
           //   be portable. VECT_3_FLOAT ought to be an array of floats, for instance.
           encoder.write_tag(C3P_CBOR_VENDOR_CODE | TcodeToInt(TCODE));
           encoder.write_bytes((uint8_t*) obj, length(obj));
-          ret = 0;   // TODO: Safe SB API.
+          ret = (output.memError() ? -2 : 0);
         }
         break;
       default:  break;
@@ -541,7 +541,7 @@ template <> int         C3PTypeConstraint<int8_t>::serialize(void* obj, StringBu
         cbor::output_stringbuilder output(out);
         cbor::encoder encoder(output);
         encoder.write_int(*((int8_t*) obj));
-        ret = 0;   // TODO: Safe SB API.
+        ret = (output.memError() ? -2 : 0);
       }
       break;
 
@@ -685,7 +685,7 @@ template <> int         C3PTypeConstraint<int16_t>::serialize(void* obj, StringB
         cbor::output_stringbuilder output(out);
         cbor::encoder encoder(output);
         encoder.write_int(*((int16_t*) obj));
-        ret = 0;   // TODO: Safe SB API.
+        ret = (output.memError() ? -2 : 0);
       }
       break;
 
@@ -831,7 +831,7 @@ template <> int         C3PTypeConstraint<int32_t>::serialize(void* obj, StringB
         cbor::encoder encoder(output);
         int32_t o = _load_from_mem(obj);
         encoder.write_int(o);
-        ret = 0;   // TODO: Safe SB API.
+        ret = (output.memError() ? -2 : 0);
       }
       break;
 
@@ -975,7 +975,7 @@ template <> int         C3PTypeConstraint<int64_t>::serialize(void* obj, StringB
         cbor::encoder encoder(output);
         int64_t o = _load_from_mem(obj);
         encoder.write_int(o);
-        ret = 0;   // TODO: Safe SB API.
+        ret = (output.memError() ? -2 : 0);
       }
       break;
 
@@ -1103,7 +1103,7 @@ template <> int         C3PTypeConstraint<uint8_t>::serialize(void* obj, StringB
         cbor::output_stringbuilder output(out);
         cbor::encoder encoder(output);
         encoder.write_int(*((uint8_t*) obj));
-        ret = 0;   // TODO: Safe SB API.
+        ret = (output.memError() ? -2 : 0);
       }
       break;
 
@@ -1237,7 +1237,7 @@ template <> int         C3PTypeConstraint<uint16_t>::serialize(void* obj, String
         cbor::output_stringbuilder output(out);
         cbor::encoder encoder(output);
         encoder.write_int(*((uint16_t*) obj));
-        ret = 0;   // TODO: Safe SB API.
+        ret = (output.memError() ? -2 : 0);
       }
       break;
 
@@ -1377,7 +1377,7 @@ template <> int         C3PTypeConstraint<uint32_t>::serialize(void* obj, String
         cbor::output_stringbuilder output(out);
         cbor::encoder encoder(output);
         encoder.write_int(*((uint32_t*) obj));
-        ret = 0;   // TODO: Safe SB API.
+        ret = (output.memError() ? -2 : 0);
       }
       break;
 
@@ -1530,7 +1530,7 @@ template <> int         C3PTypeConstraint<uint64_t>::serialize(void* obj, String
         cbor::encoder encoder(output);
         uint64_t o = _load_from_mem(obj);
         encoder.write_int(o);
-        ret = 0;   // TODO: Safe SB API.
+        ret = (output.memError() ? -2 : 0);
       }
       break;
 
@@ -1630,7 +1630,7 @@ template <> int         C3PTypeConstraint<bool>::serialize(void* obj, StringBuil
         cbor::output_stringbuilder output(out);
         cbor::encoder encoder(output);
         encoder.write_bool(*((bool*) obj));
-        ret = 0;   // TODO: Safe SB API.
+        ret = (output.memError() ? -2 : 0);
       }
       break;
 
@@ -1720,7 +1720,7 @@ template <> int         C3PTypeConstraint<float>::serialize(void* obj, StringBui
         cbor::encoder encoder(output);
         float temp = _load_from_mem(obj);
         encoder.write_float(temp);
-        ret = 0;   // TODO: Safe SB API.
+        ret = (output.memError() ? -2 : 0);
       }
       break;
 
@@ -1811,7 +1811,7 @@ template <> int         C3PTypeConstraint<double>::serialize(void* obj, StringBu
         cbor::encoder encoder(output);
         double temp = _load_from_mem(obj);
         encoder.write_double(temp);
-        ret = 0;   // TODO: Safe SB API.
+        ret = (output.memError() ? -2 : 0);
       }
       break;
 
@@ -1881,7 +1881,7 @@ template <> int         C3PTypeConstraint<Vector3f64>::serialize(void* obj, Stri
         if (0 == encoder.write_typed_array(&(temp.x), 3)) {
           tmp_sb.string();
           out->concatHandoff(&tmp_sb);
-          ret = 0;   // TODO: Safe SB API.
+          ret = (output.memError() ? -2 : 0);
         }
       }
       break;
@@ -1947,7 +1947,7 @@ template <> int         C3PTypeConstraint<Vector3u8>::serialize(void* obj, Strin
         if (0 == encoder.write_typed_array(&(temp.x), 3)) {
           tmp_sb.string();
           out->concatHandoff(&tmp_sb);
-          ret = 0;   // TODO: Safe SB API.
+          ret = (output.memError() ? -2 : 0);
         }
       }
       break;
@@ -2013,7 +2013,7 @@ template <> int         C3PTypeConstraint<Vector3i8>::serialize(void* obj, Strin
         if (0 == encoder.write_typed_array(&(temp.x), 3)) {
           tmp_sb.string();
           out->concatHandoff(&tmp_sb);
-          ret = 0;   // TODO: Safe SB API.
+          ret = (output.memError() ? -2 : 0);
         }
       }
       break;
@@ -2084,7 +2084,7 @@ template <> int         C3PTypeConstraint<Vector3f>::serialize(void* obj, String
         if (0 == encoder.write_typed_array(&(temp.x), 3)) {
           tmp_sb.string();
           out->concatHandoff(&tmp_sb);
-          ret = 0;   // TODO: Safe SB API.
+          ret = (output.memError() ? -2 : 0);
         }
       }
       break;
@@ -2168,7 +2168,7 @@ template <> int         C3PTypeConstraint<Vector3u32>::serialize(void* obj, Stri
         if (0 == encoder.write_typed_array(&(temp.x), 3)) {
           tmp_sb.string();
           out->concatHandoff(&tmp_sb);
-          ret = 0;   // TODO: Safe SB API.
+          ret = (output.memError() ? -2 : 0);
         }
       }
       break;
@@ -2234,7 +2234,7 @@ template <> int         C3PTypeConstraint<Vector3i32>::serialize(void* obj, Stri
         if (0 == encoder.write_typed_array(&(temp.x), 3)) {
           tmp_sb.string();
           out->concatHandoff(&tmp_sb);
-          ret = 0;   // TODO: Safe SB API.
+          ret = (output.memError() ? -2 : 0);
         }
       }
       break;
@@ -2300,7 +2300,7 @@ template <> int         C3PTypeConstraint<Vector3u16>::serialize(void* obj, Stri
         if (0 == encoder.write_typed_array(&(temp.x), 3)) {
           tmp_sb.string();
           out->concatHandoff(&tmp_sb);
-          ret = 0;   // TODO: Safe SB API.
+          ret = (output.memError() ? -2 : 0);
         }
       }
       break;
@@ -2366,7 +2366,7 @@ template <> int         C3PTypeConstraint<Vector3i16>::serialize(void* obj, Stri
         if (0 == encoder.write_typed_array(&(temp.x), 3)) {
           tmp_sb.string();
           out->concatHandoff(&tmp_sb);
-          ret = 0;   // TODO: Safe SB API.
+          ret = (output.memError() ? -2 : 0);
         }
       }
       break;
@@ -2448,7 +2448,7 @@ template <> int         C3PTypeConstraint<char*>::serialize(void* obj, StringBui
             cbor::output_stringbuilder output(out);
             cbor::encoder encoder(output);
             encoder.write_string(o);
-            ret = 0;   // TODO: Safe SB API.
+            ret = (output.memError() ? -2 : 0);
           }
           break;
 
@@ -2550,7 +2550,7 @@ template <> int         C3PTypeConstraint<StringBuilder*>::serialize(void* obj,
           cbor::output_stringbuilder output(out);
           cbor::encoder encoder(output);
           encoder.write_string(str, (uint32_t) o->length());
-          ret = 0;   // TODO: Safe SB API.
+          ret = (output.memError() ? -2 : 0);
         }
       }
       break;
@@ -2630,7 +2630,7 @@ template <> int         C3PTypeConstraint<C3PBinBinder>::serialize(void* obj, St
           cbor::output_stringbuilder output(out);
           cbor::encoder encoder(output);
           encoder.write_bytes(o->buf, o->len);
-          ret = 0;   // TODO: Safe SB API.
+          ret = (output.memError() ? -2 : 0);
         }
         break;
 
@@ -2683,7 +2683,7 @@ template <> int         C3PTypeConstraint<Identity*>::serialize(void* obj, Strin
           cbor::encoder encoder(output);
           encoder.write_tag(C3P_CBOR_VENDOR_CODE | TcodeToInt(TCODE));
           encoder.write_bytes(buf, i_len);
-          ret = 0;   // TODO: Safe SB API.
+          ret = (output.memError() ? -2 : 0);
         }
       }
       break;
@@ -2875,7 +2875,10 @@ template <> int         C3PTypeConstraint<Image*>::serialize(void* obj, StringBu
     case TCode::CBOR:
       {
         StringBuilder img_blob;   // The header and the pixels are a single value.
-        if ((nullptr != img) && (0 == img->serialize(&img_blob))) {
+        if (nullptr != img) {
+          ret = img->serialize(&img_blob);
+        }
+        if (0 == ret) {
           uint8_t* blob = img_blob.string();
           if (1 < img_blob.count()) {
             return -2;   // There was no memory to make the blob contiguous.
@@ -2884,7 +2887,7 @@ template <> int         C3PTypeConstraint<Image*>::serialize(void* obj, StringBu
           cbor::encoder encoder(output);
           encoder.write_tag(C3P_CBOR_VENDOR_CODE | TcodeToInt(TCODE));
           encoder.write_bytes(blob, img_blob.length());
-          ret = 0;   // TODO: Safe SB API.
+          ret = (output.memError() ? -2 : 0);
         }
       }
       break;
diff --git a/src/TimeSeries/TimeSeries.cpp b/src/TimeSeries/TimeSeries.cpp
index c46e7de..a40c3cf 100644
--- a/src/TimeSeries/TimeSeries.cpp
+++ b/src/TimeSeries/TimeSeries.cpp
@@ -240,7 +240,7 @@ template <> int C3PTypeConstraint<TimeSeriesBase*>::serialize(void* _obj, String
               obj->_serialize_value(&encoder, (real_idx + i) % obj->_window_size);
             }
         }
-        ret = 0;
+        ret = (output.memError() ? -2 : 0);
       }
       break;
     #endif  // __BUILD_HAS_CBOR
diff --git a/src/TimerTools/StopWatch.cpp b/src/TimerTools/StopWatch.cpp
index 7c73d3a..1e5f69b 100644
--- a/src/TimerTools/StopWatch.cpp
+++ b/src/TimerTools/StopWatch.cpp
@@ -139,7 +139,7 @@ template <> int C3PTypeConstraint<StopWatch*>::serialize(void* _obj, StringBuild
         encoder.write_string("w");   encoder.write_int(obj->_run_time_worst);
         encoder.write_string("b");   encoder.write_int(obj->_run_time_best);
         encoder.write_string("l");   encoder.write_int(obj->_run_time_last);
-        ret = 0;
+        ret = (output.memError() ? -2 : 0);
       }
       break;
       #endif  // __BUILD_HAS_CBOR
-- 
2.43.0


From 1c5f2f5f03c1aed7055e9a78976258b603076e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:22 +0000
Subject: [PATCH 207/213] fix: printing units that end early doesn't read past
 them

---
 src/EnumeratedTypeCodes.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/EnumeratedTypeCodes.cpp b/src/EnumeratedTypeCodes.cpp
index c340344..ad1e838 100644
--- a/src/EnumeratedTypeCodes.cpp
+++ b/src/EnumeratedTypeCodes.cpp
@@ -108,6 +108,9 @@ void SIUnitToStr(const SIUnit* UC_STR, StringBuilder* output, const bool sym) {
         const SIUnit CURRENT_UCODE = *cur_ptr++;
         switch (CURRENT_UCODE) {
           case SIUnit::META_ORDER_OF_MAGNITUDE:
+            if (SIUnit::UNITLESS == *cur_ptr) {   // The string ended early.
+              return;
+            }
             oom = (int8_t) *cur_ptr++;
             // Modify the unit with the SI prefix, if called for.
             output->concat(SIUnitToStr(oom, sym));
@@ -116,6 +119,9 @@ void SIUnitToStr(const SIUnit* UC_STR, StringBuilder* output, const bool sym) {
           case SIUnit::META_DIMENSIONALITY:
             break;
           case SIUnit::META_LITERAL_TCODE:
+            if (SIUnit::UNITLESS == *cur_ptr) {   // The string ended early.
+              return;
+            }
             {  // TODO: Assumes an int8 (wrongly, eventually).
               int8_t literal_int = (int8_t) *cur_ptr++;
               if (-1 == literal_int) {
-- 
2.43.0


From fbbf68550a62241916cac6d5aa387f986b30e93c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:55 +0000
Subject: [PATCH 208/213] fix: a trace word's action and path are taken from
 their own fields

---
 src/TimerTools/C3PTrace.cpp | 4 ++--
 src/TimerTools/C3PTrace.h   | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/TimerTools/C3PTrace.cpp b/src/TimerTools/C3PTrace.cpp
index bc07e50..fba41ee 100644
--- a/src/TimerTools/C3PTrace.cpp
+++ b/src/TimerTools/C3PTrace.cpp
@@ -52,7 +52,7 @@ ISR_FUNC void C3PTrace::leave_trace(const uint32_t TRACE_WORD) {
   const unsigned int NOW = micros();
   if (recording()) {
     const uint32_t SPATIAL_WORD = (C3P_TRACE_WORD_SPATIAL_MASK & TRACE_WORD);
-    const TraceAction ACTION = (const TraceAction) (TRACE_WORD & C3P_TRACE_WORD_SPATIAL_MASK);
+    const TraceAction ACTION = (const TraceAction) ((TRACE_WORD & C3P_TRACE_WORD_ACTN_MASK) >> C3P_TRACE_WORD_ACTN_OFFSET);
     if (0 == _trace_points.vacancy()) {
       _trace_points.get();
     }
@@ -62,7 +62,7 @@ ISR_FUNC void C3PTrace::leave_trace(const uint32_t TRACE_WORD) {
       case TraceAction::PATH_START:
       case TraceAction::PATH_STOP:
         {
-          const uint8_t  PATH_ID    = (uint8_t) ((TRACE_WORD & C3P_TRACE_WORD_SPATIAL_MASK) >> C3P_TRACE_WORD_PATH_OFFSET);
+          const uint8_t  PATH_ID    = (uint8_t) ((TRACE_WORD & C3P_TRACE_WORD_PATH_MASK) >> C3P_TRACE_WORD_PATH_OFFSET);
           bool path_root_created = false;
           TracePath* path_container = _trace_paths.getByPriority((int32_t) PATH_ID);
           if (nullptr == path_container) {
diff --git a/src/TimerTools/C3PTrace.h b/src/TimerTools/C3PTrace.h
index bed446e..0c99c1c 100644
--- a/src/TimerTools/C3PTrace.h
+++ b/src/TimerTools/C3PTrace.h
@@ -75,7 +75,7 @@ class StringBuilder;
 #define C3P_TRACE_WORD_LINE_OFFSET  (0)
 #define C3P_TRACE_WORD_FILE_OFFSET  (CONFIG_C3P_TRACE_WORD_LINE_BITS)
 #define C3P_TRACE_WORD_PATH_OFFSET  (CONFIG_C3P_TRACE_WORD_LINE_BITS + CONFIG_C3P_TRACE_WORD_FILE_BITS)
-#define C3P_TRACE_WORD_ACTN_OFFSET  (CONFIG_C3P_TRACE_WORD_LINE_BITS + CONFIG_C3P_TRACE_WORD_FILE_BITS + C3P_TRACE_WORD_PATH_OFFSET)
+#define C3P_TRACE_WORD_ACTN_OFFSET  (C3P_TRACE_WORD_PATH_OFFSET + CONFIG_C3P_TRACE_WORD_PATH_BITS)
 
 // Define mask values for each field in the trace word.
 #define C3P_TRACE_WORD_LINE_MASK    ((0xFFFFFFFF >> (32 - CONFIG_C3P_TRACE_WORD_LINE_BITS)) << C3P_TRACE_WORD_LINE_OFFSET)
-- 
2.43.0


From d679a6b61240e15f415a5eacf5ca3dba7a65218a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:55 +0000
Subject: [PATCH 209/213] fix: a trace's pathway isn't freed while it is still
 being kept

---
 src/TimerTools/C3PTrace.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/TimerTools/C3PTrace.cpp b/src/TimerTools/C3PTrace.cpp
index fba41ee..5d0bb21 100644
--- a/src/TimerTools/C3PTrace.cpp
+++ b/src/TimerTools/C3PTrace.cpp
@@ -70,10 +70,10 @@ ISR_FUNC void C3PTrace::leave_trace(const uint32_t TRACE_WORD) {
             path_root_created = (nullptr != path_container);
           }
           if (nullptr != path_container) {
-            if (path_root_created) {
-              _trace_paths.insert(path_container, (int32_t) PATH_ID);
+            if (path_root_created && (0 > _trace_paths.insert(path_container, (int32_t) PATH_ID))) {
+              delete path_container;   // No memory to keep track of it.
             }
-            if (TraceAction::PATH_START == ACTION) {
+            else if (TraceAction::PATH_START == ACTION) {
               path_container->recordStart(SPATIAL_WORD, (const TracePoint*) &tmp_point);
             }
             else {
@@ -254,7 +254,7 @@ ISR_FUNC bool TracePath::recordStop(const uint32_t TRACE_WORD, const TracePoint*
     if (nullptr != path_stopwatch) {
       ret = path_stopwatch->addRuntime((uint32_t) _start_point.ts_micros, (uint32_t) POINT->ts_micros);
       if (path_timing_created) {
-        ret &= (_pathways.insert(path_stopwatch, (int32_t) POINT->trace_word));
+        ret &= (0 <= _pathways.insert(path_stopwatch, (int32_t) POINT->trace_word));
       }
     }
     if (path_timing_created & !ret) {  // Clean up any mess we might have left
-- 
2.43.0


From c25aaa08f67931c9d3372c8392023344a93f6aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:55 +0000
Subject: [PATCH 210/213] fix: printing a trace shows the pathways that have
 been timed

---
 src/TimerTools/C3PTrace.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/TimerTools/C3PTrace.cpp b/src/TimerTools/C3PTrace.cpp
index 5d0bb21..b68d475 100644
--- a/src/TimerTools/C3PTrace.cpp
+++ b/src/TimerTools/C3PTrace.cpp
@@ -178,8 +178,8 @@ int TracePoint::serialize(StringBuilder* out, const TCode FORMAT) {
 
 int TracePath::serialize(StringBuilder* out, const TCode FORMAT) {
   int ret = -1;
-  if (0 < _start_point.ts_micros) {
-    const int ENDPOINT_COUNT = _pathways.size();
+  const int ENDPOINT_COUNT = _pathways.size();
+  if ((0 < _start_point.ts_micros) || (0 < ENDPOINT_COUNT)) {
     switch (FORMAT) {
       case TCode::STR:
         {
@@ -188,7 +188,7 @@ int TracePath::serialize(StringBuilder* out, const TCode FORMAT) {
           StringBuilder::styleHeader2(out, (char*) tmp.string());
           StopWatch::printDebugHeader(out);
           for (int i = 0; i < ENDPOINT_COUNT; i++) {
-            StopWatch* path_stopwatch = _pathways.getByPriority((int32_t) _start_point.trace_word);
+            StopWatch* path_stopwatch = _pathways.get(i);
             if (nullptr != path_stopwatch) {
               TracePoint end_point(0, path_stopwatch->tag());
               tmp.clear();
-- 
2.43.0


From 9f67c63dc89fa9c4363a7511456481bf761d837e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:54 +0000
Subject: [PATCH 211/213] fix: showing a value without memory for its parts
 forgoes those parts

---
 src/Image/GfxUI/GfxUIC3PValue.cpp     | 4 ++--
 src/Image/GfxUI/GfxUIKeyValuePair.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/Image/GfxUI/GfxUIC3PValue.cpp b/src/Image/GfxUI/GfxUIC3PValue.cpp
index 544a47c..e881eb3 100644
--- a/src/Image/GfxUI/GfxUIC3PValue.cpp
+++ b/src/Image/GfxUI/GfxUIC3PValue.cpp
@@ -175,8 +175,8 @@ int GfxUIC3PValue::_render(UIGfxWrapper* ui_gfx) {
         GfxUIStyle  tc_style(_style);
         GfxUIC3PType* gfxui_type = new GfxUIC3PType(_value->tcode(), &tc_layout, _style);
         if (nullptr != gfxui_type) {
-          _add_child(gfxui_type);
-          have_type_obj = true;
+          have_type_obj = (0 == _add_child(gfxui_type));
+          if (!have_type_obj) {  delete gfxui_type;  }
         }
       }
       _need_redraw(true);
diff --git a/src/Image/GfxUI/GfxUIKeyValuePair.cpp b/src/Image/GfxUI/GfxUIKeyValuePair.cpp
index 9684fa5..fe9d59f 100644
--- a/src/Image/GfxUI/GfxUIKeyValuePair.cpp
+++ b/src/Image/GfxUI/GfxUIKeyValuePair.cpp
@@ -102,7 +102,7 @@ int GfxUIKeyValuePair::_render(UIGfxWrapper* ui_gfx) {
           (GFXELEMENT_FLAGSET)
         );
         if (nullptr != gfxui_val) {
-          _add_child(gfxui_val);
+          if (0 != _add_child(gfxui_val)) {  delete gfxui_val;  }
           tracked_y += HARDCODED_HEIGHT;
         }
       }
@@ -124,7 +124,7 @@ int GfxUIKeyValuePair::_render(UIGfxWrapper* ui_gfx) {
           GfxUIKeyValuePair* gfxui_val = new GfxUIKeyValuePair(nested_kvp, val_layout, val_style, GFXELEMENT_FLAGSET);
           //GfxUIC3PValue* gfxui_val = new GfxUIC3PValue(nested_kvp, val_layout, val_style, GFXELEMENT_FLAGSET);
           if (nullptr != gfxui_val) {
-            _add_child(gfxui_val);
+            if (0 != _add_child(gfxui_val)) {  delete gfxui_val;  }
             tracked_y += VALUE_SUBHEIGHT;
           }
           ui_gfx->img()->setCursor((tracked_x + i_x), (tracked_y + i_y));
-- 
2.43.0


From 77e075e6677cc46c72629f512f75f8c0628365f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:08 +0000
Subject: [PATCH 212/213] fix: a series without samples isn't drawn as a graph

---
 src/Image/GfxUI/GfxUISensorFilter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Image/GfxUI/GfxUISensorFilter.cpp b/src/Image/GfxUI/GfxUISensorFilter.cpp
index fd0d6a7..4dcf624 100644
--- a/src/Image/GfxUI/GfxUISensorFilter.cpp
+++ b/src/Image/GfxUI/GfxUISensorFilter.cpp
@@ -20,7 +20,7 @@ template <> int GfxUITimeSeries<uint32_t>::_render(UIGfxWrapper* ui_gfx) {
   PixUInt i_h = internalHeight();
   ui_gfx->img()->setTextSize(_style.text_size);
   //if ((_filter->dirty() | underPointer()) && _filter->windowFull()) {
-  if (_filter->dirty() | underPointer()) {
+  if ((_filter->dirty() | underPointer()) && _filter->initialized()) {
     // The TimeSeries has a certain number of samples, and the rending is to be
     //   so wide. Take the smaller of the two, and that will be how many samples
     //   we want to render.
-- 
2.43.0


From ade7b8e6010c75f9df5d6527cdd22201f847da92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:08 +0000
Subject: [PATCH 213/213] fix: showing a map finds its values by their whole
 keys

---
 src/Image/GfxUI/GfxUIKeyValuePair.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Image/GfxUI/GfxUIKeyValuePair.cpp b/src/Image/GfxUI/GfxUIKeyValuePair.cpp
index fe9d59f..de17583 100644
--- a/src/Image/GfxUI/GfxUIKeyValuePair.cpp
+++ b/src/Image/GfxUI/GfxUIKeyValuePair.cpp
@@ -82,7 +82,7 @@ int GfxUIKeyValuePair::_render(UIGfxWrapper* ui_gfx) {
     GfxUIStyle  val_style(_style);
     // TODO: Don't render yet. Might have multi-line values.
     while ((nullptr != current_kvp) & (key_list.count() > 0)) {
-      char* cur_key = key_list.position_trimmed(0);
+      char* cur_key = key_list.position(0);
       current_kvp   = _kvp->valueWithKey(cur_key);
       StringBuilder keystr;
       keystr.concatf("\"%s\":", cur_key);
-- 
2.43.0

