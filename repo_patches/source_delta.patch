From 8b2d2e70104367746ba887f761d3a1e65db2db1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:57 +0000
Subject: [PATCH 01/76] fix: framer leaks received frames with an invalid port

---
 src/stream/framer.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/stream/framer.c b/src/stream/framer.c
index 5ba59ac..6852df5 100644
--- a/src/stream/framer.c
+++ b/src/stream/framer.c
@@ -660,6 +660,7 @@ static void rx_hook_fn(
     struct embc_framer_header_s hdr = *buffer_hdr(frame);
     if (hdr.port >= EMBC_FRAMER_PORTS) {
         EMBC_LOGW("invalid port %d", (int) hdr.port);
+        embc_buffer_free(frame);
         return;
     }
     EMBC_ASSERT(frame->length == (hdr.length + EMBC_FRAMER_HEADER_SIZE + EMBC_FRAMER_FOOTER_SIZE));
-- 
2.43.0


From 4fdb26e30949ea3535200d1162679eb7dce188ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:57 +0000
Subject: [PATCH 02/76] fix: framer orders pending frames correctly when the
 frame id wraps

---
 src/stream/framer.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/stream/framer.c b/src/stream/framer.c
index 6852df5..ab58fc5 100644
--- a/src/stream/framer.c
+++ b/src/stream/framer.c
@@ -310,10 +310,11 @@ static void rx_insert(struct embc_framer_s *self, struct embc_buffer_s * frame)
     embc_list_foreach(&self->rx_pending, item) {
         struct embc_buffer_s * f = embc_list_entry(item, struct embc_buffer_s, item);
         struct embc_framer_header_s * h1 = buffer_hdr(f);
-        uint8_t delta = h->frame_id - h1->frame_id;
+        uint8_t delta = (h->frame_id - h1->frame_id) & EMBC_FRAMER_ID_MASK;
         if (0 == delta) { // duplicate
+            embc_buffer_free(frame);
             return;
-        } else if (delta > 128) { // before current item
+        } else if (delta > (EMBC_FRAMER_ID_MASK / 2)) { // before current item
             embc_list_insert_before(item, &frame->item);
             return;
         }
-- 
2.43.0


From 690e307cecd7846ea887df418e3767e4f6d46991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:39 +0000
Subject: [PATCH 03/76] fix: framer resynchronisation skips a byte after an
 embedded frame and asserts when nothing remains

---
 src/stream/framer.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/stream/framer.c b/src/stream/framer.c
index ab58fc5..31367c7 100644
--- a/src/stream/framer.c
+++ b/src/stream/framer.c
@@ -780,7 +780,7 @@ static void framer_resync(struct embc_framer_s * self, int32_t status) {
     (void) status;
     uint16_t count = embc_buffer_length(self->rx_buffer);
     uint16_t sz = count;
-    uint16_t i = 1;
+    uint16_t i = 1;  // ignore the start byte that failed
     uint16_t length;
     if (0 == (self->rx_state & 0x80)) {
         EMBC_LOGD3("framer_resync not synchronized, no additional error.");
@@ -800,9 +800,10 @@ static void framer_resync(struct embc_framer_s * self, int32_t status) {
     }
     self->rx_state = ST_SOF_UNSYNC;
 
-    for (; i < count; ++i) {
+    while (i < count) {
         uint8_t * b = self->rx_buffer->data + i;
         if (*b != SOF) {
+            ++i;
             continue;
         }
         sz = count - i;
@@ -816,6 +817,7 @@ static void framer_resync(struct embc_framer_s * self, int32_t status) {
                 self->rx_state = ST_PAYLOAD_AND_FOOTER;
                 goto exit;
             case EMBC_ERROR_MESSAGE_INTEGRITY:
+                ++i;
                 break;  // consume & keep trying
             case EMBC_SUCCESS: {
                 self->rx_state = ST_SOF;
@@ -831,13 +833,17 @@ static void framer_resync(struct embc_framer_s * self, int32_t status) {
                 break;
             }
             case EMBC_ERROR_IO:
+                ++i;
                 break;
             default:
+                ++i;
                 break;
         }
     }
 exit:
-    embc_buffer_erase(self->rx_buffer, 0, i);
+    if (i > 0) {
+        embc_buffer_erase(self->rx_buffer, 0, i);
+    }
 }
 
 void embc_framer_hal_rx_byte(struct embc_framer_s * self, uint8_t byte) {
-- 
2.43.0


From 5c7209c90b73523ff8cc267033eed82156ea8fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:00 +0000
Subject: [PATCH 04/76] fix: framer resync treats queued buffers as transmit
 slots when aborting them

---
 src/stream/framer.c | 41 ++++++++++++++++++++++++++---------------
 1 file changed, 26 insertions(+), 15 deletions(-)

diff --git a/src/stream/framer.c b/src/stream/framer.c
index 31367c7..dff513a 100644
--- a/src/stream/framer.c
+++ b/src/stream/framer.c
@@ -441,14 +441,8 @@ static struct tx_buf_s * find_tx(struct embc_framer_s * self, uint8_t frame_id)
     return 0;
 }
 
-static void tx_complete(struct embc_framer_s * self, struct tx_buf_s * t, uint8_t status) {
-    struct embc_framer_header_s hdr = *buffer_hdr(t->b);
-    EMBC_LOGD2("tx_complete %p, port=%d, status=%d", (void *) t->b, (int) hdr.port, (int) status);
+static void tx_report(struct embc_framer_s * self, struct embc_framer_header_s hdr, uint8_t status) {
     ++self->status.tx_count;
-    embc_buffer_free(t->b);
-    t->b = 0;
-    t->status = TX_STATUS_EMPTY;
-    embc_list_add_tail(&self->tx_buffers_free, &t->item);
     uint16_t port_def = hdr_port_def(&hdr);
     if (hdr.port < EMBC_FRAMER_PORTS) {
         self->port_cbk[hdr.port].tx_done_fn(
@@ -463,6 +457,16 @@ static void tx_complete(struct embc_framer_s * self, struct tx_buf_s * t, uint8_
     }
 }
 
+static void tx_complete(struct embc_framer_s * self, struct tx_buf_s * t, uint8_t status) {
+    struct embc_framer_header_s hdr = *buffer_hdr(t->b);
+    EMBC_LOGD2("tx_complete %p, port=%d, status=%d", (void *) t->b, (int) hdr.port, (int) status);
+    embc_buffer_free(t->b);
+    t->b = 0;
+    t->status = TX_STATUS_EMPTY;
+    embc_list_add_tail(&self->tx_buffers_free, &t->item);
+    tx_report(self, hdr, status);
+}
+
 static void tx_error(struct embc_framer_s * self, struct tx_buf_s * t, uint8_t status) {
     if (t->retries >= EMBC_FRAMER_MAX_RETRIES) {
         tx_complete(self, t, status);
@@ -475,15 +479,22 @@ static void tx_error(struct embc_framer_s * self, struct tx_buf_s * t, uint8_t s
 
 static void tx_purge_queued(struct embc_framer_s * self) {
     struct embc_list_s * item;
-    embc_list_foreach(&self->tx_buffers_active, item) {
-        struct tx_buf_s *t = embc_list_entry(item, struct tx_buf_s, item);
-        embc_list_remove(item);
-        tx_complete(self, t, EMBC_ERROR_ABORTED);
+    struct embc_list_s queued;  // of embc_buffer_s, never transmitted
+    embc_list_initialize(&queued);
+    while (0 != (item = embc_list_remove_head(&self->tx_queue))) {
+        embc_list_add_tail(&queued, item);
     }
-    embc_list_foreach(&self->tx_queue, item) {
-        struct tx_buf_s *t = embc_list_entry(item, struct tx_buf_s, item);
-        embc_list_remove(item);
-        tx_complete(self, t, EMBC_ERROR_ABORTED);
+    // messages sent from within the callbacks are not purged
+    embc_size_t count = embc_list_length(&self->tx_buffers_active);
+    while (count--) {
+        item = embc_list_remove_head(&self->tx_buffers_active);
+        tx_complete(self, embc_list_entry(item, struct tx_buf_s, item), EMBC_ERROR_ABORTED);
+    }
+    while (0 != (item = embc_list_remove_head(&queued))) {
+        struct embc_buffer_s * b = embc_list_entry(item, struct embc_buffer_s, item);
+        struct embc_framer_header_s hdr = *buffer_hdr(b);
+        embc_buffer_free(b);
+        tx_report(self, hdr, EMBC_ERROR_ABORTED);
     }
 }
 
-- 
2.43.0


From 8f27aba9f52c4e517b09454856ad75991dbfc03b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:11 +0000
Subject: [PATCH 05/76] fix: framer asserts on an acknowledgement after a frame
 between outstanding frames failed

---
 src/stream/framer.c | 43 ++++++++++++++-----------------------------
 1 file changed, 14 insertions(+), 29 deletions(-)

diff --git a/src/stream/framer.c b/src/stream/framer.c
index dff513a..ccfa861 100644
--- a/src/stream/framer.c
+++ b/src/stream/framer.c
@@ -418,15 +418,9 @@ static inline void send_frame_ack(
     self->hal_cbk.tx_fn(self->hal_cbk.hal, ack);
 }
 
-static uint8_t expected_tx_frame_id(struct embc_framer_s * self) {
-    struct embc_list_s * item;
-    if (embc_list_is_empty(&self->tx_buffers_active)) {
-        return 255;
-    }
-    item = embc_list_peek_head(&self->tx_buffers_active);
-    struct tx_buf_s *t = embc_list_entry(item, struct tx_buf_s, item);
-    struct embc_framer_header_s *hdr = buffer_hdr(t->b);
-    return hdr->frame_id;
+static struct tx_buf_s * tx_active_head(struct embc_framer_s * self) {
+    struct embc_list_s * item = embc_list_peek_head(&self->tx_buffers_active);
+    return item ? embc_list_entry(item, struct tx_buf_s, item) : 0;
 }
 
 static struct tx_buf_s * find_tx(struct embc_framer_s * self, uint8_t frame_id) {
@@ -500,23 +494,16 @@ static void tx_purge_queued(struct embc_framer_s * self) {
 
 static void tx_complete_in_order(struct embc_framer_s * self, struct tx_buf_s * t_current) {
     // Complete only when guaranteed in order!
+    // Frame ids are not necessarily consecutive: earlier frames may have failed.
     bool match_current = false;
-    struct embc_list_s * item;
-    uint8_t tx_ack_frame_id = expected_tx_frame_id(self);
-    embc_list_foreach(&self->tx_buffers_active, item) {
-        struct tx_buf_s *t = embc_list_entry(item, struct tx_buf_s, item);
+    struct tx_buf_s * t;
+    while ((0 != (t = tx_active_head(self))) && (TX_STATUS_ACKED == t->status)) {
         match_current |= (t == t_current);
-        struct embc_framer_header_s *hdr = buffer_hdr(t->b);
-        if ((TX_STATUS_ACKED == t->status) && (hdr->frame_id == tx_ack_frame_id)) {
-            tx_complete(self, t, 0);
-        } else if (!match_current && (t->status == TX_STATUS_AWAIT_ACK)) {
-            ++self->status.tx_retransmit_count;
-            transmit_tx_buf(self, t);
-            break;
-        } else {
-            break;
-        }
-        tx_ack_frame_id = frame_id_incr(tx_ack_frame_id);
+        tx_complete(self, t, 0);
+    }
+    if (t && !match_current && (TX_STATUS_AWAIT_ACK == t->status)) {
+        ++self->status.tx_retransmit_count;
+        transmit_tx_buf(self, t);
     }
 }
 
@@ -612,18 +599,16 @@ static void tx_confirmed(struct embc_framer_s * self, struct embc_framer_header_
         EMBC_LOGD("ack frame_id=%d", (int) frame_id);
         // update current item status.
         t_match->status = TX_STATUS_ACKED;
-        uint16_t mask = hdr_port_def(ack_hdr);
+        uint32_t mask = hdr_port_def(ack_hdr);
 
         // update status based upon mask.
         struct embc_list_s * item = &t_match->item;
         while (item->prev != &self->tx_buffers_active) {
             item = item->prev;
-            mask = mask << 1;
             struct tx_buf_s * t = embc_list_entry(item, struct tx_buf_s, item);
             struct embc_framer_header_s *hdr = buffer_hdr(t->b);
-            frame_id = (frame_id - 1) & EMBC_FRAMER_ID_MASK;
-            EMBC_ASSERT(frame_id == hdr->frame_id);
-            if ((TX_STATUS_AWAIT_ACK == t->status) && (mask & EMBC_FRAMER_ACK_MASK_CURRENT)) {
+            uint8_t delta = (frame_id - hdr->frame_id) & EMBC_FRAMER_ID_MASK;
+            if ((TX_STATUS_AWAIT_ACK == t->status) && ((mask << delta) & EMBC_FRAMER_ACK_MASK_CURRENT)) {
                 t->status = TX_STATUS_ACKED;
             }
         }
-- 
2.43.0


From 2fc69d193b56f7f3bdcdc6687077e330c6ec47d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:11 +0000
Subject: [PATCH 06/76] fix: framer counts retransmissions triggered by later
 acknowledgements as retries

---
 src/stream/framer.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/stream/framer.c b/src/stream/framer.c
index ccfa861..dd517fc 100644
--- a/src/stream/framer.c
+++ b/src/stream/framer.c
@@ -501,7 +501,8 @@ static void tx_complete_in_order(struct embc_framer_s * self, struct tx_buf_s *
         match_current |= (t == t_current);
         tx_complete(self, t, 0);
     }
-    if (t && !match_current && (TX_STATUS_AWAIT_ACK == t->status)) {
+    if (t && !match_current && (TX_STATUS_AWAIT_ACK == t->status) && (t->retries < EMBC_FRAMER_MAX_RETRIES)) {
+        ++t->retries;
         ++self->status.tx_retransmit_count;
         transmit_tx_buf(self, t);
     }
-- 
2.43.0


From 2a0bcc9dc8397cf4f79f56779d5e9901d12d9e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:12 +0000
Subject: [PATCH 07/76] fix: framer stalls queued and acknowledged messages
 after a message fails

---
 src/stream/framer.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/stream/framer.c b/src/stream/framer.c
index dd517fc..5c99f56 100644
--- a/src/stream/framer.c
+++ b/src/stream/framer.c
@@ -93,6 +93,7 @@ static inline uint8_t frame_id_incr(uint8_t frame_id) {
 }
 
 static void transmit_tx_buf(struct embc_framer_s * self, struct tx_buf_s * t);
+static void transmit_queued(struct embc_framer_s * self);
 static void timer_schedule(struct embc_framer_s * self);
 
 struct embc_framer_s {
@@ -492,6 +493,16 @@ static void tx_purge_queued(struct embc_framer_s * self) {
     }
 }
 
+static void tx_proceed_after_error(struct embc_framer_s * self) {
+    struct tx_buf_s * t;
+    // the frame that failed may have been holding back later frames
+    while ((0 != (t = tx_active_head(self))) && (TX_STATUS_ACKED == t->status)) {
+        tx_complete(self, t, 0);
+    }
+    transmit_queued(self);
+    timer_schedule(self);
+}
+
 static void tx_complete_in_order(struct embc_framer_s * self, struct tx_buf_s * t_current) {
     // Complete only when guaranteed in order!
     // Frame ids are not necessarily consecutive: earlier frames may have failed.
@@ -525,7 +536,7 @@ static void timer_callback(void * user_data, uint32_t timer_id) {
             tx_error(self, t, EMBC_ERROR_TIMED_OUT);
         }
     }
-    timer_schedule(self);
+    tx_proceed_after_error(self);
 }
 
 static void timer_start(struct embc_framer_s * self, int64_t timeout) {
@@ -642,6 +653,7 @@ static void handle_ack(struct embc_framer_s *self, struct embc_buffer_s * ack) {
         struct tx_buf_s * t = find_tx(self, frame_id);
         if (t) {
             tx_error(self, t, EMBC_ERROR_MESSAGE_INTEGRITY);
+            tx_proceed_after_error(self);
         } else {
             EMBC_LOGW("handle_ack nack: frame_id=%d not found", (int) frame_id);
         }
-- 
2.43.0


From 04178ff1fea0ea9941f580b1d1f86d34b2ecea7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:13 +0000
Subject: [PATCH 08/76] fix: framer timer is never armed again after it fires
 with an unchanged earliest timeout

---
 src/stream/framer.c | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/stream/framer.c b/src/stream/framer.c
index 5c99f56..70c1f9e 100644
--- a/src/stream/framer.c
+++ b/src/stream/framer.c
@@ -519,22 +519,31 @@ static void tx_complete_in_order(struct embc_framer_s * self, struct tx_buf_s *
     }
 }
 
+static struct tx_buf_s * tx_find_expired(struct embc_framer_s * self, int64_t current_time) {
+    struct embc_list_s * item;
+    embc_list_foreach(&self->tx_buffers_active, item) {
+        struct tx_buf_s * t = embc_list_entry(item, struct tx_buf_s, item);
+        if ((TX_STATUS_ACKED != t->status) && (current_time >= t->timeout)) {
+            return t;
+        }
+    }
+    return 0;
+}
+
 static void timer_callback(void * user_data, uint32_t timer_id) {
     struct embc_framer_s * self = (struct embc_framer_s *) user_data;
     (void) timer_id;
-    struct embc_list_s * item;
     struct tx_buf_s * t;
     EMBC_LOGD("timer_callback %d", (int) timer_id);
+    self->next_timeout = EMBC_TIME_MAX;  // the timer is no longer armed
     int64_t current_time = self->hal_cbk.time_get(self->hal_cbk.hal);
     if (current_time >= self->rx_next_timeout) {
         self->rx_next_timeout = EMBC_TIME_MAX;
         rx_complete_queued(self);
     }
-    embc_list_foreach(&self->tx_buffers_active, item) {
-        t = embc_list_entry(item, struct tx_buf_s, item);
-        if ((TX_STATUS_ACKED != t->status) && (current_time >= t->timeout)) {
-            tx_error(self, t, EMBC_ERROR_TIMED_OUT);
-        }
+    // search again each time: callbacks may change the outstanding frames
+    while (0 != (t = tx_find_expired(self, current_time))) {
+        tx_error(self, t, EMBC_ERROR_TIMED_OUT);
     }
     tx_proceed_after_error(self);
 }
@@ -562,7 +571,7 @@ static void timer_schedule(struct embc_framer_s * self) {
     struct embc_list_s * item;
     embc_list_foreach(&self->tx_buffers_active, item) {
         struct tx_buf_s *t = embc_list_entry(item, struct tx_buf_s, item);
-        if (t->timeout < timeout) {
+        if ((TX_STATUS_ACKED != t->status) && (t->timeout < timeout)) {
             timeout = t->timeout;
         }
     }
-- 
2.43.0


From 000b6953d6abf53b70f0212b38fe859094c51c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:43 +0000
Subject: [PATCH 09/76] fix: framer reuses transmit buffers while the HAL still
 owns them

---
 src/stream/framer.c | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/stream/framer.c b/src/stream/framer.c
index 70c1f9e..6cbe406 100644
--- a/src/stream/framer.c
+++ b/src/stream/framer.c
@@ -77,6 +77,7 @@ struct tx_buf_s {
     int64_t timeout;
     uint8_t status;
     uint8_t retries;
+    bool hal_owned;  // b was given to the HAL which has not yet called tx_done
 };
 
 static inline uint16_t hdr_port_def(struct embc_framer_header_s * hdr) {
@@ -455,8 +456,11 @@ static void tx_report(struct embc_framer_s * self, struct embc_framer_header_s h
 static void tx_complete(struct embc_framer_s * self, struct tx_buf_s * t, uint8_t status) {
     struct embc_framer_header_s hdr = *buffer_hdr(t->b);
     EMBC_LOGD2("tx_complete %p, port=%d, status=%d", (void *) t->b, (int) hdr.port, (int) status);
-    embc_buffer_free(t->b);
+    if (!t->hal_owned) {
+        embc_buffer_free(t->b);
+    } // else freed by embc_framer_hal_tx_done
     t->b = 0;
+    t->hal_owned = false;
     t->status = TX_STATUS_EMPTY;
     embc_list_add_tail(&self->tx_buffers_free, &t->item);
     tx_report(self, hdr, status);
@@ -589,7 +593,10 @@ static void transmit_tx_buf(struct embc_framer_s * self, struct tx_buf_s * t) {
     t->status = TX_STATUS_TRANSMITTING;
     int64_t current_time = self->hal_cbk.time_get(self->hal_cbk.hal);
     t->timeout = EMBC_FRAMER_TIMEOUT + current_time;
-    self->hal_cbk.tx_fn(self->hal_cbk.hal, t->b);
+    if (!t->hal_owned) { // else still being transmitted
+        t->hal_owned = true;
+        self->hal_cbk.tx_fn(self->hal_cbk.hal, t->b);
+    }
     timer_schedule(self);
 }
 
@@ -948,9 +955,14 @@ void embc_framer_hal_tx_done(
         embc_list_foreach(&self->tx_buffers_active, item) {
             struct tx_buf_s *t = embc_list_entry(item, struct tx_buf_s, item);
             if (t->b == buffer) {
-                t->status = TX_STATUS_AWAIT_ACK;
+                t->hal_owned = false;
+                if (TX_STATUS_TRANSMITTING == t->status) {
+                    t->status = TX_STATUS_AWAIT_ACK;
+                }
+                return;
             }
         }
+        embc_buffer_free(buffer);  // completed while owned by the HAL
     }
 }
 
-- 
2.43.0


From b193e41bfe58e357a893a21d415970558c29b3d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:43 +0000
Subject: [PATCH 10/76] fix: framer send refuses 240 byte payloads it must copy
 and accepts payloads that are too long

---
 src/stream/framer.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/stream/framer.c b/src/stream/framer.c
index 6cbe406..598d859 100644
--- a/src/stream/framer.c
+++ b/src/stream/framer.c
@@ -1031,7 +1031,7 @@ void embc_framer_send(
 
     if (buffer->reserve < EMBC_FRAMER_FOOTER_SIZE) {
         EMBC_LOGD("embc_framer_send buffer copy %p", (void *) buffer);
-        EMBC_ASSERT(length < EMBC_FRAMER_PAYLOAD_MAX_SIZE);
+        EMBC_ASSERT(length <= EMBC_FRAMER_PAYLOAD_MAX_SIZE);
         struct embc_buffer_s * b = embc_framer_alloc(self);
         embc_buffer_write(b, buffer->data, length);
         embc_buffer_free(buffer);
@@ -1039,6 +1039,8 @@ void embc_framer_send(
         length = embc_buffer_length(buffer);
     }
     EMBC_ASSERT(buffer->reserve == EMBC_FRAMER_FOOTER_SIZE);
+    EMBC_ASSERT(length >= HEADER_SIZE);
+    EMBC_ASSERT((length - HEADER_SIZE) <= EMBC_FRAMER_PAYLOAD_MAX_SIZE);
 
     buffer->reserve = 0;
     struct embc_framer_header_s * hdr = buffer_hdr(buffer);
-- 
2.43.0


From 122da3cbd82b35e1439b2a6c9cc71f109b62d831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:44 +0000
Subject: [PATCH 11/76] fix: framer retransmits a frame already acknowledged on
 a late nack

---
 src/stream/framer.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/stream/framer.c b/src/stream/framer.c
index 598d859..87483d2 100644
--- a/src/stream/framer.c
+++ b/src/stream/framer.c
@@ -667,7 +667,9 @@ static void handle_ack(struct embc_framer_s *self, struct embc_buffer_s * ack) {
         uint8_t frame_id = hdr_frame_id(&hdr);
         EMBC_LOGI("handle_ack nack, status=%d, frame_id=%d", (int) status, (int) frame_id);
         struct tx_buf_s * t = find_tx(self, frame_id);
-        if (t) {
+        if (t && (TX_STATUS_ACKED == t->status)) {
+            EMBC_LOGI("handle_ack nack: frame_id=%d already received", (int) frame_id);
+        } else if (t) {
             tx_error(self, t, EMBC_ERROR_MESSAGE_INTEGRITY);
             tx_proceed_after_error(self);
         } else {
-- 
2.43.0


From 434e8986f744fb10d2d2db71cd3f5a5c0712dcc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:56 +0000
Subject: [PATCH 12/76] fix: framer loses messages sent while a resync frame is
 outstanding

---
 src/stream/framer.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/stream/framer.c b/src/stream/framer.c
index 87483d2..309f1a2 100644
--- a/src/stream/framer.c
+++ b/src/stream/framer.c
@@ -600,6 +600,11 @@ static void transmit_tx_buf(struct embc_framer_s * self, struct tx_buf_s * t) {
     timer_schedule(self);
 }
 
+static bool is_resync(struct embc_buffer_s * buffer) {
+    struct embc_framer_header_s * hdr = buffer_hdr(buffer);
+    return (0 == hdr->port) && (EMBC_FRAMER_PORT0_RESYNC == hdr_port_def(hdr));
+}
+
 static void transmit_queued(struct embc_framer_s * self) {
     if (EMBC_LOG_CHECK_STATIC(EMBC_LOG_LEVEL_DEBUG1)) {
         embc_size_t sz = embc_list_length(&self->tx_queue);
@@ -607,8 +612,15 @@ static void transmit_queued(struct embc_framer_s * self) {
         EMBC_LOGD("transmit_queued total length = %d", (int) sz);
     }
     while (!embc_list_is_empty(&self->tx_buffers_free) && !embc_list_is_empty(&self->tx_queue)) {
-        struct embc_list_s * item =  embc_list_remove_head(&self->tx_queue);
+        struct embc_list_s * item =  embc_list_peek_head(&self->tx_queue);
         struct embc_buffer_s * b = embc_list_entry(item, struct embc_buffer_s, item);
+        struct tx_buf_s * head = tx_active_head(self);
+        if (head && (is_resync(head->b) || is_resync(b))) {
+            // The receiver discards its state on resync, and a retransmitted
+            // resync discards it again: never outstanding with other frames.
+            break;
+        }
+        embc_list_remove(item);
         item = embc_list_remove_head(&self->tx_buffers_free);
         struct tx_buf_s * t = embc_list_entry(item, struct tx_buf_s, item);
         embc_list_add_tail(&self->tx_buffers_active, item);
-- 
2.43.0


From efce080b327187ecce5bb1f5bf3a0d78b704b3d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:14 +0000
Subject: [PATCH 13/76] fix: framer holds received frames without bound when no
 earlier frame can still arrive

---
 src/stream/framer.c | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/stream/framer.c b/src/stream/framer.c
index 309f1a2..06eb680 100644
--- a/src/stream/framer.c
+++ b/src/stream/framer.c
@@ -358,10 +358,27 @@ static void rx_timeout_set(struct embc_framer_s * self) {
     self->rx_next_timeout = EMBC_FRAMER_RX_TIMEOUT + current_time;
 }
 
+// The pending frame when no earlier frame can still be received, otherwise null.
+static struct embc_buffer_s * rx_pending_ready(struct embc_framer_s *self) {
+    struct embc_list_s * item = embc_list_peek_head(&self->rx_pending);
+    if (0 == item) {
+        return 0;
+    }
+    struct embc_buffer_s * b = embc_list_entry(item, struct embc_buffer_s, item);
+    uint8_t delta = (self->rx_frame_id - buffer_hdr(b)->frame_id) & EMBC_FRAMER_ID_MASK;
+    // frames before the outstanding window are discarded on receive
+    uint16_t earlier = (BITMAP_CURRENT - 1) >> delta;
+    earlier &= self->rx_frame_bitmask_outstanding;
+    return ((self->rx_frame_bitmask & earlier) == earlier) ? b : 0;
+}
+
 static void rx_complete_queued_or_set_timeout(struct embc_framer_s *self) {
-    if ((self->rx_frame_bitmask & self->rx_frame_bitmask_outstanding) == self->rx_frame_bitmask_outstanding) {
-        rx_complete_queued(self);
-    } else if (!embc_list_is_empty(&self->rx_pending)) {
+    struct embc_buffer_s * b;
+    while (0 != (b = rx_pending_ready(self))) {
+        embc_list_remove(&b->item);
+        rx_complete(self, b);
+    }
+    if (!embc_list_is_empty(&self->rx_pending)) {
         rx_timeout_set(self);
         timer_schedule(self);
     }
-- 
2.43.0


From 705299ad14fba71cdcc7748008c22d6f725d877a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:15 +0000
Subject: [PATCH 14/76] fix: framer delivers freed frames when a receive
 callback resyncs on timeout

---
 src/stream/framer.c | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/stream/framer.c b/src/stream/framer.c
index 06eb680..dcd788e 100644
--- a/src/stream/framer.c
+++ b/src/stream/framer.c
@@ -344,11 +344,9 @@ static void rx_complete(struct embc_framer_s *self, struct embc_buffer_s * frame
 
 static void rx_complete_queued(struct embc_framer_s *self) {
     struct embc_list_s *item;
-    struct embc_buffer_s *b;
-    embc_list_foreach(&self->rx_pending, item) {
-        b = embc_list_entry(item, struct embc_buffer_s, item);
-        embc_list_remove(&b->item);
-        rx_complete(self, b);
+    // callbacks may call embc_framer_resync(), which purges the list
+    while (0 != (item = embc_list_remove_head(&self->rx_pending))) {
+        rx_complete(self, embc_list_entry(item, struct embc_buffer_s, item));
     }
 }
 
-- 
2.43.0


From 3c9019dec9e8b6acd29ef40c8fc115b1a014e1b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:55 +0000
Subject: [PATCH 15/76] fix: framer resync requested from within a transmit
 done callback

---
 src/stream/framer.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/stream/framer.c b/src/stream/framer.c
index dcd788e..5786213 100644
--- a/src/stream/framer.c
+++ b/src/stream/framer.c
@@ -493,15 +493,18 @@ static void tx_error(struct embc_framer_s * self, struct tx_buf_s * t, uint8_t s
 
 static void tx_purge_queued(struct embc_framer_s * self) {
     struct embc_list_s * item;
+    struct embc_list_s active;  // of tx_buf_s
     struct embc_list_s queued;  // of embc_buffer_s, never transmitted
+    // messages sent from within the callbacks are not purged
+    embc_list_initialize(&active);
+    while (0 != (item = embc_list_remove_head(&self->tx_buffers_active))) {
+        embc_list_add_tail(&active, item);
+    }
     embc_list_initialize(&queued);
     while (0 != (item = embc_list_remove_head(&self->tx_queue))) {
         embc_list_add_tail(&queued, item);
     }
-    // messages sent from within the callbacks are not purged
-    embc_size_t count = embc_list_length(&self->tx_buffers_active);
-    while (count--) {
-        item = embc_list_remove_head(&self->tx_buffers_active);
+    while (0 != (item = embc_list_remove_head(&active))) {
         tx_complete(self, embc_list_entry(item, struct tx_buf_s, item), EMBC_ERROR_ABORTED);
     }
     while (0 != (item = embc_list_remove_head(&queued))) {
-- 
2.43.0


From afb5bf673842f142eb21a88f955d01af1b4c1546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:20 +0000
Subject: [PATCH 16/76] fix: buffer allocator serves requests larger than its
 largest buffer from outside its pools

---
 src/memory/buffer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/memory/buffer.c b/src/memory/buffer.c
index 02bc733..0da6360 100644
--- a/src/memory/buffer.c
+++ b/src/memory/buffer.c
@@ -85,7 +85,7 @@ void embc_buffer_allocator_initialize(
     }
     embc_memset(self, 0, total_size);
     uint8_t * memory = (uint8_t *) self;
-    self->size_max = total_size; // largest buffer
+    self->size_max = (length > 0) ? (32 << (length - 1)) : 0; // largest buffer
     uint8_t * buffers_ptr = memory + header_size;
 
     for (embc_size_t i = 0; i < length; ++i) {
-- 
2.43.0


From cffac14e571015a590f8f631c4c057c47da70164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:12 +0000
Subject: [PATCH 17/76] fix: buffer string write refuses an exact fit and can
 shorten the buffer

---
 src/memory/buffer.c | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/memory/buffer.c b/src/memory/buffer.c
index 0da6360..d5b8c01 100644
--- a/src/memory/buffer.c
+++ b/src/memory/buffer.c
@@ -228,17 +228,13 @@ static inline bool write_str_(struct embc_buffer_s * buffer,
     EMBC_DBC_NOT_NULL(buffer);
     EMBC_DBC_NOT_NULL(str);
     uint16_t capacity = buffer->capacity - buffer->reserve;
-    while (buffer->cursor < capacity) {
-        if (*str == 0) {
-            write_update_length(buffer);
-            return true;
-        }
+    while ((*str != 0) && (buffer->cursor < capacity)) {
         buffer->data[buffer->cursor] = *str;
         ++str;
         ++buffer->cursor;
     }
-    buffer->length = capacity;
-    return false;
+    write_update_length(buffer);
+    return (*str == 0);
 }
 
 void embc_buffer_write_str(struct embc_buffer_s * buffer,
-- 
2.43.0


From 96817f68f7d91749bc519eca4a493524fae5955b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:12 +0000
Subject: [PATCH 18/76] fix: static buffer initialization leaves reserve
 undefined

---
 include/embc/memory/buffer.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/embc/memory/buffer.h b/include/embc/memory/buffer.h
index f388610..bd2d9a0 100644
--- a/include/embc/memory/buffer.h
+++ b/include/embc/memory/buffer.h
@@ -686,6 +686,7 @@ extern const struct embc_buffer_manager_s embc_buffer_manager_static;
     } while(0); \
     (name).cursor = 0; \
     (name).length = 0; \
+    (name).reserve = 0; \
     (name).buffer_id = 0; \
     (name).flags = 0; \
     (name).manager = &embc_buffer_manager_static; \
-- 
2.43.0


From 874a7ca1f03199b22a5af4baa1e3e49329319264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:21 +0000
Subject: [PATCH 19/76] fix: buffer erase accepts out of range indices that
 truncate into range

---
 src/memory/buffer.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/memory/buffer.c b/src/memory/buffer.c
index d5b8c01..5b5aeb7 100644
--- a/src/memory/buffer.c
+++ b/src/memory/buffer.c
@@ -337,8 +337,9 @@ void embc_buffer_erase(struct embc_buffer_s * buffer,
                        embc_size_t start,
                        embc_size_t end) {
     EMBC_DBC_NOT_NULL(buffer);
-    EMBC_DBC_RANGE_INT(start, 0, buffer->length - 1);
-    EMBC_DBC_RANGE_INT(end, 0, buffer->length);
+    // full width comparisons: EMBC_DBC_RANGE_INT truncates to int
+    EMBC_DBC_REQUIRE((start >= 0) && (start < buffer->length));
+    EMBC_DBC_REQUIRE((end >= 0) && (end <= buffer->length));
     embc_size_t length = end - start;
     if (length > 0) {
         for (embc_size_t k = start; k < (buffer->length - length); ++k) {
-- 
2.43.0


From 36d52d1c7abc6ef964df602f1fdecab3f33fcf86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:03 +0000
Subject: [PATCH 20/76] fix: block allocator treats free blocks below an
 allocated one in the same bitmap byte as used

---
 src/memory/block.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/memory/block.c b/src/memory/block.c
index 5cb8baa..84e36f5 100644
--- a/src/memory/block.c
+++ b/src/memory/block.c
@@ -60,7 +60,7 @@ void * embc_mblock_alloc_unsafe(struct embc_mblock_s * self, int32_t size) {
     int32_t idx_start = idx_invalid;
     int32_t free_count = 0;
     for (int32_t idx_search = 0; idx_search < s->block_count; ++idx_search) {
-        int32_t bit = s->bitmap[idx_search / 8] >> (idx_search & 0x7);
+        int32_t bit = (s->bitmap[idx_search / 8] >> (idx_search & 0x7)) & 1;
         if (bit) {
             idx_start = idx_invalid;
             free_count = 0;
@@ -94,7 +94,7 @@ void embc_mblock_free(struct embc_mblock_s * self, void * buffer, int32_t size)
     int32_t blocks = size_to_blocks(s, size);
     int32_t idx_start = (b - s->mem) / s->block_size;
     for (int idx = idx_start; idx < idx_start + blocks; ++idx) {
-        int32_t bit = s->bitmap[idx / 8] >> (idx & 0x7);
+        int32_t bit = (s->bitmap[idx / 8] >> (idx & 0x7)) & 1;
         EMBC_ASSERT(bit);  // ensure already allocated
         s->bitmap[idx / 8] &= ~((uint8_t) (1 << (idx & 0x07)));
     }
-- 
2.43.0


From 7431a2df208c8d322ba93ab0b7012acb1e4b08a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:03 +0000
Subject: [PATCH 21/76] fix: block allocator size rounding overflows for very
 large requests

---
 src/memory/block.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/memory/block.c b/src/memory/block.c
index 84e36f5..f6312be 100644
--- a/src/memory/block.c
+++ b/src/memory/block.c
@@ -47,7 +47,7 @@ void embc_mblock_finalize(struct embc_mblock_s * self) {
 }
 
 static inline int32_t size_to_blocks(struct mblock_s * s, int32_t size) {
-    return (size + s->block_size - 1) / s->block_size;
+    return (size / s->block_size) + ((size % s->block_size) ? 1 : 0);
 }
 
 void * embc_mblock_alloc_unsafe(struct embc_mblock_s * self, int32_t size) {
-- 
2.43.0


From 37bc4bb59b14700ea68cec8fa3fb1366d20ff240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:36 +0000
Subject: [PATCH 22/76] fix: integer map growth drops colliding entries

---
 src/collections/intmap.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/collections/intmap.c b/src/collections/intmap.c
index fc0e2e0..14b6f2a 100644
--- a/src/collections/intmap.c
+++ b/src/collections/intmap.c
@@ -109,7 +109,7 @@ static void resize(struct embc_intmap_s * self) {
             item->next = 0;
             previous = &self->bins[compute_bin(self, item->key)];
             while (*previous) {
-                *previous = (*previous)->next;
+                previous = &(*previous)->next;
             }
             *previous = item;
         }
-- 
2.43.0


From e0441a18698673ff37312f38db7c615aa8b65950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:36 +0000
Subject: [PATCH 23/76] fix: integer map leaks its old bins on growth

---
 src/collections/intmap.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/collections/intmap.c b/src/collections/intmap.c
index 14b6f2a..0f6c9a4 100644
--- a/src/collections/intmap.c
+++ b/src/collections/intmap.c
@@ -114,6 +114,7 @@ static void resize(struct embc_intmap_s * self) {
             *previous = item;
         }
     }
+    embc_free(bins_old);
 }
 
 int embc_intmap_put(struct embc_intmap_s * self, embc_size_t key, void * value, void ** old_value) {
-- 
2.43.0


From e2c5d8771de187c4159e8c58ee4cb070644b5dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:36 +0000
Subject: [PATCH 24/76] fix: integer map leaks removed entries

---
 src/collections/intmap.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/collections/intmap.c b/src/collections/intmap.c
index 0f6c9a4..812225f 100644
--- a/src/collections/intmap.c
+++ b/src/collections/intmap.c
@@ -190,8 +190,7 @@ int embc_intmap_remove(struct embc_intmap_s * self, embc_size_t key, void ** old
                     itermap_iterator_next_advance(iter);
                 }
             }
-            item->next = 0;
-            item->value = 0;
+            embc_free(item);
             return 0;
         }
         previous = &(item->next);
-- 
2.43.0


From f33cbf81b03b115a178780ab2d1d665810e9e4f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:36 +0000
Subject: [PATCH 25/76] fix: integer map iteration never ends when the last bin
 is used

---
 src/collections/intmap.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/collections/intmap.c b/src/collections/intmap.c
index 812225f..2ef3737 100644
--- a/src/collections/intmap.c
+++ b/src/collections/intmap.c
@@ -206,6 +206,7 @@ static void itermap_iterator_next_advance(struct embc_intmap_iterator_s * self)
             return;
         } else {
             self->current_bin += 1;
+            self->next_item = 0;
         }
     }
     while (self->current_bin <= self->intmap->hash_mask) {
-- 
2.43.0


From 43d56ab12af55a61e48a3af6681f23b3e87a4046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:36 +0000
Subject: [PATCH 26/76] fix: typed integer map leaks its wrapper on free

---
 include/embc/collections/intmap.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/embc/collections/intmap.h b/include/embc/collections/intmap.h
index e374a13..9761bae 100644
--- a/include/embc/collections/intmap.h
+++ b/include/embc/collections/intmap.h
@@ -179,7 +179,10 @@ EMBC_API void embc_intmap_iterator_free(struct embc_intmap_iterator_s * self);
         self->intmap = embc_intmap_new(); \
         return self; \
     } \
-    void name##_free(struct name##_s * self) { embc_intmap_free(self->intmap); } \
+    void name##_free(struct name##_s * self) { \
+        embc_intmap_free(self->intmap); \
+        free(self); \
+    } \
     embc_size_t name##_length(struct name##_s * self) { return embc_intmap_length(self->intmap); } \
     int name##_put(struct name##_s * self, embc_size_t key, type value, type * old_value) { \
         return embc_intmap_put(self->intmap, key, (void *) value, (void **) old_value); \
@@ -200,6 +203,7 @@ EMBC_API void embc_intmap_iterator_free(struct embc_intmap_iterator_s * self);
     } \
     void name##_iterator_free(struct name##_iterator_s * self) { \
         embc_intmap_iterator_free(self->iter); \
+        free(self); \
     }
 
 /** @} */
-- 
2.43.0


From 9a1bd2dd15d84087ac02c1de622cfb05ee1acc07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:16 +0000
Subject: [PATCH 27/76] fix: hash map free leaks its entries and table

---
 src/collections/hashmap.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/collections/hashmap.c b/src/collections/hashmap.c
index c207859..5960c6e 100644
--- a/src/collections/hashmap.c
+++ b/src/collections/hashmap.c
@@ -63,7 +63,15 @@ struct embc_hashmap_s * embc_hashmap_new(embc_hashmap_hash hash, embc_hashmap_eq
 
 void embc_hashmap_free(struct embc_hashmap_s * self) {
     if (self) {
-        // free everything
+        for (embc_size_t idx = 0; idx <= self->hashtable_mask; ++idx) {
+            struct entry_s * item = self->hashtable[idx];
+            while (item) {
+                struct entry_s * next_item = item->next;
+                embc_free(item);
+                item = next_item;
+            }
+        }
+        embc_free(self->hashtable);
         embc_free(self);
     }
 }
-- 
2.43.0


From 6ae8059e8171522525274b82e4fa97bdd55f20a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:16 +0000
Subject: [PATCH 28/76] fix: string map hash overflows a signed integer

---
 src/collections/strmap.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/collections/strmap.c b/src/collections/strmap.c
index ccf63d4..bb936cd 100644
--- a/src/collections/strmap.c
+++ b/src/collections/strmap.c
@@ -78,7 +78,7 @@ embc_size_t embc_strmap_length(struct embc_strmap_s *self) {
 
 // djb2: http://www.cse.yorku.ca/~oz/hash.html
 static embc_size_t compute_hash(const char * key) {
-    embc_size_t hash = 5381;
+    size_t hash = 5381;
     int c;
 
     while (1) {
@@ -89,7 +89,7 @@ static embc_size_t compute_hash(const char * key) {
         hash = ((hash << 5) + hash) + c; /* hash * 33 + c */
     }
 
-    return hash;
+    return (embc_size_t) hash;
 }
 
 static bool is_key_equiv(const char * key1, const char * key2) {
-- 
2.43.0


From c343a912fcd08d1f5e2d5f21ba6feb46edc85c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:49 +0000
Subject: [PATCH 29/76] fix: list contains reports the opposite of membership

---
 include/embc/collections/list.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/embc/collections/list.h b/include/embc/collections/list.h
index 8e9ea46..6c8db28 100644
--- a/include/embc/collections/list.h
+++ b/include/embc/collections/list.h
@@ -392,7 +392,7 @@ EMBC_API embc_size_t embc_list_index_of(struct embc_list_s * list,
  */
 static inline bool embc_list_contains(struct embc_list_s * list,
                                       struct embc_list_s * item) {
-    return (embc_list_index_of(list, item) < 0);
+    return (embc_list_index_of(list, item) >= 0);
 }
 
 /**
-- 
2.43.0


From 101074c0e6436d81d4f25918593fed2d0b52b39b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:49 +0000
Subject: [PATCH 30/76] fix: appending an empty list corrupts both lists

---
 include/embc/collections/list.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/embc/collections/list.h b/include/embc/collections/list.h
index 6c8db28..a168f7b 100644
--- a/include/embc/collections/list.h
+++ b/include/embc/collections/list.h
@@ -404,6 +404,9 @@ static inline bool embc_list_contains(struct embc_list_s * list,
  */
 static inline void embc_list_append(struct embc_list_s * list_tgt,
                                     struct embc_list_s * list) {
+    if (embc_list_is_empty(list)) {
+        return;
+    }
     list->prev->next = list_tgt;
     list->next->prev = list_tgt->prev;
     list_tgt->prev->next = list->next;
-- 
2.43.0


From 49c387dc7f88e5a14c797294c5f0e33c2147707b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:49 +0000
Subject: [PATCH 31/76] fix: list reverse unsafe iteration macro does not
 compile

---
 include/embc/collections/list.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/embc/collections/list.h b/include/embc/collections/list.h
index a168f7b..f68d8ec 100644
--- a/include/embc/collections/list.h
+++ b/include/embc/collections/list.h
@@ -321,7 +321,7 @@ static inline void embc_list_insert_after(
  * (usually) minor performance improvement.
  */
 #define embc_list_foreach_reverse_unsafe(list, item) \
-    for (item = (list)->prevnext; item != (list); \
+    for (item = (list)->prev; item != (list); \
          item = item->prev)
 
 /**
-- 
2.43.0


From 3a8c4c532d94cc09a556b310f5ebf15a96412d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:49 +0000
Subject: [PATCH 32/76] fix: event manager schedules events with invalid
 timestamps

---
 src/event_manager.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/event_manager.c b/src/event_manager.c
index a3f7bde..e459a9b 100644
--- a/src/event_manager.c
+++ b/src/event_manager.c
@@ -52,6 +52,9 @@ void embc_evm_free(struct embc_evm_s * self) {
 int32_t embc_evm_schedule(struct embc_evm_s * self, int64_t timestamp,
                           embc_evm_callback cbk_fn, void * cbk_user_data) {
     struct event_s * ev = 0;
+    if (timestamp <= 0) {
+        return 0;
+    }
     if (embc_list_is_empty(&self->events_free)) {
         ++self->event_counter;
         ev = calloc(1, sizeof(struct event_s));
-- 
2.43.0


From 914fca5c4b5e18bc9c3c75de471d070eef2f8087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:49 +0000
Subject: [PATCH 33/76] fix: event manager leaks its events on free

---
 src/event_manager.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/event_manager.c b/src/event_manager.c
index e459a9b..eb3b5fc 100644
--- a/src/event_manager.c
+++ b/src/event_manager.c
@@ -45,8 +45,19 @@ struct embc_evm_s * embc_evm_allocate() {
     return self;
 }
 
+static void events_free(struct embc_list_s * events) {
+    struct embc_list_s * node;
+    embc_list_foreach(events, node) {
+        free(EVGET(node));
+    }
+}
+
 void embc_evm_free(struct embc_evm_s * self) {
-    free(self);
+    if (self) {
+        events_free(&self->events_pending);
+        events_free(&self->events_free);
+        free(self);
+    }
 }
 
 int32_t embc_evm_schedule(struct embc_evm_s * self, int64_t timestamp,
-- 
2.43.0


From f497767227330d82e3bae699783210056ffa8022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:06 +0000
Subject: [PATCH 34/76] fix: event manager processing breaks when a callback
 cancels or schedules events

---
 src/event_manager.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/event_manager.c b/src/event_manager.c
index eb3b5fc..936666f 100644
--- a/src/event_manager.c
+++ b/src/event_manager.c
@@ -128,7 +128,8 @@ int32_t embc_evm_process(struct embc_evm_s * self, int64_t time_current) {
     struct embc_list_s * node;
     struct event_s * ev;
     int32_t count = 0;
-    embc_list_foreach(&self->events_pending, node) {
+    // callbacks may schedule and cancel events: always continue from the head
+    while (0 != (node = embc_list_peek_head(&self->events_pending))) {
         ev = EVGET(node);
         if (ev->timestamp > time_current) {
             break;
-- 
2.43.0


From cd89487dead65cbd7c7533c81e5aa5bc0e3596c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:02 +0000
Subject: [PATCH 35/76] fix: validate the transition table in
 embc_fsm_initialize

---
 src/fsm.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/fsm.c b/src/fsm.c
index 779dd8b..9055c33 100644
--- a/src/fsm.c
+++ b/src/fsm.c
@@ -85,6 +85,17 @@ void embc_fsm_initialize(struct embc_fsm_s * self) {
             EMBC_FATAL("invalid state machine");
         }
     }
+    for (uint32_t idx = 0; idx < self->transitions_count; ++idx) {
+        struct embc_fsm_transition_s const *t = self->transitions + idx;
+        if ((t->current != EMBC_STATE_ANY) && (t->current != EMBC_STATE_NULL)
+                && ((t->current < 0) || (t->current >= self->states_count))) {
+            EMBC_FATAL("invalid transition current state");
+        }
+        if ((t->next != EMBC_STATE_NULL)
+                && ((t->next < 0) || (t->next >= self->states_count))) {
+            EMBC_FATAL("invalid transition next state");
+        }
+    }
     if (!self->name) {
         self->name = "fsm";
     }
-- 
2.43.0


From 80ec97c059c6f396ce6257774badff8f27b4b13b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:04 +0000
Subject: [PATCH 36/76] fix: report every CLI line that overflows the line
 buffer

---
 src/cli.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cli.c b/src/cli.c
index b0b1260..2853ad8 100644
--- a/src/cli.c
+++ b/src/cli.c
@@ -115,7 +115,8 @@ static void embc_cli_compact(embc_cli_t * self) {
     for (i = 0; i < self->cmdlen; ++i) {
         if (i >= EMBC_CLI_LINE_LENGTH) {
             // line too long - do not compact.
-            break;
+            self->cmdlen = EMBC_CLI_LINE_LENGTH;
+            return;
         }
         char ch = self->cmdline[i];
         if (isCommentStart(&ch)) { /* start of a comment */
-- 
2.43.0


From 319320f0c3fec7172bf725f76dc37dd4c5bf5115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:04 +0000
Subject: [PATCH 37/76] fix: ignore NUL characters typed into the CLI

---
 src/cli.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cli.c b/src/cli.c
index 2853ad8..95b73ac 100644
--- a/src/cli.c
+++ b/src/cli.c
@@ -192,6 +192,7 @@ void embc_cli_set_verbose(embc_cli_t * self, enum embc_cli_verbose_mode_e mode)
 void embc_cli_insert_char(embc_cli_t * self, char ch) {
     EMBC_DBC_NOT_NULL(self);
     switch (ch) {
+        case KEY_NUL:  break; // cannot be part of a command line
         case KEY_BS:   embc_cli_backspace(self); break;
         case KEY_DEL:  embc_cli_backspace(self); break;
         case KEY_LF:
-- 
2.43.0


From 1dd499f4b378ab01346dbc9846a312ad20d8ca7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:04 +0000
Subject: [PATCH 38/76] fix: pass the user's cookie to the CLI execute_args
 handler

---
 src/cli.c | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/cli.c b/src/cli.c
index 95b73ac..1313020 100644
--- a/src/cli.c
+++ b/src/cli.c
@@ -151,7 +151,9 @@ static void embc_cli_process_line(embc_cli_t * self) {
         print_newline(self);
     } else { // valid command
         int rc = EMBC_CLI_SUCCESS;
-        if (self->execute_line) {
+        if (self->execute_args) {
+            rc = embc_cli_line_parser(self, self->cmdline);
+        } else if (self->execute_line) {
             rc = self->execute_line(self->execute_cookie, self->cmdline);
         }
         if (rc != EMBC_CLI_SUCCESS_PROMPT_ONLY) {
@@ -171,10 +173,6 @@ void embc_cli_initialize(embc_cli_t * self) {
     EMBC_DBC_NOT_NULL(self);
     embc_memset(self->cmdline, 0, sizeof(self->cmdline));
     self->cmdlen = 0;
-    if (self->execute_args) {
-        self->execute_line = embc_cli_line_parser;
-        self->execute_cookie = self;
-    }
     print_prompt(self);
 }
 
-- 
2.43.0


From 2b2ab18777eb053f0512df624bfce3b4fe155ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:04 +0000
Subject: [PATCH 39/76] fix: keep embc_cli_line_parser inside the command line
 string

---
 src/cli.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/cli.c b/src/cli.c
index 1313020..b30761c 100644
--- a/src/cli.c
+++ b/src/cli.c
@@ -27,6 +27,7 @@
 #include "embc/cli.h"
 #include "embc/dbc.h"
 #include "embc/platform.h"
+#include <string.h>
 
 
 const char LINE_TOO_LONG[] = "Maximum command line length reached";
@@ -221,9 +222,12 @@ int embc_cli_line_parser(void * self, const char * cmdline) {
     int argc = 0;
     char * argv[EMBC_CLI_MAX_ARGS];
     char * lineptr = line;
+    size_t cmdlen = strlen(cmdline);
+    if (cmdlen >= sizeof(line)) { // too long
+        return EMBC_CLI_ERROR_PARAMETER_VALUE;
+    }
     embc_memset(&argv, 0, sizeof(argv));
-    embc_memcpy(line, cmdline, sizeof(line));
-    line[sizeof(line) - 1] = 0; // just to be sure.
+    embc_memcpy(line, cmdline, cmdlen + 1);
     while (1) {
         // consume multiple delimiters
         while (*lineptr && _is_delimiter(*lineptr, delimiters)) {
-- 
2.43.0


From 4834d1b949eff453dc168ff4318f4992225568ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:35 +0000
Subject: [PATCH 40/76] fix: reject unsigned integer strings that do not fit in
 32 bits

---
 src/cstr.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/cstr.c b/src/cstr.c
index 71e4226..bb59f13 100644
--- a/src/cstr.c
+++ b/src/cstr.c
@@ -90,6 +90,7 @@ const char * embc_cstr_starts_with(const char * s, const char * prefix) {
 
 int embc_cstr_to_u32(const char * src, uint32_t * value) {
     uint32_t v = 0;
+    uint32_t digit;
 
     if ((NULL == src) || (NULL == value)) {
         return 1;
@@ -116,12 +117,19 @@ int embc_cstr_to_u32(const char * src, uint32_t * value) {
             } else {
                 break;
             }
+            if (v > (UINT32_MAX >> 4)) { // does not fit
+                return 1;
+            }
             v = v * 16 + nibble;
             ++src;
         }
     } else {
         while ((*src >= '0') && (*src <= '9')) {
-            v = v * 10 + (*src - '0');
+            digit = (uint32_t) (*src - '0');
+            if (v > ((UINT32_MAX - digit) / 10)) { // does not fit
+                return 1;
+            }
+            v = v * 10 + digit;
             ++src;
         }
     }
-- 
2.43.0


From fd7c49bd63960fcf5849ce415171cc5aaa296261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:35 +0000
Subject: [PATCH 41/76] fix: reject a hex prefix without digits

---
 src/cstr.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cstr.c b/src/cstr.c
index bb59f13..2c47b39 100644
--- a/src/cstr.c
+++ b/src/cstr.c
@@ -106,6 +106,9 @@ int embc_cstr_to_u32(const char * src, uint32_t * value) {
         // hex string
         uint32_t nibble;
         src += 2;
+        if (!*src || _isspace((uint8_t) *src)) { // no digits
+            return 1;
+        }
         while (*src) {
             char c = *src;
             if ((c >= '0') && (c <= '9')) {
-- 
2.43.0


From 9689baa550b85db3355039b4cbea99a2cd348489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:35 +0000
Subject: [PATCH 42/76] fix: reject signed integer strings that do not fit in
 32 bits

---
 src/cstr.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/cstr.c b/src/cstr.c
index 2c47b39..cae61fe 100644
--- a/src/cstr.c
+++ b/src/cstr.c
@@ -168,9 +168,16 @@ int embc_cstr_to_i32(const char * src, int32_t * value) {
     if (rc) {
         return rc;
     }
-    *value = (int32_t) v;
     if (neg) {
-        *value = -*value;
+        if (v > (((uint32_t) INT32_MAX) + 1)) {
+            return 1;
+        }
+        *value = (int32_t) -((int64_t) v);
+    } else {
+        if (v > INT32_MAX) {
+            return 1;
+        }
+        *value = (int32_t) v;
     }
     return 0;
 }
-- 
2.43.0


From 13aa823caff772373be97aa92bc55658a9a8bb24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:35 +0000
Subject: [PATCH 43/76] fix: parse scaled decimals strictly

---
 src/cstr.c | 49 ++++++++++++++++++-------------------------------
 1 file changed, 18 insertions(+), 31 deletions(-)

diff --git a/src/cstr.c b/src/cstr.c
index cae61fe..f5775e0 100644
--- a/src/cstr.c
+++ b/src/cstr.c
@@ -184,11 +184,12 @@ int embc_cstr_to_i32(const char * src, int32_t * value) {
 
 int embc_cstr_to_i32s(const char * src, int32_t exponent, int32_t * value) {
     int32_t v = 0;
-    int32_t decimal = -1;  // still on integer part
+    int32_t decimal = 0;
+    int digits = 0;
     int neg = 0;
 
     if (!src) {
-        return 0;
+        return 1;
     }
     if (exponent < 0) {
         return -1;
@@ -205,44 +206,30 @@ int embc_cstr_to_i32s(const char * src, int32_t exponent, int32_t * value) {
         ++src;
     }
 
-    while (decimal < exponent) {
-        if (*src == '.') {
-            decimal = 0;
-            ++src;
-            continue;
-        }
-        if ((*src == 0) || (*src == ',')) {
-            if (decimal < 0) {
-                break;
-            } else {
-                v *= 10;
-                ++decimal;
-            }
-        } else {
-            if (decimal >= 0) {
+    while ((*src >= '0') && (*src <= '9')) {
+        v = v * 10 + (*src - '0');
+        ++digits;
+        ++src;
+    }
+    if (*src == '.') {
+        ++src;
+        while ((*src >= '0') && (*src <= '9')) {
+            if (decimal < exponent) { // discard extra digits
+                v = v * 10 + (*src - '0');
                 ++decimal;
             }
-            v *= 10;
-            if ((*src >= '0') && (*src <= '9')) {
-                v += *src - '0';
-            } else {
-                return 1;
-            }
+            ++digits;
             ++src;
         }
     }
+    if (!digits) { // not a number
+        return 1;
+    }
 
     while (*src) {
-        if ((*src >= '0') && (*src <= '9')) {
-            // discard extra digits
-        } else if (!_isspace((uint8_t) *src)) { // did not parse full string
+        if (!_isspace((uint8_t) *src++)) { // did not parse full string
             return 1;
         }
-        ++src;
-    }
-
-    if (decimal < 0) {
-        decimal = 0;
     }
     while (decimal < exponent) {
         v *= 10;
-- 
2.43.0


From 363c47ecee4cb3840254bf3c9bb1545e1eb074d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:35 +0000
Subject: [PATCH 44/76] fix: reject scaled decimals that do not fit in 32 bits

---
 src/cstr.c | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/cstr.c b/src/cstr.c
index f5775e0..2d3ade8 100644
--- a/src/cstr.c
+++ b/src/cstr.c
@@ -182,8 +182,16 @@ int embc_cstr_to_i32(const char * src, int32_t * value) {
     return 0;
 }
 
+// Append a decimal digit, saturating just beyond the int32_t range.
+static int64_t append_digit(int64_t v, int digit) {
+    if (v > INT32_MAX) {
+        return ((int64_t) INT32_MAX) + 2;
+    }
+    return v * 10 + digit;
+}
+
 int embc_cstr_to_i32s(const char * src, int32_t exponent, int32_t * value) {
-    int32_t v = 0;
+    int64_t v = 0;
     int32_t decimal = 0;
     int digits = 0;
     int neg = 0;
@@ -207,7 +215,7 @@ int embc_cstr_to_i32s(const char * src, int32_t exponent, int32_t * value) {
     }
 
     while ((*src >= '0') && (*src <= '9')) {
-        v = v * 10 + (*src - '0');
+        v = append_digit(v, *src - '0');
         ++digits;
         ++src;
     }
@@ -215,7 +223,7 @@ int embc_cstr_to_i32s(const char * src, int32_t exponent, int32_t * value) {
         ++src;
         while ((*src >= '0') && (*src <= '9')) {
             if (decimal < exponent) { // discard extra digits
-                v = v * 10 + (*src - '0');
+                v = append_digit(v, *src - '0');
                 ++decimal;
             }
             ++digits;
@@ -232,14 +240,17 @@ int embc_cstr_to_i32s(const char * src, int32_t exponent, int32_t * value) {
         }
     }
     while (decimal < exponent) {
-        v *= 10;
+        v = append_digit(v, 0);
         ++decimal;
     }
     if (neg) {
         v = -v;
     }
+    if ((v > INT32_MAX) || (v < INT32_MIN)) { // does not fit
+        return 1;
+    }
     if (value) {
-        *value = v;
+        *value = (int32_t) v;
     }
     return 0;
 }
-- 
2.43.0


From 60867f3f22d8c7cceb68eb433f5a0410764dec57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:42 +0000
Subject: [PATCH 45/76] fix: check for NULL data before pointer arithmetic in
 embc_crc_ccitt_16

---
 src/crc.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/crc.c b/src/crc.c
index 43da71e..677ba54 100644
--- a/src/crc.c
+++ b/src/crc.c
@@ -45,12 +45,13 @@ uint8_t embc_crc_ccitt_8(uint8_t crc, uint8_t const *data, uint32_t length) {
 }
 
 uint16_t embc_crc_ccitt_16(uint16_t crc, uint8_t const *data, uint32_t length) {
-    uint8_t const * data_end = data + length;
+    uint8_t const * data_end;
 
     if ((0 == length) || (0 == data)) {
         return crc;
     }
 
+    data_end = data + length;
     crc = ~crc;
     while (data < data_end) {
         crc  = (crc >> 8) | (crc << 8);
-- 
2.43.0


From a5fed3d34ac20dfa6937b4b7fb492c003501b0d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:10 +0000
Subject: [PATCH 46/76] fix: initialize the pattern_32a duplicate count

---
 src/pattern_32a.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pattern_32a.c b/src/pattern_32a.c
index 750bf52..389c435 100644
--- a/src/pattern_32a.c
+++ b/src/pattern_32a.c
@@ -118,6 +118,7 @@ void embc_pattern_32a_rx_initialize(
     embc_pattern_32a_tx_initialize(&self->tx);
     self->receive_count = 0;
     self->missing_count = 0;
+    self->duplicate_count = 0;
     self->error_count = 0;
     self->resync_count = 0;
     self->syncword1 = 0;
-- 
2.43.0


From 30a2726a873511b5f9684cdc419c48d2ac3ec920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:11 +0000
Subject: [PATCH 47/76] fix: accumulate the pattern_32a duplicate count

---
 src/pattern_32a.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pattern_32a.c b/src/pattern_32a.c
index 389c435..336134e 100644
--- a/src/pattern_32a.c
+++ b/src/pattern_32a.c
@@ -184,7 +184,7 @@ static bool resync(struct embc_pattern_32a_rx_s * self, uint32_t v1, uint32_t v2
 
     if (delta > (EMBC_PATTERN_32A_PERIOD / 2)) {
         // presume duplicated
-        self->duplicate_count = EMBC_PATTERN_32A_PERIOD - delta - incr;
+        self->duplicate_count += EMBC_PATTERN_32A_PERIOD - delta - incr;
     } else {
         self->missing_count += incr + delta;
     }
-- 
2.43.0


From 0cc3020222cdf71fd628ad3a35bf2dfe2c4c335c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:11 +0000
Subject: [PATCH 48/76] fix: count no missing or duplicate words at the first
 pattern_32a sync

---
 src/pattern_32a.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pattern_32a.c b/src/pattern_32a.c
index 336134e..b043142 100644
--- a/src/pattern_32a.c
+++ b/src/pattern_32a.c
@@ -207,12 +207,11 @@ void embc_pattern_32a_rx_next(
         case ST_UNSYNC2: {
             if (resync(self, self->syncword1, value)) {
                 self->missing_count = 0;
-                self->error_count = 0;
+                self->duplicate_count = 0;
                 self->state = ST_SYNC;
             } else {
                 ++self->error_count;
                 self->syncword1 = value;
-                self->state = ST_WORD2;
             }
             break;
         }
-- 
2.43.0


From 37d1ca0d9b538761138b4430efa3dbd8ed17d4ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:11 +0000
Subject: [PATCH 49/76] fix: resynchronize pattern_32a only to words of the
 pattern

---
 src/pattern_32a.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/pattern_32a.c b/src/pattern_32a.c
index b043142..2863785 100644
--- a/src/pattern_32a.c
+++ b/src/pattern_32a.c
@@ -129,6 +129,10 @@ static bool is_counter_value(uint32_t value) {
     return (((~value) >> 16) == (value & 0xffff));
 }
 
+static bool is_shift_value(uint32_t value) {
+    return (0 == (value & (value - 1)));
+}
+
 static uint8_t shift_position(uint32_t shift) {
     // CLZ instruction would be much faster
     uint8_t position = 0;
@@ -155,6 +159,9 @@ static bool resync(struct embc_pattern_32a_rx_s * self, uint32_t v1, uint32_t v2
     if (v1_is_counter == v2_is_counter) {
         return false;
     }
+    if (!is_shift_value(v1_is_counter ? v2 : v1)) {
+        return false;
+    }
 
     // Since tx state holds next values, sync to before v1
     if (v2_is_counter && !v1_is_counter) { // most recent is counter
-- 
2.43.0


From e3446a097f6572daff51820ad41f8c01740cd391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:41 +0000
Subject: [PATCH 50/76] fix: keep stream source writes within the consumer's
 MTU

---
 src/stream/async_source.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/stream/async_source.c b/src/stream/async_source.c
index 4291c5f..b380e37 100644
--- a/src/stream/async_source.c
+++ b/src/stream/async_source.c
@@ -45,6 +45,7 @@ static void send(struct embc_stream_producer_s * self,
             uint32_t remaining = s->source_length - s->tx_offset;
             uint8_t * buffer;
             if (!sz) {
+                uint16_t mtu = transaction->data.event_write_request_producer_buffer.mtu;
                 if (s->transaction_length) {
                     sz = s->transaction_length;
                     buffer = s->transaction_buffer;
@@ -52,6 +53,9 @@ static void send(struct embc_stream_producer_s * self,
                     sz = sizeof(s->transaction_buffer);
                     buffer = (uint8_t *) &s->transaction_buffer;
                 }
+                if (mtu && (mtu < sz)) {
+                    sz = mtu;
+                }
             } else {
                 buffer = transaction->data.event_write_request_consumer_buffer.ptr;
             }
-- 
2.43.0


From 535076ec3bad673a6ce4361fd73991cc9dc952c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:41 +0000
Subject: [PATCH 51/76] fix: close a stream source exactly once

---
 include/embc/stream/async_source.h |  1 +
 src/stream/async_source.c          | 21 ++++++++++++++-------
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/include/embc/stream/async_source.h b/include/embc/stream/async_source.h
index 256387a..8c6d3e7 100644
--- a/include/embc/stream/async_source.h
+++ b/include/embc/stream/async_source.h
@@ -52,6 +52,7 @@ struct embc_stream_source_s {
     uint32_t source_length;
     uint32_t tx_offset;
     uint32_t rx_offset;
+    uint8_t is_open;
     void (*done_fn)(void * user_data, uint8_t status);
     void * done_user_data;
 };
diff --git a/src/stream/async_source.c b/src/stream/async_source.c
index b380e37..1a69433 100644
--- a/src/stream/async_source.c
+++ b/src/stream/async_source.c
@@ -17,6 +17,11 @@
 #include "embc/stream/async_source.h"
 #include "embc.h"
 
+static void close_stream(struct embc_stream_source_s * s, uint8_t status) {
+    s->is_open = 0;
+    embc_stream_close(s->consumer, 0, status);
+}
+
 static void send(struct embc_stream_producer_s * self,
                  struct embc_stream_transaction_s * transaction) {
     EMBC_DBC_NOT_NULL(self);
@@ -30,15 +35,16 @@ static void send(struct embc_stream_producer_s * self,
             }
             break;
         case EMBC_STREAM_IOCTL_WRITE:
+            if (!s->is_open) {
+                break;
+            }
             s->rx_offset += transaction->length;
             if (s->rx_offset >= s->source_length) {
-                EMBC_STRUCT_PTR_INIT(transaction);
-                transaction->type = EMBC_STREAM_IOCTL_CLOSE;
-                s->consumer->send(s->consumer, transaction);
+                close_stream(s, 0);
             }
             break;
         case EMBC_STREAM_EVENT_WRITE_REQUEST: {
-            if (s->tx_offset >= s->source_length) {
+            if (!s->is_open || (s->tx_offset >= s->source_length)) {
                 break;
             }
             uint16_t sz = transaction->length;
@@ -71,9 +77,9 @@ static void send(struct embc_stream_producer_s * self,
             break;
         }
         case EMBC_STREAM_EVENT_ABORT:
-            transaction->type = EMBC_STREAM_IOCTL_CLOSE;
-            transaction->status = EMBC_ERROR_ABORTED;
-            s->consumer->send(s->consumer, transaction);
+            if (s->is_open) {
+                close_stream(s, EMBC_ERROR_ABORTED);
+            }
             break;
         default:
             break;
@@ -132,6 +138,7 @@ EMBC_API void embc_stream_source_open_ex(
         uint16_t length) {
     self->tx_offset = 0;
     self->rx_offset = 0;
+    self->is_open = 1;
     struct embc_stream_transaction_s transaction;
     EMBC_STRUCT_INIT(transaction);
     transaction.type = EMBC_STREAM_IOCTL_OPEN;
-- 
2.43.0


From 932311969061cc0ae53a73efcda7e416a83e99cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:41 +0000
Subject: [PATCH 52/76] fix: stop the stream source when a write fails

---
 src/stream/async_source.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/stream/async_source.c b/src/stream/async_source.c
index 1a69433..097b99b 100644
--- a/src/stream/async_source.c
+++ b/src/stream/async_source.c
@@ -38,6 +38,10 @@ static void send(struct embc_stream_producer_s * self,
             if (!s->is_open) {
                 break;
             }
+            if (transaction->status) {
+                close_stream(s, transaction->status);
+                break;
+            }
             s->rx_offset += transaction->length;
             if (s->rx_offset >= s->source_length) {
                 close_stream(s, 0);
-- 
2.43.0


From 3c3add985fd2cd03ce37878b23aa1c79391d9131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:41 +0000
Subject: [PATCH 53/76] fix: report stream sink overflow to the producer

---
 src/stream/async_sink.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/stream/async_sink.c b/src/stream/async_sink.c
index eca0940..e0648f3 100644
--- a/src/stream/async_sink.c
+++ b/src/stream/async_sink.c
@@ -70,6 +70,7 @@ static void send(struct embc_stream_consumer_s * self,
             if (s->dst_buffer) {
                 if (s->dst_length < (s->offset + transaction->length)) {
                     EMBC_LOGW("async_sink buffer overflow");
+                    transaction->status = EMBC_ERROR_FULL;
                 } else {
                     embc_memcpy(s->dst_buffer + s->offset,
                            transaction->data.ioctl_write.ptr,
-- 
2.43.0


From a4071a63eaa00cef32d61c54f259b12e72e8aad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:41 +0000
Subject: [PATCH 54/76] fix: respond to NOOP and FLUSH in the stream sink

---
 src/stream/async_sink.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/stream/async_sink.c b/src/stream/async_sink.c
index e0648f3..00549ef 100644
--- a/src/stream/async_sink.c
+++ b/src/stream/async_sink.c
@@ -90,6 +90,13 @@ static void send(struct embc_stream_consumer_s * self,
                 s->producer->send(s->producer, transaction);
             }
             break;
+        case EMBC_STREAM_IOCTL_NOOP:  // intentional fall-through
+        case EMBC_STREAM_IOCTL_FLUSH: // nothing is buffered
+            transaction->status = 0;
+            if (s->producer) {
+                s->producer->send(s->producer, transaction);
+            }
+            break;
         default:
             break;
     }
-- 
2.43.0


From 82534465f88f5df6449dc444c50847f9ecbda766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:41 +0000
Subject: [PATCH 55/76] fix: request no writes for a closed stream sink

---
 src/stream/async_sink.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/stream/async_sink.c b/src/stream/async_sink.c
index 00549ef..34bec74 100644
--- a/src/stream/async_sink.c
+++ b/src/stream/async_sink.c
@@ -78,11 +78,17 @@ static void send(struct embc_stream_consumer_s * self,
                     s->offset += transaction->length;
                 }
             }
+            if (s->mode) {
+                s->mode = 2;
+            }
             s->producer->send(s->producer, transaction);
-            send_write_request(s);
+            if (2 == s->mode) { // still on the same file
+                s->mode = 1;
+                send_write_request(s);
+            }
             break;
         case EMBC_STREAM_IOCTL_CLOSE:
-            s->mode = 1;
+            s->mode = 0;
             if (s->done_fn) {
                 s->done_fn(s->done_user_data, s->dst_buffer, s->offset);
             }
-- 
2.43.0


From 7aa720da495b2e466714d0f688042a75274bce15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:25 +0000
Subject: [PATCH 56/76] fix: do not recurse for every block of a stream

---
 include/embc/stream/async_source.h |  3 +++
 src/stream/async_source.c          | 27 +++++++++++++++++++++++++--
 2 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/include/embc/stream/async_source.h b/include/embc/stream/async_source.h
index 8c6d3e7..f1e236d 100644
--- a/include/embc/stream/async_source.h
+++ b/include/embc/stream/async_source.h
@@ -53,6 +53,9 @@ struct embc_stream_source_s {
     uint32_t tx_offset;
     uint32_t rx_offset;
     uint8_t is_open;
+    uint8_t is_sending;
+    uint8_t is_pending;
+    struct embc_stream_transaction_s pending;
     void (*done_fn)(void * user_data, uint8_t status);
     void * done_user_data;
 };
diff --git a/src/stream/async_source.c b/src/stream/async_source.c
index 097b99b..341c90f 100644
--- a/src/stream/async_source.c
+++ b/src/stream/async_source.c
@@ -22,8 +22,8 @@ static void close_stream(struct embc_stream_source_s * s, uint8_t status) {
     embc_stream_close(s->consumer, 0, status);
 }
 
-static void send(struct embc_stream_producer_s * self,
-                 struct embc_stream_transaction_s * transaction) {
+static void process(struct embc_stream_producer_s * self,
+                    struct embc_stream_transaction_s * transaction) {
     EMBC_DBC_NOT_NULL(self);
     struct embc_stream_source_s * s = EMBC_CONTAINER_OF(self, struct embc_stream_source_s, producer);
     switch (transaction->type) {
@@ -90,6 +90,29 @@ static void send(struct embc_stream_producer_s * self,
     }
 }
 
+static void send(struct embc_stream_producer_s * self,
+                 struct embc_stream_transaction_s * transaction) {
+    EMBC_DBC_NOT_NULL(self);
+    struct embc_stream_source_s * s = EMBC_CONTAINER_OF(self, struct embc_stream_source_s, producer);
+    if (transaction->type != EMBC_STREAM_EVENT_WRITE_REQUEST) {
+        process(self, transaction);
+    } else if (!s->is_sending) {
+        s->is_sending = 1;
+        process(self, transaction);
+        while (s->is_pending) {
+            struct embc_stream_transaction_s pending = s->pending;
+            s->is_pending = 0;
+            process(self, &pending);
+        }
+        s->is_sending = 0;
+    } else if (!s->is_pending) { // immediate callback: continue once the consumer returns
+        s->pending = *transaction;
+        s->is_pending = 1;
+    } else {
+        process(self, transaction);
+    }
+}
+
 void embc_stream_source_initialize(
         struct embc_stream_source_s * self,
         uint8_t * transaction_buffer,
-- 
2.43.0


From ab08e5e8892909ecfaba22f7bfc434efd89d1182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:45 +0000
Subject: [PATCH 57/76] fix: convert times without overflowing the 64-bit
 intermediate

---
 include/embc/time.h | 37 ++++++++++++++++++++++++++++++-------
 1 file changed, 30 insertions(+), 7 deletions(-)

diff --git a/include/embc/time.h b/include/embc/time.h
index 9116a7b..aa36482 100644
--- a/include/embc/time.h
+++ b/include/embc/time.h
@@ -174,6 +174,31 @@ EMBC_CPP_GUARD_START
 
 #define _EMBC_TIME_SIGNUM(x) ((0 < (x) ) - ((x) < 0))
 
+/**
+ * @brief Convert to counter ticks without overflowing the intermediate value.
+ *
+ * @param x The 64-bit signed fixed point time.
+ * @param z The counter frequency in Hz, up to 2**32.
+ * @param offset The offset, in 2**-30 ticks, to add before rounding down.
+ * @return The 64-bit time in counter ticks.
+ */
+static inline int64_t _embc_time_to_counter(int64_t x, int64_t z, int64_t offset) {
+    int64_t fract = x & (EMBC_TIME_SECOND - 1);
+    int64_t seconds = (x - fract) / EMBC_TIME_SECOND;
+    return seconds * z + ((fract * z + offset) >> EMBC_TIME_Q);
+}
+
+/**
+ * @brief Convert from counter ticks without overflowing the intermediate value.
+ *
+ * @param x The counter value in ticks.
+ * @param z The counter frequency in Hz, up to 2**32.
+ * @return The 64-bit signed fixed point time.
+ */
+static inline int64_t _embc_counter_to_time(int64_t x, int64_t z) {
+    return (x / z) * EMBC_TIME_SECOND + ((x % z) * EMBC_TIME_SECOND) / z;
+}
+
 /**
  * @brief Convert to counter ticks, rounded to nearest.
  *
@@ -182,9 +207,7 @@ EMBC_CPP_GUARD_START
  * @return The 64-bit time in counter ticks.
  */
 #define EMBC_TIME_TO_COUNTER(x, z) \
-    (( ((int64_t) (x)) * z + \
-       _EMBC_TIME_SIGNUM(z) * EMBC_TIME_SECOND / 2) \
-     >> EMBC_TIME_Q)
+    _embc_time_to_counter((x), (z), _EMBC_TIME_SIGNUM(z) * EMBC_TIME_SECOND / 2)
 
 /**
  * @brief Convert to counter ticks, rounded up.
@@ -193,7 +216,7 @@ EMBC_CPP_GUARD_START
  * @param z The counter frequency in Hz.
  * @return The 64-bit time in counter ticks.
  */
-#define EMBC_TIME_TO_COUNTER_ROUND_UP(x, z) ((((int64_t) (x)) * z + EMBC_TIME_SECOND - 1) >> EMBC_TIME_Q)
+#define EMBC_TIME_TO_COUNTER_ROUND_UP(x, z) _embc_time_to_counter((x), (z), EMBC_TIME_SECOND - 1)
 
 /**
  * @brief Convert to counter ticks, rounded down
@@ -202,7 +225,7 @@ EMBC_CPP_GUARD_START
  * @param z The counter frequency in Hz.
  * @return The 64-bit time in counter ticks.
  */
-#define EMBC_TIME_TO_COUNTER_ROUND_DOWN(x, z) ((((int64_t) (x)) * z) >> EMBC_TIME_Q)
+#define EMBC_TIME_TO_COUNTER_ROUND_DOWN(x, z) _embc_time_to_counter((x), (z), 0)
 
 /**
  * @brief Convert to 32-bit unsigned seconds.
@@ -243,7 +266,7 @@ EMBC_CPP_GUARD_START
  * @param z The counter frequency in Hz.
  * @return The 64-bit signed fixed point time.
  */
-#define EMBC_COUNTER_TO_TIME(x, z) ((((int64_t) (x)) << EMBC_TIME_Q) / ((int64_t) (z)))
+#define EMBC_COUNTER_TO_TIME(x, z) _embc_counter_to_time((x), (z))
 
 /**
  * @brief Convert to 64-bit signed fixed point time.
@@ -251,7 +274,7 @@ EMBC_CPP_GUARD_START
  * @param x he 32-bit unsigned time in seconds.
  * @return The 64-bit signed fixed point time.
  */
-#define EMBC_SECONDS_TO_TIME(x) (((int64_t) (x)) << EMBC_TIME_Q)
+#define EMBC_SECONDS_TO_TIME(x) (((int64_t) (x)) * EMBC_TIME_SECOND)
 
 /**
  * @brief Convert to 64-bit signed fixed point time.
-- 
2.43.0


From 8b74c93babd25cb6d24ab7323f4fbf9575a4b5be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:45 +0000
Subject: [PATCH 58/76] fix: make EMBC_BBUF_DECODE_U8 usable in expressions

---
 include/embc/bbuf.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/embc/bbuf.h b/include/embc/bbuf.h
index 97ebaed..e8c9ac0 100644
--- a/include/embc/bbuf.h
+++ b/include/embc/bbuf.h
@@ -136,7 +136,7 @@ EMBC_CPP_GUARD_START
  * @param[in] buffer The pointer to the buffer.
  * @return The value decoded from the buffer.
  */
-#define EMBC_BBUF_DECODE_U8(buffer) (buffer)[0];
+#define EMBC_BBUF_DECODE_U8(buffer) ((buffer)[0])
 
 /**
  * @brief Decode a uint16 from the buffer in big-endian order.
-- 
2.43.0


From f7df60c25021d84f81260bec3a26387f44c7c229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:45 +0000
Subject: [PATCH 59/76] fix: parenthesise the buffer argument of the wide
 decode macros

---
 include/embc/bbuf.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/embc/bbuf.h b/include/embc/bbuf.h
index e8c9ac0..7c91464 100644
--- a/include/embc/bbuf.h
+++ b/include/embc/bbuf.h
@@ -166,7 +166,7 @@ EMBC_CPP_GUARD_START
  */
 #define EMBC_BBUF_DECODE_U32_BE(buffer) ( \
         (((uint32_t) EMBC_BBUF_DECODE_U16_BE(buffer)) << 16) | \
-        ((uint32_t) EMBC_BBUF_DECODE_U16_BE(buffer + 2)) )
+        ((uint32_t) EMBC_BBUF_DECODE_U16_BE((buffer) + 2)) )
 
 /**
  * @brief Decode a uint32 from the buffer in little-endian order.
@@ -176,7 +176,7 @@ EMBC_CPP_GUARD_START
  */
 #define EMBC_BBUF_DECODE_U32_LE(buffer) ( \
         ((uint32_t) EMBC_BBUF_DECODE_U16_LE(buffer)) | \
-        (((uint32_t) EMBC_BBUF_DECODE_U16_LE(buffer + 2)) << 16) )
+        (((uint32_t) EMBC_BBUF_DECODE_U16_LE((buffer) + 2)) << 16) )
 
 /**
  * @brief Decode a uint64 from the buffer in big-endian order.
@@ -186,7 +186,7 @@ EMBC_CPP_GUARD_START
  */
 #define EMBC_BBUF_DECODE_U64_BE(buffer) ( \
         (((uint64_t) EMBC_BBUF_DECODE_U32_BE(buffer)) << 32) | \
-        ((uint64_t) EMBC_BBUF_DECODE_U32_BE(buffer + 4)) )
+        ((uint64_t) EMBC_BBUF_DECODE_U32_BE((buffer) + 4)) )
 
 /**
  * @brief Decode a uint64 from the buffer in little-endian order.
@@ -196,7 +196,7 @@ EMBC_CPP_GUARD_START
  */
 #define EMBC_BBUF_DECODE_U64_LE(buffer) ( \
         ((uint64_t) EMBC_BBUF_DECODE_U32_LE(buffer)) | \
-        (((uint64_t) EMBC_BBUF_DECODE_U32_LE(buffer + 4)) << 32) )
+        (((uint64_t) EMBC_BBUF_DECODE_U32_LE((buffer) + 4)) << 32) )
 
 
 /** @} */
-- 
2.43.0


From 1bbbfa81c5fc36af4eb2735e2b831d3c908ce55e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:45 +0000
Subject: [PATCH 60/76] fix: add the missing commas in the log level names

---
 src/log.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/log.c b/src/log.c
index b55a655..8e87177 100644
--- a/src/log.c
+++ b/src/log.c
@@ -24,10 +24,10 @@ char const * const embc_log_level_str[EMBC_LOG_LEVEL_ALL + 1] = {
         "CRITICAL",
         "ERROR",
         "WARN",
-        "NOTICE"
+        "NOTICE",
         "INFO",
         "DEBUG",
-        "DEBUG2"
+        "DEBUG2",
         "DEBUG3",
         "ALL"
 };
-- 
2.43.0


From 2bed0d080edcac13b9d6d59dd633f4435596392c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:45 +0000
Subject: [PATCH 61/76] fix: EMBC_LOG_ALERT did not compile

---
 include/embc/log.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/embc/log.h b/include/embc/log.h
index 5edb386..b0642ae 100644
--- a/include/embc/log.h
+++ b/include/embc/log.h
@@ -239,7 +239,7 @@ extern char const embc_log_level_char[EMBC_LOG_LEVEL_ALL + 1];
 /** Log a emergency using printf-style arguments. */
 #define EMBC_LOG_EMERGENCY(...)  _EMBC_LOG_DISPATCH(EMBC_LOG_LEVEL_EMERGENCY, __VA_ARGS__)
 /** Log a alert using printf-style arguments. */
-#define EMBC_LOG_ALERT(...)  _EMBC_LOG_DISPATCH(EMBC_LOG_LEVEL_ALERT, format, __VA_ARGS__)
+#define EMBC_LOG_ALERT(...)  _EMBC_LOG_DISPATCH(EMBC_LOG_LEVEL_ALERT, __VA_ARGS__)
 /** Log a critical failure using printf-style arguments. */
 #define EMBC_LOG_CRITICAL(...)  _EMBC_LOG_DISPATCH(EMBC_LOG_LEVEL_CRITICAL, __VA_ARGS__)
 /** Log an error using printf-style arguments. */
-- 
2.43.0


From 5a09d5aaa938cb30332f49608bbc2fafb81a32db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:29 +0000
Subject: [PATCH 62/76] fix: negate in unsigned arithmetic when formatting the
 most negative integer

---
 third-party/tinyprintf/tinyprintf.c | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/third-party/tinyprintf/tinyprintf.c b/third-party/tinyprintf/tinyprintf.c
index dfb62f7..5ece73f 100644
--- a/third-party/tinyprintf/tinyprintf.c
+++ b/third-party/tinyprintf/tinyprintf.c
@@ -104,11 +104,12 @@ static void _TFP_GCC_NO_INLINE_ ulli2a(
 
 static void lli2a(long long int num, struct param *p)
 {
+    unsigned long long int mag = num;
     if (num < 0) {
-        num = -num;
+        mag = -mag;
         p->sign = '-';
     }
-    ulli2a(num, p);
+    ulli2a(mag, p);
 }
 #endif
 
@@ -134,11 +135,12 @@ static void uli2a(unsigned long int num, struct param *p)
 
 static void li2a(long num, struct param *p)
 {
+    unsigned long mag = num;
     if (num < 0) {
-        num = -num;
+        mag = -mag;
         p->sign = '-';
     }
-    uli2a(num, p);
+    uli2a(mag, p);
 }
 #endif
 
@@ -163,11 +165,12 @@ static void ui2a(unsigned int num, struct param *p)
 
 static void i2a(int num, struct param *p)
 {
+    unsigned int mag = num;
     if (num < 0) {
-        num = -num;
+        mag = -mag;
         p->sign = '-';
     }
-    ui2a(num, p);
+    ui2a(mag, p);
 }
 
 static int a2d(char ch)
-- 
2.43.0


From 74167d100b40bb5b2300e68c1aa34f42a0ba4fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:29 +0000
Subject: [PATCH 63/76] fix: left alignment overrides zero padding

---
 third-party/tinyprintf/tinyprintf.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/third-party/tinyprintf/tinyprintf.c b/third-party/tinyprintf/tinyprintf.c
index 5ece73f..8128a86 100644
--- a/third-party/tinyprintf/tinyprintf.c
+++ b/third-party/tinyprintf/tinyprintf.c
@@ -296,6 +296,10 @@ void tfp_format(void *putp, putcf putf, const char *fmt, va_list va)
                 break;
             }
 
+            if (p.align_left) {
+                p.lz = 0;  /* '-' overrides '0' */
+            }
+
             /* Width */
             if (ch >= '0' && ch <= '9') {
                 ch = a2u(ch, &fmt, 10, &(p.width));
-- 
2.43.0


From d8e4fa40b54b2a87e44cb80bf88bfb70919f0138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:29 +0000
Subject: [PATCH 64/76] fix: format long octal values and alternate-form zero
 like C

---
 third-party/tinyprintf/tinyprintf.c | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/third-party/tinyprintf/tinyprintf.c b/third-party/tinyprintf/tinyprintf.c
index 8128a86..7e843dd 100644
--- a/third-party/tinyprintf/tinyprintf.c
+++ b/third-party/tinyprintf/tinyprintf.c
@@ -409,11 +409,25 @@ void tfp_format(void *putp, putcf putf, const char *fmt, va_list va)
                 else
 #endif
                     ui2a(va_arg(va, unsigned int), &p);
+                if (ch != 'p' && bf[0] == '0')
+                    p.alt = 0;  /* no prefix for zero */
                 putchw(putp, putf, &p);
                 break;
             case 'o':
                 p.base = 8;
-                ui2a(va_arg(va, unsigned int), &p);
+#ifdef PRINTF_LONG_SUPPORT
+#ifdef PRINTF_LONG_LONG_SUPPORT
+                if (2 == lng)
+                    ulli2a(va_arg(va, unsigned long long int), &p);
+                else
+#endif
+                  if (1 == lng)
+                    uli2a(va_arg(va, unsigned long int), &p);
+                else
+#endif
+                    ui2a(va_arg(va, unsigned int), &p);
+                if (bf[0] == '0')
+                    p.alt = 0;  /* no prefix for zero */
                 putchw(putp, putf, &p);
                 break;
             case 'c':
-- 
2.43.0


From 1e4fcb0ede0f9d5476b502dd9350de7216d006b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:29 +0000
Subject: [PATCH 65/76] fix: vsnprintf with size 0 returns the length that was
 needed

---
 third-party/tinyprintf/tinyprintf.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/third-party/tinyprintf/tinyprintf.c b/third-party/tinyprintf/tinyprintf.c
index 7e843dd..784b165 100644
--- a/third-party/tinyprintf/tinyprintf.c
+++ b/third-party/tinyprintf/tinyprintf.c
@@ -487,15 +487,14 @@ int tfp_vsnprintf(char *str, size_t size, const char *format, va_list ap)
 {
   struct _vsnprintf_putcf_data data;
 
-  if (size < 1)
-    return 0;
-
   data.dest = str;
-  data.dest_capacity = size-1;
+  data.dest_capacity = (size > 0) ? size-1 : 0;
   data.num_chars = 0;
   tfp_format(&data, _vsnprintf_putcf, format, ap);
 
-  if (data.num_chars < data.dest_capacity)
+  if (size < 1)
+    ;  /* nothing to terminate */
+  else if (data.num_chars < data.dest_capacity)
     data.dest[data.num_chars] = '\0';
   else
     data.dest[data.dest_capacity] = '\0';
-- 
2.43.0


From 9f80329b5324934dd61a78fa85b88f3bd45dd3e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:27 +0000
Subject: [PATCH 66/76] fix: parenthesise the arguments of
 EMBC_ROUND_UP_TO_MULTIPLE and EMBC_CONTAINER_OF

---
 include/embc/cdef.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/embc/cdef.h b/include/embc/cdef.h
index af10b83..32b82da 100644
--- a/include/embc/cdef.h
+++ b/include/embc/cdef.h
@@ -179,7 +179,7 @@
  * WARNING: The values for x and m MUST NOT have any side effects
  * as the parameters occur multiple times in the macro!
  */
-#define EMBC_ROUND_UP_TO_MULTIPLE(x, m) (( ((x) + ( EMBC_SIGNUM(x) * (m - 1) )) / m) * m)
+#define EMBC_ROUND_UP_TO_MULTIPLE(x, m) (( ((x) + ( EMBC_SIGNUM(x) * ((m) - 1) )) / (m)) * (m))
 
 /**
  * @brief Find the container instance given a member pointer.
@@ -190,7 +190,7 @@
  * @return The pointer to the container.
  */
 #define EMBC_CONTAINER_OF(ptr, type, member) \
-    ( (type *) ((char *) ptr - offsetof(type, member)) )
+    ( (type *) ((char *) (ptr) - offsetof(type, member)) )
 
 
 #ifdef __cplusplus
-- 
2.43.0


From 2dbc6370eca8d73d0f4f1ed5f28a5df078efb3f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:53 +0000
Subject: [PATCH 67/76] fix: parenthesise the arguments of the log level checks

---
 include/embc/log.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/embc/log.h b/include/embc/log.h
index b0642ae..901e0b1 100644
--- a/include/embc/log.h
+++ b/include/embc/log.h
@@ -201,7 +201,7 @@ extern char const embc_log_level_char[EMBC_LOG_LEVEL_ALL + 1];
  * @param level The level to query.
  * @return True if logging at level is permitted.
  */
-#define EMBC_LOG_CHECK_STATIC(level) ((level <= EMBC_LOG_GLOBAL_LEVEL) && (level <= EMBC_LOG_LEVEL) && (level >= 0))
+#define EMBC_LOG_CHECK_STATIC(level) (((level) <= EMBC_LOG_GLOBAL_LEVEL) && ((level) <= EMBC_LOG_LEVEL) && ((level) >= 0))
 
 /**
  * @brief Check a log level against a configured level.
@@ -210,7 +210,7 @@ extern char const embc_log_level_char[EMBC_LOG_LEVEL_ALL + 1];
  * @param cfg_level The configured logging level.
  * @return True if level is permitted given cfg_level.
  */
-#define EMBC_LOG_LEVEL_CHECK(level, cfg_level) (level <= cfg_level)
+#define EMBC_LOG_LEVEL_CHECK(level, cfg_level) ((level) <= (cfg_level))
 
 /*!
  * \brief Macro to log a printf-compatible formatted string.
-- 
2.43.0


From 9a90b62fb7cbea548974c33b55fe8a51dd0b9f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:48 +0000
Subject: [PATCH 68/76] fix: Python buffer bindings follow the C buffer API

---
 py/embc/memory/buffer.py | 41 ++++++++++++++++++++++++++++++----------
 1 file changed, 31 insertions(+), 10 deletions(-)

diff --git a/py/embc/memory/buffer.py b/py/embc/memory/buffer.py
index 668f8df..55f8299 100644
--- a/py/embc/memory/buffer.py
+++ b/py/embc/memory/buffer.py
@@ -2,13 +2,18 @@
 
 import os
 import ctypes
-from ctypes import cdll, Structure, POINTER, pointer, cast, \
+from ctypes import cdll, Structure, POINTER, pointer, cast, CFUNCTYPE, \
     c_uint64, c_uint32, c_uint16, c_uint8, c_void_p, c_size_t, c_char_p
 from ctypes.wintypes import DWORD, HANDLE, BOOL, LPVOID, LPWSTR
 from embc.lib import dll as _dll
+from embc import lib as embc_lib
 from ..collections.list import embc_list_s
 
 
+class embc_buffer_manager_s(Structure):
+    pass
+
+
 class embc_buffer_s(Structure):
     _fields_ = [
         ('data', POINTER(c_uint8)),
@@ -17,6 +22,8 @@ class embc_buffer_s(Structure):
         ('length', c_uint16),
         ('reserve', c_uint16),
         ('buffer_id', c_uint16),
+        ('flags', c_uint16),
+        ('manager', POINTER(embc_buffer_manager_s)),
         ('item', embc_list_s),
     ]
 
@@ -58,15 +65,26 @@ class embc_buffer_s(Structure):
 
 
 
-# struct embc_buffer_allocator_s * embc_buffer_initialize(embc_size_t const * sizes, embc_size_t length);
-initialize = _dll.embc_buffer_initialize
+# void (*free)(struct embc_buffer_manager_s const * self, struct embc_buffer_s * buffer);
+BUFFER_FREE_FN = CFUNCTYPE(None, POINTER(embc_buffer_manager_s), POINTER(embc_buffer_s))
+embc_buffer_manager_s._fields_ = [('free', BUFFER_FREE_FN)]
+
+
+# struct embc_buffer_allocator_s * embc_buffer_allocator_new(embc_size_t const * sizes, embc_size_t length);
+initialize = _dll.embc_buffer_allocator_new
 initialize.restype = c_void_p
 initialize.argtypes = [POINTER(c_size_t), c_size_t]
 
-# void embc_buffer_finalize(struct embc_buffer_allocator_s * self);
-finalize = _dll.embc_buffer_finalize
-finalize.restype = None
-finalize.argtypes = [c_void_p]
+# void embc_buffer_allocator_finalize(struct embc_buffer_allocator_s * self);
+_finalize = _dll.embc_buffer_allocator_finalize
+_finalize.restype = None
+_finalize.argtypes = [c_void_p]
+
+
+def finalize(allocator):
+    """Finalize the allocator from initialize() and release its memory."""
+    _finalize(allocator)
+    embc_lib.free(allocator)
 
 # struct embc_buffer_s * embc_buffer_alloc(struct embc_buffer_allocator_s * self, embc_size_t size);
 alloc = _dll.embc_buffer_alloc
@@ -74,9 +92,12 @@ alloc.restype = POINTER(embc_buffer_s)
 alloc.argtypes = [c_void_p, c_size_t]
 
 # void embc_buffer_free(struct embc_buffer_s * buffer);
-free = _dll.embc_buffer_free
-free.restype = None
-free.argtypes = [POINTER(embc_buffer_s)]
+# An inline C function, so it is not available from the library.
+def free(buffer):
+    if isinstance(buffer, embc_buffer_s):
+        buffer = pointer(buffer)
+    manager = buffer.contents.manager
+    manager.contents.free(manager, buffer)
 
 # void embc_buffer_write(struct embc_buffer_s * buffer,
 #                        void const * data,
-- 
2.43.0


From efefb7d5f26c87ee7d8b177d9764c173dda60381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:49 +0000
Subject: [PATCH 69/76] fix: Python list.new returns the list

---
 py/embc/collections/list.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/py/embc/collections/list.py b/py/embc/collections/list.py
index 6c72462..a25b577 100644
--- a/py/embc/collections/list.py
+++ b/py/embc/collections/list.py
@@ -20,3 +20,4 @@ def reset(i):
 def new():
     i = embc_list_s()
     reset(i)
+    return i
-- 
2.43.0


From 22ebd5ca666e7e239ec26ff19356160d53bd45e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:49 +0000
Subject: [PATCH 70/76] fix: Python write_str_truncate returns whether it
 truncated

---
 py/embc/memory/buffer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py/embc/memory/buffer.py b/py/embc/memory/buffer.py
index 55f8299..e7d836c 100644
--- a/py/embc/memory/buffer.py
+++ b/py/embc/memory/buffer.py
@@ -3,7 +3,7 @@
 import os
 import ctypes
 from ctypes import cdll, Structure, POINTER, pointer, cast, CFUNCTYPE, \
-    c_uint64, c_uint32, c_uint16, c_uint8, c_void_p, c_size_t, c_char_p
+    c_uint64, c_uint32, c_uint16, c_uint8, c_void_p, c_size_t, c_char_p, c_bool
 from ctypes.wintypes import DWORD, HANDLE, BOOL, LPVOID, LPWSTR
 from embc.lib import dll as _dll
 from embc import lib as embc_lib
@@ -123,7 +123,7 @@ write_str.argtypes = [POINTER(embc_buffer_s), c_char_p]
 # bool embc_buffer_write_str_truncate(struct embc_buffer_s * buffer,
 #                                     char const * str);
 write_str_truncate = _dll.embc_buffer_write_str_truncate
-write_str_truncate.restype = None
+write_str_truncate.restype = c_bool
 write_str_truncate.argtypes = [POINTER(embc_buffer_s), c_char_p]
 
 # void embc_buffer_write_u8(struct embc_buffer_s * buffer, uint8_t value);
-- 
2.43.0


From 2c1d2ef362ca7cd9e4ec0003533acced08beb133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:49 +0000
Subject: [PATCH 71/76] fix: Python Framer.send refuses payloads longer than a
 frame

---
 py/embc/stream/framer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/py/embc/stream/framer.py b/py/embc/stream/framer.py
index 1587805..f230eb3 100644
--- a/py/embc/stream/framer.py
+++ b/py/embc/stream/framer.py
@@ -19,6 +19,7 @@ embc_buffer_s = embc_buffer.embc_buffer_s
 RX_FN = CFUNCTYPE(None, c_void_p, c_uint8, c_uint8, c_uint16, POINTER(embc_buffer_s))
 TX_DONE_FN = CFUNCTYPE(None, c_void_p, c_uint8, c_uint8, c_uint16, c_int32)
 MAX_RETRIES = 16
+PAYLOAD_MAX_SIZE = 240
 TIMER_ID = 42
 
 
@@ -268,6 +269,8 @@ class Framer:
 
     def send(self, port, message_id, port_def, payload):
         payload_len = len(payload)
+        if payload_len > PAYLOAD_MAX_SIZE:
+            raise ValueError('payload too long: %d > %d' % (payload_len, PAYLOAD_MAX_SIZE))
         msg_char = ctypes.create_string_buffer(payload)
         msg = cast(msg_char, POINTER(c_uint8))
         send_payload(self.framer, port, message_id, port_def, msg, payload_len)
-- 
2.43.0


From ec40c6142cbe2f29328888b8dd99b35c26bee6e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:49 +0000
Subject: [PATCH 72/76] fix: buffer_log_check parses the log lines the library
 writes

---
 py/bin/buffer_log_check.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/py/bin/buffer_log_check.py b/py/bin/buffer_log_check.py
index 474d4ef..8814d2d 100644
--- a/py/bin/buffer_log_check.py
+++ b/py/bin/buffer_log_check.py
@@ -6,6 +6,7 @@ Check the log files for buffer alloc/free pairs.
 """
 
 import argparse
+import re
 import sys
 
 
@@ -28,8 +29,8 @@ class Alloc:
         return '%s: alloc on line %s, free on line %s' % (self.ptr, self.alloc_line, self.free_line)
 
 
-ALLOC = 'embc_buffer_alloc'
-FREE = 'embc_buffer_free'
+ALLOC = re.compile(r'embc_buffer_alloc(?:_unsafe)? (\w+)')  # no match for "(nil)": failed
+FREE = re.compile(r'embc_buffer_free_\(\w+, (\w+)\)')
 
 
 def run():
@@ -39,9 +40,9 @@ def run():
     line_num = 0
     for line in args.logfile:
         line_num += 1
-        alloc_idx = line.find(ALLOC)
-        if alloc_idx >= 0:
-            ptr = line[alloc_idx + len(ALLOC) + 1:-1]
+        alloc = ALLOC.search(line)
+        if alloc:
+            ptr = alloc.group(1)
             b = buffers.get(ptr)
             if b is not None:
                 print('line %d: alloc without free: %s' % (line_num, b))
@@ -49,9 +50,9 @@ def run():
             buffers[ptr] = b
             ptr_history[ptr] = b
             continue
-        free_idx = line.find(FREE)
-        if free_idx >= 0:
-            ptr = line[free_idx + len(FREE) + 1:-1]
+        free = FREE.search(line)
+        if free:
+            ptr = free.group(1)
             b = buffers.get(ptr)
             if b is None:
                 b = ptr_history.get(ptr)
-- 
2.43.0


From 0d4d25a14abbc11be4069f2e64737284bd8b73e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:00 +0000
Subject: [PATCH 73/76] fix: framer_qual counts only unanswered pings as
 missing

---
 py/bin/framer_qual.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/py/bin/framer_qual.py b/py/bin/framer_qual.py
index 7159439..40747f1 100644
--- a/py/bin/framer_qual.py
+++ b/py/bin/framer_qual.py
@@ -183,10 +183,13 @@ class PingQueue:
     def _ping_rx_resync(self, message_id, data):
         for idx in range(len(self._queue)):
             msg = self._queue[idx]
+            if msg.response_received:  # only waiting for tx_done
+                continue
             if msg.message_id == message_id and msg.payload == data:
                 log.info('resync message_id=%d to index %d', message_id, idx)
-                self._frames_missing += idx
-                del self._queue[:idx]
+                answered = [m for m in self._queue[:idx] if m.response_received]
+                self._frames_missing += idx - len(answered)
+                self._queue[:idx] = answered
                 return msg
         log.warning('rx resync failed message_id=%d (frame from previous ping session?)',
                     message_id)
@@ -196,7 +199,8 @@ class PingQueue:
         if 0 == self._rx_pending_count(): # error
             log.warning("rx ping response %d, but not expected" % message_id)
             return
-        msg = self._queue[0]
+        # in case of lost ACK frames, answered frames can still be waiting for tx_done
+        msg = [m for m in self._queue if not m.response_received][0]
         if msg.message_id != message_id:
             log.debug('rx ping response message_id mismatch: expected %d != received %d',
                       msg.message_id, message_id)
-- 
2.43.0


From eb90414f519320a31fe2ed9941b61239c5941dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:25 +0000
Subject: [PATCH 74/76] fix: keep the outstanding frames within the frame id
 window

---
 src/stream/framer.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/stream/framer.c b/src/stream/framer.c
index 5786213..967aa88 100644
--- a/src/stream/framer.c
+++ b/src/stream/framer.c
@@ -638,6 +638,12 @@ static void transmit_queued(struct embc_framer_s * self) {
             // resync discards it again: never outstanding with other frames.
             break;
         }
+        if (head && (((buffer_hdr(b)->frame_id - buffer_hdr(head->b)->frame_id) & EMBC_FRAMER_ID_MASK)
+                >= EMBC_FRAMER_OUTSTANDING_FRAMES_MAX)) {
+            // Frames after the first may already have failed.  The receiver
+            // only recognizes the first while it is this close to the last.
+            break;
+        }
         embc_list_remove(item);
         item = embc_list_remove_head(&self->tx_buffers_free);
         struct tx_buf_s * t = embc_list_entry(item, struct tx_buf_s, item);
-- 
2.43.0


From 31cdcc95ac04263e317c5b4abbfe42b07d059d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:24 +0000
Subject: [PATCH 75/76] fix: ignore acknowledgements that name another message

---
 src/stream/framer.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/stream/framer.c b/src/stream/framer.c
index 967aa88..97ed48f 100644
--- a/src/stream/framer.c
+++ b/src/stream/framer.c
@@ -657,6 +657,14 @@ static void transmit_queued(struct embc_framer_s * self) {
 static void tx_confirmed(struct embc_framer_s * self, struct embc_framer_header_s *ack_hdr) {
     uint8_t frame_id = hdr_frame_id(ack_hdr);
     struct tx_buf_s * t_match = find_tx(self, frame_id);
+    if (t_match) {
+        struct embc_framer_header_s * t_hdr = buffer_hdr(t_match->b);
+        if ((t_hdr->port != ack_hdr->port) ||
+                // the application only assigns message ids on its own ports
+                (t_hdr->port && (t_hdr->message_id != ack_hdr->message_id))) {
+            t_match = 0;  // for an earlier frame with the same id
+        }
+    }
     if (0 == t_match) {
         EMBC_LOGW("ack unknown_frame_id=0x%02x", (int) frame_id);
     } else {
-- 
2.43.0


From de8dd330118ba7c94fbfe3cd120639d83db3e17d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:31 +0000
Subject: [PATCH 76/76] fix: find completed transmit frames during resync

---
 src/stream/framer.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/stream/framer.c b/src/stream/framer.c
index 97ed48f..f22a2b9 100644
--- a/src/stream/framer.c
+++ b/src/stream/framer.c
@@ -991,15 +991,15 @@ void embc_framer_hal_tx_done(
         struct embc_buffer_s * buffer) {
     EMBC_DBC_NOT_NULL(self);
     EMBC_DBC_NOT_NULL(buffer);
-    struct embc_list_s * item;
     struct embc_framer_header_s * hdr = buffer_hdr(buffer);
     if (EMBC_FRAMER_TYPE_ACK == (hdr->frame_id & EMBC_FRAMER_TYPE_MASK)) {
         EMBC_LOGD3("embc_framer_hal_tx_done ack %d %p", hdr->frame_id, (void *) buffer);
         embc_buffer_free(buffer);
     } else {
         EMBC_LOGD3("embc_framer_hal_tx_done data %d %p", hdr->frame_id, (void *) buffer);
-        embc_list_foreach(&self->tx_buffers_active, item) {
-            struct tx_buf_s *t = embc_list_entry(item, struct tx_buf_s, item);
+        // not all are in the active list when called from within tx_done_fn
+        for (embc_size_t i = 0; i < EMBC_ARRAY_SIZE(self->tx_buffers); ++i) {
+            struct tx_buf_s *t = &self->tx_buffers[i];
             if (t->b == buffer) {
                 t->hal_owned = false;
                 if (TX_STATUS_TRANSMITTING == t->status) {
-- 
2.43.0

