From 1fbbb6615b40062ea291641e2d4a40cf2f326538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:11 +0000
Subject: [PATCH 01/21] fix: keep the frame task ring in order when draining is
 interrupted

drain_picture() skips empty output slots by advancing frame_thread.next
without task_thread.first, and submitting into an empty slot does not
advance first either. When the caller takes some pictures with
dav1d_get_picture() and then sends more data, first no longer is the
oldest frame: tasks of a newer frame are then considered to come before
those they depend on, resets of the task cursor do not reach them, and
all threads end up waiting. Always advance first together with next.
---
 src/decode.c | 20 +++++++++-----------
 src/lib.c    | 18 +++++++++---------
 src/obu.c    | 20 +++++++++-----------
 3 files changed, 27 insertions(+), 31 deletions(-)

diff --git a/src/decode.c b/src/decode.c
index a3b1b9c..d4c410a 100644
--- a/src/decode.c
+++ b/src/decode.c
@@ -3343,17 +3343,15 @@ int dav1d_submit_frame(Dav1dContext *const c) {
             pthread_cond_wait(&f->task_thread.cond,
                               &c->task_thread.lock);
         out_delayed = &c->frame_thread.out_delayed[next];
-        if (out_delayed->p.data[0] || atomic_load(&f->task_thread.error)) {
-            unsigned first = atomic_load(&c->task_thread.first);
-            if (first + 1U < c->n_fc)
-                atomic_fetch_add(&c->task_thread.first, 1U);
-            else
-                atomic_store(&c->task_thread.first, 0);
-            atomic_compare_exchange_strong(&c->task_thread.reset_task_cur,
-                                           &first, UINT_MAX);
-            if (c->task_thread.cur && c->task_thread.cur < c->n_fc)
-                c->task_thread.cur--;
-        }
+        unsigned first = atomic_load(&c->task_thread.first);
+        if (first + 1U < c->n_fc)
+            atomic_fetch_add(&c->task_thread.first, 1U);
+        else
+            atomic_store(&c->task_thread.first, 0);
+        atomic_compare_exchange_strong(&c->task_thread.reset_task_cur,
+                                       &first, UINT_MAX);
+        if (c->task_thread.cur && c->task_thread.cur < c->n_fc)
+            c->task_thread.cur--;
         const int error = f->task_thread.retval;
         if (error) {
             f->task_thread.retval = 0;
diff --git a/src/lib.c b/src/lib.c
index 8ced796..fe617d4 100644
--- a/src/lib.c
+++ b/src/lib.c
@@ -361,20 +361,20 @@ static int drain_picture(Dav1dContext *const c, Dav1dPicture *const out) {
         Dav1dThreadPicture *const out_delayed =
             &c->frame_thread.out_delayed[next];
         if (out_delayed->p.data[0] || atomic_load(&f->task_thread.error)) {
-            unsigned first = atomic_load(&c->task_thread.first);
-            if (first + 1U < c->n_fc)
-                atomic_fetch_add(&c->task_thread.first, 1U);
-            else
-                atomic_store(&c->task_thread.first, 0);
-            atomic_compare_exchange_strong(&c->task_thread.reset_task_cur,
-                                           &first, UINT_MAX);
-            if (c->task_thread.cur && c->task_thread.cur < c->n_fc)
-                c->task_thread.cur--;
             drained = 1;
         } else if (drained) {
             pthread_mutex_unlock(&c->task_thread.lock);
             break;
         }
+        unsigned first = atomic_load(&c->task_thread.first);
+        if (first + 1U < c->n_fc)
+            atomic_fetch_add(&c->task_thread.first, 1U);
+        else
+            atomic_store(&c->task_thread.first, 0);
+        atomic_compare_exchange_strong(&c->task_thread.reset_task_cur,
+                                       &first, UINT_MAX);
+        if (c->task_thread.cur && c->task_thread.cur < c->n_fc)
+            c->task_thread.cur--;
         if (++c->frame_thread.next == c->n_fc)
             c->frame_thread.next = 0;
         pthread_mutex_unlock(&c->task_thread.lock);
diff --git a/src/obu.c b/src/obu.c
index 78d652b..42b277d 100644
--- a/src/obu.c
+++ b/src/obu.c
@@ -1616,17 +1616,15 @@ ptrdiff_t dav1d_parse_obus(Dav1dContext *const c, Dav1dData *const in) {
                                       &f->task_thread.ttd->lock);
                 Dav1dThreadPicture *const out_delayed =
                     &c->frame_thread.out_delayed[next];
-                if (out_delayed->p.data[0] || atomic_load(&f->task_thread.error)) {
-                    unsigned first = atomic_load(&c->task_thread.first);
-                    if (first + 1U < c->n_fc)
-                        atomic_fetch_add(&c->task_thread.first, 1U);
-                    else
-                        atomic_store(&c->task_thread.first, 0);
-                    atomic_compare_exchange_strong(&c->task_thread.reset_task_cur,
-                                                   &first, UINT_MAX);
-                    if (c->task_thread.cur && c->task_thread.cur < c->n_fc)
-                        c->task_thread.cur--;
-                }
+                unsigned first = atomic_load(&c->task_thread.first);
+                if (first + 1U < c->n_fc)
+                    atomic_fetch_add(&c->task_thread.first, 1U);
+                else
+                    atomic_store(&c->task_thread.first, 0);
+                atomic_compare_exchange_strong(&c->task_thread.reset_task_cur,
+                                               &first, UINT_MAX);
+                if (c->task_thread.cur && c->task_thread.cur < c->n_fc)
+                    c->task_thread.cur--;
                 const int error = f->task_thread.retval;
                 if (error) {
                     c->cached_error = error;
-- 
2.43.0


From 74b5a6c40e5f5ec82825ba3c575a4e7634561de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:43 +0000
Subject: [PATCH 02/21] fix: drain every frame context, also behind an empty
 one

With frame threading, dav1d_get_picture() can be called between
dav1d_send_data() calls, so that the ring of frame contexts holds empty
slots between busy ones. drain_picture() stopped at the first empty slot
after one with a picture or an error, and reported EAGAIN although frames
were still to come; the caller then takes the stream to be at its end and
loses the remaining pictures.
---
 src/lib.c | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/src/lib.c b/src/lib.c
index fe617d4..e4255b5 100644
--- a/src/lib.c
+++ b/src/lib.c
@@ -350,7 +350,6 @@ static int output_picture_ready(Dav1dContext *const c, const int drain) {
 
 static int drain_picture(Dav1dContext *const c, Dav1dPicture *const out) {
     unsigned drain_count = 0;
-    int drained = 0;
     do {
         const unsigned next = c->frame_thread.next;
         Dav1dFrameContext *const f = &c->fc[next];
@@ -360,12 +359,6 @@ static int drain_picture(Dav1dContext *const c, Dav1dPicture *const out) {
                               &f->task_thread.ttd->lock);
         Dav1dThreadPicture *const out_delayed =
             &c->frame_thread.out_delayed[next];
-        if (out_delayed->p.data[0] || atomic_load(&f->task_thread.error)) {
-            drained = 1;
-        } else if (drained) {
-            pthread_mutex_unlock(&c->task_thread.lock);
-            break;
-        }
         unsigned first = atomic_load(&c->task_thread.first);
         if (first + 1U < c->n_fc)
             atomic_fetch_add(&c->task_thread.first, 1U);
-- 
2.43.0


From a83646285d6aceb7ee975e51f0271b06f07b7cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:14 +0000
Subject: [PATCH 03/21] fix: report the level of reduced still picture headers
 like any other

major_level is 2 plus the upper three bits of seq_level_idx. The branch for
reduced still picture headers left the 2 out.
---
 src/obu.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/obu.c b/src/obu.c
index 42b277d..f0fa600 100644
--- a/src/obu.c
+++ b/src/obu.c
@@ -97,7 +97,7 @@ static NOINLINE int parse_seq_hdr(Dav1dSequenceHeader *const hdr,
 
     if (hdr->reduced_still_picture_header) {
         hdr->num_operating_points = 1;
-        hdr->operating_points[0].major_level = dav1d_get_bits(gb, 3);
+        hdr->operating_points[0].major_level = 2 + dav1d_get_bits(gb, 3);
         hdr->operating_points[0].minor_level = dav1d_get_bits(gb, 2);
         hdr->operating_points[0].initial_display_delay = 10;
     } else {
-- 
2.43.0


From e05584a53f7154ec50f400476ca0682b15dd94d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:46 +0000
Subject: [PATCH 04/21] fix: keep the packet properties of every decoding error

Frames over the size limit and failed header allocations were reported
without recording which packet was at fault, so
dav1d_get_decode_error_data_props() returned defaults or an older packet.
---
 src/lib.c | 1 +
 src/obu.c | 1 -
 2 files changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.c b/src/lib.c
index e4255b5..88aecad 100644
--- a/src/lib.c
+++ b/src/lib.c
@@ -410,6 +410,7 @@ static int gen_picture(Dav1dContext *const c)
     while (in->sz > 0) {
         const ptrdiff_t res = dav1d_parse_obus(c, in);
         if (res < 0) {
+            dav1d_data_props_copy(&c->cached_error_props, &in->m);
             dav1d_data_unref_internal(in);
         } else {
             assert((size_t)res <= in->sz);
diff --git a/src/obu.c b/src/obu.c
index f0fa600..20988ab 100644
--- a/src/obu.c
+++ b/src/obu.c
@@ -1729,7 +1729,6 @@ skip:
     return gb.ptr_end - gb.ptr_start;
 
 error:
-    dav1d_data_props_copy(&c->cached_error_props, &in->m);
     dav1d_log(c, gb.error ? "Overrun in OBU bit buffer\n" :
                             "Error parsing OBU data\n");
     return DAV1D_ERR(EINVAL);
-- 
2.43.0


From c42e30deb37f7e0ce4448e60e6225033680fe497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:08 +0000
Subject: [PATCH 05/21] fix: forget a show_existing_frame header that cannot be
 shown

The header stayed pending, so every following OBU (temporal delimiters and
sequence headers included) failed and its packet was dropped; the decoder
never recovered without a flush.
---
 src/obu.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/obu.c b/src/obu.c
index 20988ab..07e9793 100644
--- a/src/obu.c
+++ b/src/obu.c
@@ -1729,6 +1729,9 @@ skip:
     return gb.ptr_end - gb.ptr_start;
 
 error:
+    // a frame that could not be shown must not be tried again with the next OBU
+    if (c->frame_hdr && c->frame_hdr->show_existing_frame)
+        c->frame_hdr = NULL;
     dav1d_log(c, gb.error ? "Overrun in OBU bit buffer\n" :
                             "Error parsing OBU data\n");
     return DAV1D_ERR(EINVAL);
-- 
2.43.0


From b599fad013301c0b22e140a3a52fd8efc2f1e219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:01 +0000
Subject: [PATCH 06/21] fix: do not carry picture flags over a flush

Flags set by headers before the flush that no picture had taken yet raised
events (and marked a new temporal unit) on the first picture after it.
---
 src/lib.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib.c b/src/lib.c
index 88aecad..c6817a0 100644
--- a/src/lib.c
+++ b/src/lib.c
@@ -524,6 +524,7 @@ void dav1d_flush(Dav1dContext *const c) {
 
     c->drain = 0;
     c->cached_error = 0;
+    c->frame_flags = 0;
 
     for (int i = 0; i < 8; i++) {
         if (c->refs[i].p.p.frame_hdr)
-- 
2.43.0


From d28fe5946378e7ed5f8ea3d183882cb198274020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:30 +0000
Subject: [PATCH 07/21] fix: raise events with the picture they belong to

With a single spatial layer output, pictures wait in the cache; the flags of
the following picture were raised when it was decoded, before the cached one
was returned. Events describe the last returned picture, so collect them
where pictures are returned.
---
 src/decode.c | 2 --
 src/lib.c    | 2 +-
 src/obu.c    | 2 --
 3 files changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/decode.c b/src/decode.c
index d4c410a..51de458 100644
--- a/src/decode.c
+++ b/src/decode.c
@@ -3365,7 +3365,6 @@ int dav1d_submit_frame(Dav1dContext *const c) {
                 progress != FRAME_ERROR)
             {
                 dav1d_thread_picture_ref(&c->out, out_delayed);
-                c->event_flags |= dav1d_picture_get_event_flags(out_delayed);
             }
             dav1d_thread_picture_unref(out_delayed);
         }
@@ -3543,7 +3542,6 @@ int dav1d_submit_frame(Dav1dContext *const c) {
     if (c->n_fc == 1) {
         if (f->frame_hdr->show_frame || c->output_invisible_frames) {
             dav1d_thread_picture_ref(&c->out, &f->sr_cur);
-            c->event_flags |= dav1d_picture_get_event_flags(&f->sr_cur);
         }
     } else {
         dav1d_thread_picture_ref(out_delayed, &f->sr_cur);
diff --git a/src/lib.c b/src/lib.c
index c6817a0..451e2f5 100644
--- a/src/lib.c
+++ b/src/lib.c
@@ -312,6 +312,7 @@ static int output_image(Dav1dContext *const c, Dav1dPicture *const out)
 
     Dav1dThreadPicture *const in = (c->all_layers || !c->max_spatial_id)
                                    ? &c->out : &c->cache;
+    c->event_flags |= dav1d_picture_get_event_flags(in);
     if (!c->apply_grain || !has_grain(&in->p)) {
         dav1d_picture_move_ref(out, &in->p);
         dav1d_thread_picture_unref(in);
@@ -386,7 +387,6 @@ static int drain_picture(Dav1dContext *const c, Dav1dPicture *const out) {
                 progress != FRAME_ERROR)
             {
                 dav1d_thread_picture_ref(&c->out, out_delayed);
-                c->event_flags |= dav1d_picture_get_event_flags(out_delayed);
             }
             dav1d_thread_picture_unref(out_delayed);
             if (output_picture_ready(c, 0))
diff --git a/src/obu.c b/src/obu.c
index 07e9793..1093b95 100644
--- a/src/obu.c
+++ b/src/obu.c
@@ -1602,7 +1602,6 @@ ptrdiff_t dav1d_parse_obus(Dav1dContext *const c, Dav1dData *const in) {
                 dav1d_ref_dec(&c->itut_t35_ref);
                 c->itut_t35 = NULL;
                 c->n_itut_t35 = 0;
-                c->event_flags |= dav1d_picture_get_event_flags(&c->refs[c->frame_hdr->existing_frame_idx].p);
             } else {
                 pthread_mutex_lock(&c->task_thread.lock);
                 // need to append this to the frame output queue
@@ -1638,7 +1637,6 @@ ptrdiff_t dav1d_parse_obus(Dav1dContext *const c, Dav1dData *const in) {
                         progress != FRAME_ERROR)
                     {
                         dav1d_thread_picture_ref(&c->out, out_delayed);
-                        c->event_flags |= dav1d_picture_get_event_flags(out_delayed);
                     }
                     dav1d_thread_picture_unref(out_delayed);
                 }
-- 
2.43.0


From c4694dec14dcca2dc302cad8472fd259c8a508d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:54 +0000
Subject: [PATCH 08/21] fix: judge spatial layers by the sequence a picture
 belongs to

Frames still in flight (or cached) when a sequence header with another number
of spatial layers was parsed were handled with the new number: lower layers
were output, or the cached picture was never output.
---
 src/lib.c | 37 +++++++++++++++++++++----------------
 1 file changed, 21 insertions(+), 16 deletions(-)

diff --git a/src/lib.c b/src/lib.c
index 451e2f5..050a51b 100644
--- a/src/lib.c
+++ b/src/lib.c
@@ -306,12 +306,20 @@ static int has_grain(const Dav1dPicture *const pic)
                                         fgdata->chroma_scaling_from_luma);
 }
 
+// highest spatial layer of the operating point in the sequence a picture belongs to
+static int max_spatial_id(const Dav1dContext *const c, const Dav1dPicture *const pic) {
+    const Dav1dSequenceHeader *const seq_hdr = pic->seq_hdr;
+    const int op_idx =
+        c->operating_point < seq_hdr->num_operating_points ? c->operating_point : 0;
+    const unsigned spatial_mask = seq_hdr->operating_points[op_idx].idc >> 8;
+    return spatial_mask ? ulog2(spatial_mask) : 0;
+}
+
 static int output_image(Dav1dContext *const c, Dav1dPicture *const out)
 {
     int res = 0;
 
-    Dav1dThreadPicture *const in = (c->all_layers || !c->max_spatial_id)
-                                   ? &c->out : &c->cache;
+    Dav1dThreadPicture *const in = c->cache.p.data[0] ? &c->cache : &c->out;
     c->event_flags |= dav1d_picture_get_event_flags(in);
     if (!c->apply_grain || !has_grain(&in->p)) {
         dav1d_picture_move_ref(out, &in->p);
@@ -322,7 +330,7 @@ static int output_image(Dav1dContext *const c, Dav1dPicture *const out)
     res = dav1d_apply_grain(c, out, &in->p);
     dav1d_thread_picture_unref(in);
 end:
-    if (!c->all_layers && c->max_spatial_id && c->out.p.data[0]) {
+    if (in == &c->cache && c->out.p.data[0] && max_spatial_id(c, &c->out.p)) {
         dav1d_thread_picture_move_ref(in, &c->out);
     }
     return res;
@@ -330,20 +338,17 @@ end:
 
 static int output_picture_ready(Dav1dContext *const c, const int drain) {
     if (c->cached_error) return 1;
-    if (!c->all_layers && c->max_spatial_id) {
-        if (c->out.p.data[0] && c->cache.p.data[0]) {
-            if (c->max_spatial_id == c->cache.p.frame_hdr->spatial_id ||
-                c->out.flags & PICTURE_FLAG_NEW_TEMPORAL_UNIT)
-                return 1;
-            dav1d_thread_picture_unref(&c->cache);
-            dav1d_thread_picture_move_ref(&c->cache, &c->out);
-            return 0;
-        } else if (c->cache.p.data[0] && drain) {
+    if (c->cache.p.data[0]) {
+        if (!c->out.p.data[0]) return drain;
+        if (max_spatial_id(c, &c->cache.p) == c->cache.p.frame_hdr->spatial_id ||
+            c->out.flags & PICTURE_FLAG_NEW_TEMPORAL_UNIT)
             return 1;
-        } else if (c->out.p.data[0]) {
-            dav1d_thread_picture_move_ref(&c->cache, &c->out);
-            return 0;
-        }
+        dav1d_thread_picture_unref(&c->cache);
+        dav1d_thread_picture_move_ref(&c->cache, &c->out);
+        return 0;
+    } else if (!c->all_layers && c->out.p.data[0] && max_spatial_id(c, &c->out.p)) {
+        dav1d_thread_picture_move_ref(&c->cache, &c->out);
+        return 0;
     }
 
     return !!c->out.p.data[0];
-- 
2.43.0


From daba63bbdd189dcfd46c06ce3360de67571f1f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:57 +0000
Subject: [PATCH 09/21] fix: let the first output picture of a temporal unit
 mark its start

Hidden frames consumed the new temporal unit flag and shown-existing frames
carried the flag of the temporal unit they were coded in, so with a single
spatial layer output a cached picture could be replaced by one of the next
temporal unit.
---
 src/obu.c     | 4 ++++
 src/picture.c | 4 ++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/obu.c b/src/obu.c
index 1093b95..47a597a 100644
--- a/src/obu.c
+++ b/src/obu.c
@@ -1590,9 +1590,12 @@ ptrdiff_t dav1d_parse_obus(Dav1dContext *const c, Dav1dData *const in) {
             {
                 goto error;
             }
+            const enum PictureFlags new_tu = c->frame_flags & PICTURE_FLAG_NEW_TEMPORAL_UNIT;
+            c->frame_flags &= ~PICTURE_FLAG_NEW_TEMPORAL_UNIT;
             if (c->n_fc == 1) {
                 dav1d_thread_picture_ref(&c->out,
                                          &c->refs[c->frame_hdr->existing_frame_idx].p);
+                c->out.flags = (c->out.flags & ~PICTURE_FLAG_NEW_TEMPORAL_UNIT) | new_tu;
                 dav1d_picture_copy_props(&c->out.p,
                                          c->content_light, c->content_light_ref,
                                          c->mastering_display, c->mastering_display_ref,
@@ -1642,6 +1645,7 @@ ptrdiff_t dav1d_parse_obus(Dav1dContext *const c, Dav1dData *const in) {
                 }
                 dav1d_thread_picture_ref(out_delayed,
                                          &c->refs[c->frame_hdr->existing_frame_idx].p);
+                out_delayed->flags = (out_delayed->flags & ~PICTURE_FLAG_NEW_TEMPORAL_UNIT) | new_tu;
                 out_delayed->visible = 1;
                 dav1d_picture_copy_props(&out_delayed->p,
                                          c->content_light, c->content_light_ref,
diff --git a/src/picture.c b/src/picture.c
index 290bd09..80af8aa 100644
--- a/src/picture.c
+++ b/src/picture.c
@@ -203,8 +203,8 @@ int dav1d_thread_picture_alloc(Dav1dContext *const c, Dav1dFrameContext *const f
 
     // Don't clear these flags from c->frame_flags if the frame is not going to be output.
     // This way they will be added to the next visible frame too.
-    const int flags_mask = ((f->frame_hdr->show_frame || c->output_invisible_frames) &&
-                            c->max_spatial_id == f->frame_hdr->spatial_id)
+    const int flags_mask = !(f->frame_hdr->show_frame || c->output_invisible_frames) ? ~0 :
+                           c->max_spatial_id == f->frame_hdr->spatial_id
                            ? 0 : (PICTURE_FLAG_NEW_SEQUENCE | PICTURE_FLAG_NEW_OP_PARAMS_INFO);
     p->flags = c->frame_flags;
     c->frame_flags &= flags_mask;
-- 
2.43.0


From 69357d9723056d020bb785da918ec1dee9701810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:56 +0000
Subject: [PATCH 10/21] fix: no left shift of negative strides

A picture allocator may hand out negative strides, and shifting these left is
undefined.
---
 src/fg_apply_tmpl.c | 2 +-
 src/ipred_tmpl.c    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fg_apply_tmpl.c b/src/fg_apply_tmpl.c
index 044e257..1394a8d 100644
--- a/src/fg_apply_tmpl.c
+++ b/src/fg_apply_tmpl.c
@@ -197,7 +197,7 @@ void bitfn(dav1d_apply_grain_row)(const Dav1dFilmGrainDSPContext *const dsp,
         pixel *ptr = luma_src;
         for (int y = 0; y < bh; y++) {
             ptr[out->p.w] = ptr[out->p.w - 1];
-            ptr += PXSTRIDE(in->stride[0]) << ss_y;
+            ptr += PXSTRIDE(in->stride[0]) * (1 << ss_y);
         }
     }
 
diff --git a/src/ipred_tmpl.c b/src/ipred_tmpl.c
index 9cad40e..902f445 100644
--- a/src/ipred_tmpl.c
+++ b/src/ipred_tmpl.c
@@ -678,7 +678,7 @@ cfl_ac_c(int16_t *ac, const pixel *ypx, const ptrdiff_t stride,
         for (; x < width; x++)
             ac[x] = ac[x - 1];
         ac += width;
-        ypx += PXSTRIDE(stride) << ss_ver;
+        ypx += PXSTRIDE(stride) * (1 << ss_ver);
     }
     for (; y < height; y++) {
         memcpy(ac, &ac[-width], width * sizeof(*ac));
-- 
2.43.0


From 93ce5ccbbbefd87f48bbb761bc0c0fa1623e9344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:16 +0000
Subject: [PATCH 11/21] fix: keep the T.35 list consistent when an allocation
 fails

The list leaked if the context for it could not be allocated, and its
reference outlived the empty list if the payload could not be.
---
 src/obu.c | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/obu.c b/src/obu.c
index 47a597a..5ff5f61 100644
--- a/src/obu.c
+++ b/src/obu.c
@@ -1507,9 +1507,14 @@ ptrdiff_t dav1d_parse_obus(Dav1dContext *const c, Dav1dData *const in) {
             }
 
             if ((c->n_itut_t35 + 1) > INT_MAX / (int)sizeof(*c->itut_t35)) goto error;
+            uint8_t *const payload = dav1d_malloc(ALLOC_OBU_META, payload_size);
+            if (!payload) goto error;
             struct Dav1dITUTT35 *itut_t35 = dav1d_realloc(ALLOC_OBU_META, c->itut_t35,
                                                           (c->n_itut_t35 + 1) * sizeof(*c->itut_t35));
-            if (!itut_t35) goto error;
+            if (!itut_t35) {
+                dav1d_free(payload);
+                goto error;
+            }
             c->itut_t35 = itut_t35;
             memset(c->itut_t35 + c->n_itut_t35, 0, sizeof(*c->itut_t35));
 
@@ -1517,7 +1522,12 @@ ptrdiff_t dav1d_parse_obus(Dav1dContext *const c, Dav1dData *const in) {
             if (!c->n_itut_t35) {
                 assert(!c->itut_t35_ref);
                 itut_t35_ctx = dav1d_malloc(ALLOC_OBU_META, sizeof(struct itut_t35_ctx_context));
-                if (!itut_t35_ctx) goto error;
+                if (!itut_t35_ctx) {
+                    dav1d_free(payload);
+                    dav1d_free(c->itut_t35);
+                    c->itut_t35 = NULL;
+                    goto error;
+                }
                 c->itut_t35_ref = dav1d_ref_init(&itut_t35_ctx->ref, c->itut_t35,
                                                  dav1d_picture_free_itut_t35, itut_t35_ctx, 0);
             } else {
@@ -1529,9 +1539,7 @@ ptrdiff_t dav1d_parse_obus(Dav1dContext *const c, Dav1dData *const in) {
             itut_t35_ctx->n_itut_t35 = c->n_itut_t35 + 1;
 
             Dav1dITUTT35 *const itut_t35_metadata = &c->itut_t35[c->n_itut_t35];
-            itut_t35_metadata->payload = dav1d_malloc(ALLOC_OBU_META, payload_size);
-            if (!itut_t35_metadata->payload) goto error;
-
+            itut_t35_metadata->payload = payload;
             itut_t35_metadata->country_code = country_code;
             itut_t35_metadata->country_code_extension_byte = country_code_extension_byte;
             itut_t35_metadata->payload_size = payload_size;
-- 
2.43.0


From b180b46503b8981f46d914a58a20e8eca5deb67d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:34 +0000
Subject: [PATCH 12/21] fix: survive failing to allocate the tasks of a frame

The second pass was set up although the first had no task list, and if both
failed the task lock was taken twice.
---
 src/thread_task.c | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/thread_task.c b/src/thread_task.c
index 1ededde..6365048 100644
--- a/src/thread_task.c
+++ b/src/thread_task.c
@@ -717,25 +717,27 @@ void *dav1d_worker_task(void *data) {
             }
             if (!res) {
                 assert(c->n_fc > 1);
+                const int n_tasks = f->frame_hdr->tiling.cols *
+                                    f->frame_hdr->tiling.rows + f->sbh;
                 for (int p = 1; p <= 2; p++) {
-                    const int res = dav1d_task_create_tile_sbrow(f, p, 0);
+                    // the second pass depends on the tasks of the first
+                    if (!res) res = dav1d_task_create_tile_sbrow(f, p, 0);
                     if (res) {
                         pthread_mutex_lock(&ttd->lock);
                         // memory allocation failed
                         atomic_store(&f->task_thread.done[2 - p], 1);
                         atomic_store(&f->task_thread.error, -1);
-                        atomic_fetch_sub(&f->task_thread.task_counter,
-                                         f->frame_hdr->tiling.cols *
-                                         f->frame_hdr->tiling.rows + f->sbh);
                         atomic_store(&f->sr_cur.progress[p - 1], FRAME_ERROR);
-                        if (p == 2 && atomic_load(&f->task_thread.done[1])) {
-                            assert(!atomic_load(&f->task_thread.task_counter));
+                        if (atomic_fetch_sub(&f->task_thread.task_counter,
+                                             n_tasks) == n_tasks)
+                        {
                             dav1d_decode_frame_exit(f, DAV1D_ERR(ENOMEM));
                             f->n_tile_data = 0;
+                            atomic_store(&f->task_thread.init_done, 1);
                             pthread_cond_signal(&f->task_thread.cond);
-                        } else {
-                            pthread_mutex_unlock(&ttd->lock);
                         }
+                        reset_task_cur(c, ttd, t->frame_idx);
+                        pthread_mutex_unlock(&ttd->lock);
                     }
                 }
                 pthread_mutex_lock(&ttd->lock);
-- 
2.43.0


From 3bf1ee9031079d70313f1b4385b22968556bd802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:07 +0000
Subject: [PATCH 13/21] fix: do not reuse the tile states after failing to
 allocate them

---
 src/decode.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/decode.c b/src/decode.c
index 51de458..73173d2 100644
--- a/src/decode.c
+++ b/src/decode.c
@@ -2782,7 +2782,10 @@ int dav1d_decode_frame_init(Dav1dFrameContext *const f) {
         }
         dav1d_free_aligned(f->ts);
         f->ts = dav1d_alloc_aligned(ALLOC_TILE, sizeof(*f->ts) * n_ts, 32);
-        if (!f->ts) goto error;
+        if (!f->ts) {
+            f->n_ts = 0;
+            goto error;
+        }
         f->n_ts = n_ts;
     }
 
-- 
2.43.0


From b53b10f6bf6acc6a31b1a91d01d334c6bc85f0c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:03 +0000
Subject: [PATCH 14/21] fix: report a frame whose tasks could not be allocated

The result of the frame before it was used instead, so a picture that was
never decoded passed as good.
---
 src/decode.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/decode.c b/src/decode.c
index 73173d2..8489560 100644
--- a/src/decode.c
+++ b/src/decode.c
@@ -3306,9 +3306,11 @@ int dav1d_decode_frame(Dav1dFrameContext *const f) {
                     pthread_cond_wait(&f->task_thread.cond,
                                       &f->task_thread.ttd->lock);
                 }
+                res = f->task_thread.retval;
+            } else {
+                res = DAV1D_ERR(ENOMEM);
             }
             pthread_mutex_unlock(&f->task_thread.ttd->lock);
-            res = f->task_thread.retval;
         } else {
             res = dav1d_decode_frame_main(f);
             if (!res && f->frame_hdr->refresh_context && f->task_thread.update_set) {
-- 
2.43.0


From bab0d39e82b835104f543f64e0e43bb711ee6a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:00 +0000
Subject: [PATCH 15/21] fix: report a decoding error found while an earlier
 picture is ready

With frame threads the picture of an earlier frame may become ready while the
current one fails; the error was dropped then.
---
 src/lib.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib.c b/src/lib.c
index 050a51b..30ccbae 100644
--- a/src/lib.c
+++ b/src/lib.c
@@ -423,8 +423,11 @@ static int gen_picture(Dav1dContext *const c)
             in->data += res;
             if (!in->sz) dav1d_data_unref_internal(in);
         }
-        if (output_picture_ready(c, 0))
+        if (output_picture_ready(c, 0)) {
+            // report the error along with the picture of an earlier frame
+            if (res < 0) c->cached_error = (int)res;
             break;
+        }
         if (res < 0)
             return (int)res;
     }
-- 
2.43.0


From aff7b68959a2d3623b52a4006eaf2a9277c102d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:21 +0000
Subject: [PATCH 16/21] fix: obu: drop the ITU-T T.35 metadata of frames
 skipped by decode_frame_type

A shown frame that is left out because of Dav1dSettings.decode_frame_type
kept its metadata pending, so that it was attached to the next picture that
is output.
---
 src/obu.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/obu.c b/src/obu.c
index 5ff5f61..607affa 100644
--- a/src/obu.c
+++ b/src/obu.c
@@ -1719,6 +1719,12 @@ ptrdiff_t dav1d_parse_obus(Dav1dContext *const c, Dav1dData *const in) {
     return gb.ptr_end - gb.ptr_start;
 
 skip:
+    // the metadata of a skipped frame must not be attached to the next one
+    if (c->frame_hdr->show_frame || c->frame_hdr->show_existing_frame) {
+        dav1d_ref_dec(&c->itut_t35_ref);
+        c->itut_t35 = NULL;
+        c->n_itut_t35 = 0;
+    }
     // update refs with only the headers in case we skip the frame
     for (int i = 0; i < 8; i++) {
         if (c->frame_hdr->refresh_frame_flags & (1 << i)) {
-- 
2.43.0


From 9c2edb24cbf7831ab153b89323552eac59da9adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:13 +0000
Subject: [PATCH 17/21] fix: ivf: do not divide by zero when the file holds no
 complete frame header

---
 tools/input/ivf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/input/ivf.c b/tools/input/ivf.c
index d1fa05e..51e0c2b 100644
--- a/tools/input/ivf.c
+++ b/tools/input/ivf.c
@@ -124,7 +124,7 @@ static int ivf_open(IvfInputContext *const c, const char *const file,
         fps[0] = fps[1] = 0;
     }
     c->timebase = (double)timebase[0] / timebase[1];
-    c->step = duration / *num_frames;
+    c->step = *num_frames ? duration / *num_frames : 0;
 
     fseeko(c->f, 32, SEEK_SET);
     c->last_ts = 0;
-- 
2.43.0


From 41371c8aa1c0bbeba54c234f6e0719a2f33bc618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:53 +0000
Subject: [PATCH 18/21] fix: input: keep the positions of the container probes
 inside the probe buffer

---
 tools/input/annexb.c | 8 ++++----
 tools/input/parse.h  | 4 +++-
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/tools/input/annexb.c b/tools/input/annexb.c
index 8add61c..321f7c2 100644
--- a/tools/input/annexb.c
+++ b/tools/input/annexb.c
@@ -74,11 +74,11 @@ static int annexb_probe(const uint8_t *data) {
     // Check that the first OBU is a Temporal Delimiter.
     size_t obu_size;
     enum Dav1dObuType type;
-    ret = parse_obu_header(data + cnt, imin(PROBE_SIZE - cnt, (int) obu_unit_size),
+    ret = parse_obu_header(data + cnt, (int) umin(PROBE_SIZE - cnt, (unsigned) obu_unit_size),
                            &obu_size, &type, 1);
     if (ret < 0 || type != DAV1D_OBU_TD || obu_size > 0)
         return 0;
-    cnt += (int)obu_unit_size;
+    cnt += (int) umin((unsigned) obu_unit_size, PROBE_SIZE);
 
     // look for first frame and accompanying sequence header
     int seq = 0;
@@ -90,11 +90,11 @@ static int annexb_probe(const uint8_t *data) {
         temporal_unit_size -= ret;
         frame_unit_size -= ret;
 
-        ret = parse_obu_header(data + cnt, imin(PROBE_SIZE - cnt, (int) obu_unit_size),
+        ret = parse_obu_header(data + cnt, (int) umin(PROBE_SIZE - cnt, (unsigned) obu_unit_size),
                                &obu_size, &type, 1);
         if (ret < 0)
             return 0;
-        cnt += (int)obu_unit_size;
+        cnt += (int) umin((unsigned) obu_unit_size, PROBE_SIZE);
 
         switch (type) {
         case DAV1D_OBU_SEQ_HDR:
diff --git a/tools/input/parse.h b/tools/input/parse.h
index f39f80f..ba5fd97 100644
--- a/tools/input/parse.h
+++ b/tools/input/parse.h
@@ -100,7 +100,9 @@ static inline int parse_obu_header(const uint8_t *buf, int buf_size,
         ret = leb(buf, buf_size, obu_size);
         if (ret < 0)
             return -1;
-        return (int) *obu_size + ret + 1 + extension_flag;
+        // Cap the size so that positions inside the probe buffer can't overflow.
+        return (int) (*obu_size < INT_MAX / 2 ? *obu_size : INT_MAX / 2) +
+               ret + 1 + extension_flag;
     } else if (!allow_implicit_size)
         return -1;
 
-- 
2.43.0


From 30abfdd6b4618a2ce4ddb4b8c1ec70415ec8a005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:54 +0000
Subject: [PATCH 19/21] fix: dav1d: fail when the output cannot be written

The last part of the output is written when the file is closed. That was not
checked, so on a full disk the tool exited successfully with a truncated file.
---
 tools/dav1d.c         |  2 +-
 tools/output/md5.c    |  5 ++---
 tools/output/muxer.h  | 20 +++++++++++++++++++-
 tools/output/output.c |  8 +++++---
 tools/output/output.h |  2 +-
 tools/output/xxhash.c |  5 ++---
 tools/output/y4m2.c   |  5 ++---
 tools/output/yuv.c    |  5 ++---
 8 files changed, 34 insertions(+), 18 deletions(-)

diff --git a/tools/dav1d.c b/tools/dav1d.c
index eb19a80..f6c2695 100644
--- a/tools/dav1d.c
+++ b/tools/dav1d.c
@@ -382,7 +382,7 @@ int main(const int argc, char *const *const argv) {
         if (cli_settings.verify)
             res |= output_verify(out, cli_settings.verify);
         else
-            output_close(out);
+            res |= output_close(out);
     } else {
         fprintf(stderr, "No data decoded\n");
         res = 1;
diff --git a/tools/output/md5.c b/tools/output/md5.c
index cfad4f0..39d7071 100644
--- a/tools/output/md5.c
+++ b/tools/output/md5.c
@@ -259,7 +259,7 @@ static void md5_finish(MD5Context *const md5) {
     md5_update(md5, (const uint8_t *) &len, 8);
 }
 
-static void md5_close(MD5Context *const md5) {
+static int md5_close(MD5Context *const md5) {
     md5_finish(md5);
     for (int i = 0; i < 4; i++)
         fprintf(md5->f, "%2.2x%2.2x%2.2x%2.2x",
@@ -274,8 +274,7 @@ static void md5_close(MD5Context *const md5) {
     md5->bswap_w = 0;
 #endif
 
-    if (md5->f != stdout)
-        fclose(md5->f);
+    return close_file(md5->f);
 }
 
 static int md5_verify(MD5Context *const md5, const char *md5_str) {
diff --git a/tools/output/muxer.h b/tools/output/muxer.h
index 54b3f6a..e081309 100644
--- a/tools/output/muxer.h
+++ b/tools/output/muxer.h
@@ -28,6 +28,10 @@
 #ifndef DAV1D_OUTPUT_MUXER_H
 #define DAV1D_OUTPUT_MUXER_H
 
+#include <errno.h>
+#include <stdio.h>
+#include <string.h>
+
 #include "picture.h"
 
 typedef struct MuxerPriv MuxerPriv;
@@ -38,7 +42,7 @@ typedef struct Muxer {
     int (*write_header)(MuxerPriv *ctx, const char *filename,
                         const Dav1dPictureParameters *p, const unsigned fps[2]);
     int (*write_picture)(MuxerPriv *ctx, Dav1dPicture *p);
-    void (*write_trailer)(MuxerPriv *ctx);
+    int (*write_trailer)(MuxerPriv *ctx);
     /**
      * Verifies the muxed data (for example in the md5 muxer). Replaces write_trailer.
      *
@@ -49,4 +53,18 @@ typedef struct Muxer {
     int (*verify)(MuxerPriv *ctx, const char *hash_string);
 } Muxer;
 
+/**
+ * Closes an output file. Data may still be buffered, so that it is only known
+ * afterwards whether everything was written.
+ *
+ * @return 0 on success.
+ */
+static inline int close_file(FILE *const f) {
+    int res = ferror(f);
+    res |= f != stdout ? fclose(f) : fflush(f);
+    if (res)
+        fprintf(stderr, "Failed to write output data: %s\n", strerror(errno));
+    return res ? -1 : 0;
+}
+
 #endif /* DAV1D_OUTPUT_MUXER_H */
diff --git a/tools/output/output.c b/tools/output/output.c
index f8910d4..28636ce 100644
--- a/tools/output/output.c
+++ b/tools/output/output.c
@@ -242,15 +242,17 @@ int output_write(MuxerContext *const ctx, Dav1dPicture *const p) {
     if ((res = ctx->impl->write_picture(ctx->data, p)) < 0)
         return res;
     if (ctx->one_file_per_frame && ctx->impl->write_trailer)
-        ctx->impl->write_trailer(ctx->data);
+        return ctx->impl->write_trailer(ctx->data);
 
     return 0;
 }
 
-void output_close(MuxerContext *const ctx) {
+int output_close(MuxerContext *const ctx) {
+    int res = 0;
     if (!ctx->one_file_per_frame && ctx->impl->write_trailer)
-        ctx->impl->write_trailer(ctx->data);
+        res = ctx->impl->write_trailer(ctx->data);
     free(ctx);
+    return res;
 }
 
 int output_verify(MuxerContext *const ctx, const char *const md5_str) {
diff --git a/tools/output/output.h b/tools/output/output.h
index 6111c86..52f5d72 100644
--- a/tools/output/output.h
+++ b/tools/output/output.h
@@ -35,7 +35,7 @@ typedef struct MuxerContext MuxerContext;
 int output_open(MuxerContext **c, const char *name, const char *filename,
                 const Dav1dPictureParameters *p, const unsigned fps[2]);
 int output_write(MuxerContext *ctx, Dav1dPicture *pic);
-void output_close(MuxerContext *ctx);
+int output_close(MuxerContext *ctx);
 /**
  * Verifies the muxed data (for example in the md5 muxer). Replaces output_close.
  *
diff --git a/tools/output/xxhash.c b/tools/output/xxhash.c
index 53e7f2b..136156f 100644
--- a/tools/output/xxhash.c
+++ b/tools/output/xxhash.c
@@ -97,7 +97,7 @@ static int xxh3_write(xxh3Context *const xxh3, Dav1dPicture *const p) {
     return 0;
 }
 
-static void xxh3_close(xxh3Context *const xxh3) {
+static int xxh3_close(xxh3Context *const xxh3) {
     XXH128_hash_t hash = XXH3_128bits_digest(xxh3->state);
     XXH3_freeState(xxh3->state);
     XXH128_canonical_t c;
@@ -107,8 +107,7 @@ static void xxh3_close(xxh3Context *const xxh3) {
         fprintf(xxh3->f, "%2.2x", c.digest[i]);
     fprintf(xxh3->f, "\n");
 
-    if (xxh3->f != stdout)
-        fclose(xxh3->f);
+    return close_file(xxh3->f);
 }
 
 static int xxh3_verify(xxh3Context *const xxh3, const char * xxh3_str) {
diff --git a/tools/output/y4m2.c b/tools/output/y4m2.c
index 40411d1..a4a4b4a 100644
--- a/tools/output/y4m2.c
+++ b/tools/output/y4m2.c
@@ -135,9 +135,8 @@ error:
     return -1;
 }
 
-static void y4m2_close(Y4m2OutputContext *const c) {
-    if (c->f != stdout)
-        fclose(c->f);
+static int y4m2_close(Y4m2OutputContext *const c) {
+    return close_file(c->f);
 }
 
 const Muxer y4m2_muxer = {
diff --git a/tools/output/yuv.c b/tools/output/yuv.c
index e0c0ec4..93da262 100644
--- a/tools/output/yuv.c
+++ b/tools/output/yuv.c
@@ -88,9 +88,8 @@ error:
     return -1;
 }
 
-static void yuv_close(YuvOutputContext *const c) {
-    if (c->f != stdout)
-        fclose(c->f);
+static int yuv_close(YuvOutputContext *const c) {
+    return close_file(c->f);
 }
 
 const Muxer yuv_muxer = {
-- 
2.43.0


From 3f1557b31536c2a843e7532f07187e581ca25f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:54 +0000
Subject: [PATCH 20/21] fix: lib: drop the pending ITU-T T.35 metadata of a
 refused frame

It was attached to the next picture instead.
---
 src/lib.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib.c b/src/lib.c
index 30ccbae..ff0581e 100644
--- a/src/lib.c
+++ b/src/lib.c
@@ -417,6 +417,10 @@ static int gen_picture(Dav1dContext *const c)
         if (res < 0) {
             dav1d_data_props_copy(&c->cached_error_props, &in->m);
             dav1d_data_unref_internal(in);
+            // the metadata of a lost frame must not be attached to the next one
+            dav1d_ref_dec(&c->itut_t35_ref);
+            c->itut_t35 = NULL;
+            c->n_itut_t35 = 0;
         } else {
             assert((size_t)res <= in->sz);
             in->sz -= res;
-- 
2.43.0


From b50892158c24f3bfdf321d2d116e7425a79c904a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:56 +0000
Subject: [PATCH 21/21] fix: initialise the elapsed time of the command line
 decoder

The first frame time written to the --frametimes file was the difference
to an uninitialised variable.
---
 tools/dav1d.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/dav1d.c b/tools/dav1d.c
index f6c2695..6fbb080 100644
--- a/tools/dav1d.c
+++ b/tools/dav1d.c
@@ -198,7 +198,7 @@ int main(const int argc, char *const *const argv) {
     Dav1dContext *c;
     Dav1dData data;
     unsigned n_out = 0, total, fps[2], timebase[2];
-    uint64_t nspf, tfirst, elapsed;
+    uint64_t nspf, tfirst, elapsed = 0;
     double i_fps;
     FILE *frametimes = NULL;
     const unsigned version = dav1d_version_api();
-- 
2.43.0

