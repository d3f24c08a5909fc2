From 40078a83e3f855974d0b8996cb743a3b7baac1f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:48:04 +0000
Subject: [PATCH 01/78] fix: keep the heap ordered when the last node moves
 into another subtree

---
 src/common/util/bheap.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/common/util/bheap.c b/src/common/util/bheap.c
index c852865..e9d5df2 100755
--- a/src/common/util/bheap.c
+++ b/src/common/util/bheap.c
@@ -74,6 +74,12 @@ int heap_del(heap_t * heap, int del_index)
             break;
         }
     }
+    ///tail node comes from another subtree, it may be smaller than the parent
+    while(HEAP_PARENT(i) && tail_node->key < heap->array[HEAP_PARENT(i)]->key) {
+        heap->array[i] = heap->array[HEAP_PARENT(i)];
+        heap->array[i]->index = i;
+        i = HEAP_PARENT(i);
+    }
     heap->array[i] = tail_node;
     heap->array[i]->index = i;
     return 0;
-- 
2.43.0


From f3d7ab6c5eb5110886363618ba05e793ec6ebe24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:48:21 +0000
Subject: [PATCH 02/78] fix: mark a timer as set only after it entered the heap

---
 src/common/timer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/timer.c b/src/common/timer.c
index 04dcc8d..6474878 100755
--- a/src/common/timer.c
+++ b/src/common/timer.c
@@ -15,11 +15,11 @@ int tm_add(ev_timer_t *timer, timer_cb cb, void *data, int delay_ms) {
         tm_del(timer);
 
     timer->f_timeout = 0;
-    timer->f_timeset = 1;
     timer->cb = cb;
     timer->data = data;
     timer->node.key = (systime_msec() + delay_ms);
     schk(0 == heap_add(g_heap, &timer->node), return -1);
+    timer->f_timeset = 1;
     return 0;
 }
 
-- 
2.43.0


From 6486c31b34d79afce9f9d3dbb995f43e26a68028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:54:08 +0000
Subject: [PATCH 03/78] fix: check the chosen size class for free blocks in
 mem_pool_alloc

---
 src/common/mem.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/common/mem.c b/src/common/mem.c
index 5442cfd..4f93449 100755
--- a/src/common/mem.c
+++ b/src/common/mem.c
@@ -137,11 +137,6 @@ void * mem_pool_alloc(int size) {
     assert(size > 0);
 
     pthread_mutex_lock(&g_mp_thread_lock);
-    if(queue_empty(&g_mem_ctx.blks[blk_idx].usable)) {
-        pthread_mutex_unlock(&g_mp_thread_lock);
-        return NULL;
-    }
-    
     ///choice block
     if (size <= 512) {
         blk_idx = 0;
@@ -167,6 +162,10 @@ void * mem_pool_alloc(int size) {
         return NULL;
     }
     
+    if(queue_empty(&g_mem_ctx.blks[blk_idx].usable)) {
+        pthread_mutex_unlock(&g_mp_thread_lock);
+        return NULL;
+    }
     queue_t * q = queue_head(&g_mem_ctx.blks[blk_idx].usable);
     mem_obj_t * obj = ptr_get_struct(q, mem_obj_t, queue);
     queue_remove(&obj->queue);
-- 
2.43.0


From 51bd82e72fbe033697bc84da27717c2e3d056eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:54:18 +0000
Subject: [PATCH 04/78] fix: advance the ring buffer by the pushed length and
 wrap at the end

---
 src/common/ringbuffer.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/common/ringbuffer.c b/src/common/ringbuffer.c
index 4d81b27..f14bf5d 100755
--- a/src/common/ringbuffer.c
+++ b/src/common/ringbuffer.c
@@ -64,8 +64,8 @@ int ringbuffer_push(ringbuffer_t *rb,unsigned char *data, int datan)
                 memcpy(rb->last, data, tailn);
                 rb->last += tailn;
                 rb->datan += tailn;
-                rb->last = rb->start;
             }
+            rb->last = rb->start;
             int headn = datan - tailn;
             memcpy(rb->start, data + tailn, headn);
             rb->last += headn;
@@ -73,10 +73,9 @@ int ringbuffer_push(ringbuffer_t *rb,unsigned char *data, int datan)
         }
     } else {
         /// start-----last-----pos-----end
-        int freen = rb->pos - rb->last;
         memcpy(rb->last, data, datan);
-        rb->last += freen;
-        rb->datan += freen;
+        rb->last += datan;
+        rb->datan += datan;
     }
     pthread_mutex_unlock(&rb->lock);
     return 0;
@@ -113,8 +112,8 @@ int ringbuffer_pull(ringbuffer_t *rb, int datan, unsigned char *data, int *outn)
                 memcpy(data, rb->pos, tailn);
                 rb->pos += tailn;
                 rb->datan -= tailn;
-                rb->pos = rb->start;
             }
+            rb->pos = rb->start;
             int headn = rb->last - rb->start;
             int pulln = (datan - tailn >= headn ? headn : (datan - tailn));
             memcpy(data + tailn, rb->start, pulln);
-- 
2.43.0


From ca64557c4b59ec02d6526068dd8c64e2a9684e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:54:40 +0000
Subject: [PATCH 05/78] fix: repair deletion, lookup and release in the binary
 search tree

---
 src/common/util/bst.c | 73 +++++++++++++++++++++----------------------
 1 file changed, 35 insertions(+), 38 deletions(-)

diff --git a/src/common/util/bst.c b/src/common/util/bst.c
index 2ec5fee..fa6e49e 100755
--- a/src/common/util/bst.c
+++ b/src/common/util/bst.c
@@ -18,8 +18,10 @@ int bst_free(bst_t * bst)
     bst_node_t * stack[8192] = {NULL};
     int stackn = 0;
 
-    if(!bst->head.right) return 0;
-    stack[stackn++] = bst->head.right;
+    if(bst->head.left)
+        stack[stackn++] = bst->head.left;
+    if(bst->head.right)
+        stack[stackn++] = bst->head.right;
 
     while(stackn > 0) {
         bst_node_t * n = stack[--stackn];
@@ -78,7 +80,11 @@ bst_node_t * bst_find(bst_t * bst, long long key)
     bst_node_t * stack[8192] = {NULL};
     int stackn = 0;
 
-    stack[stackn++] = &bst->head;
+    ///head is not an element
+    if(bst->head.left)
+        stack[stackn++] = bst->head.left;
+    if(bst->head.right)
+        stack[stackn++] = bst->head.right;
 
     while(stackn > 0) {
         bst_node_t * n = stack[--stackn];
@@ -91,53 +97,44 @@ bst_node_t * bst_find(bst_t * bst, long long key)
     return NULL;
 }
 
+///put v (may be NULL) in the place of n
+static void bst_replace(bst_node_t * n, bst_node_t * v)
+{
+    if(n->type == BST_LEFT)
+        n->parent->left = v;
+    else
+        n->parent->right = v;
+
+    if(v) {
+        v->parent = n->parent;
+        v->level = n->level;
+        v->type = n->type;
+    }
+}
+
 int bst_del(bst_t * bst, long long key)
 {
     bst_node_t * n = bst_find(bst, key);
     if(!n) 
         return -1;
 
-    if(n->left && !n->right) {
-        if(n->type == BST_LEFT) 
-            n->parent->left = n->left;
-        else 
-            n->parent->right = n->left;
-
-        n->left->parent = n->parent;
-        n->left->level = n->level;
-    } else if (!n->left && n->right) {
-        if(n->type == BST_LEFT) 
-            n->parent->left = n->right;
-        else
-            n->parent->right = n->right;
-
-        n->right->parent = n->parent;
-        n->right->level = n->level;
+    if(!n->right) {
+        bst_replace(n, n->left);
+    } else if (!n->left) {
+        bst_replace(n, n->right);
     } else {
         ///find right tree mininum node.
         bst_node_t * m = bst_min(n->right);
-        ///delete the node
-        if(m->right) {
-            if(m->type == BST_LEFT)
-                m->parent->left = m->right;
-            else
-                m->parent->right = m->right;
-            m->right->parent = m->parent;
-            m->right->level = m->level;
-        } else {
-            m->parent->left = NULL;
+        if(m->parent != n) {
+            ///delete the node
+            bst_replace(m, m->right);
+            m->right = n->right;
+            m->right->parent = m;
         }
         ///replace delete node with this node
-        if(n->type == BST_LEFT) 
-            n->parent->left = m;
-        else
-            n->parent->right = m;
-        n->left->parent = m;
-        n->right->parent = m;
-        m->parent = n->parent;
-        m->level = n->level;
         m->left = n->left;
-        m->right = n->right;
+        m->left->parent = m;
+        bst_replace(n, m);
     }
     sys_free(n);
     bst->elem_num --;
-- 
2.43.0


From 98fdcbb5d29091cc51a612aabb5d3ec70b63ee26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:54:49 +0000
Subject: [PATCH 06/78] fix: stop the substring search at the end of the given
 text

---
 src/common/sys_string.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/sys_string.c b/src/common/sys_string.c
index bfc0b00..5c28c0e 100755
--- a/src/common/sys_string.c
+++ b/src/common/sys_string.c
@@ -9,7 +9,7 @@ unsigned char * l_find_str( unsigned char * str, uint32 strn, unsigned char * fi
     assert(findn > 0);
     assert(strn >= findn);
 
-    for(i = 0; i < strn; i ++) {
+    for(i = 0; i + findn <= strn; i ++) {
         if(str[i] == find[0]) {
             for(j = 0; j < findn; j ++) {
                 if(str[i+j] != find[j]) {
-- 
2.43.0


From b5f0926527780ab087b3111049954a04e31fadfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:56:05 +0000
Subject: [PATCH 07/78] fix: build and follow the failure links of the
 multi-key search correctly

---
 src/common/aho_corasick.c | 52 ++++++++++++++++++---------------------
 src/common/aho_corasick.h |  3 ++-
 2 files changed, 26 insertions(+), 29 deletions(-)

diff --git a/src/common/aho_corasick.c b/src/common/aho_corasick.c
index 33e144e..a507828 100755
--- a/src/common/aho_corasick.c
+++ b/src/common/aho_corasick.c
@@ -39,8 +39,7 @@ int ezac_add(ezac_ctx_t *ctx, char *data, int datan) {
     int i = 0;
 
     for (i = 0; i < datan; i ++) {
-        int idx = data[i];
-        if (idx < 0 || idx > EZAC_MAX) idx = 0;
+        int idx = (unsigned char)data[i];
         if (!n->arr[idx]) {
             schk(n->arr[idx] = sys_alloc(sizeof(ezac_node_t)), return -1);
         }
@@ -51,32 +50,30 @@ int ezac_add(ezac_ctx_t *ctx, char *data, int datan) {
 }
 
 int ezac_compiler(ezac_ctx_t *ctx) {
-    ezac_node_t *stack[4096] = {0};
-    int stackn = 0;
+    ezac_node_t *root = &ctx->root;
+    ezac_node_t *n = root;
+    ezac_node_t *tail = root;
     int i = 0;
 
-    for (i = 0; i < EZAC_MAX; i++) {
-        if (ctx->root.arr[i]) {
-            ctx->root.arr[i]->pfail = &ctx->root;
-            stack[stackn++] = ctx->root.arr[i];
-        }
-    }
-
-    while (stackn > 0) {
-        ezac_node_t * n = stack[--stackn];
+    ///level order, pfail of a node is always shallower than the node
+    root->next = NULL;
+    for (; n; n = n->next) {
         for (i = 0; i < EZAC_MAX; i++) {
-            if (n->arr[i]) {
-                ezac_node_t * x = n->pfail;
-                char find = 0;
-                do {
-                    if (x->arr[i]) {
-                        find = 1;
-                        break;
-                    }
-                    x = x->pfail;
-                } while(x != &ctx->root);
-                n->arr[i]->pfail = (find ? x->arr[i]: x);
-                stack[stackn++] = n->arr[i];
+            ezac_node_t *v = n->arr[i];
+            if (v) {
+                v->pfail = root;
+                if (n != root) {
+                    ezac_node_t *x = n->pfail;
+                    while (x != root && !x->arr[i])
+                        x = x->pfail;
+                    if (x->arr[i])
+                        v->pfail = x->arr[i];
+                }
+                if (v->pfail->fendup)
+                    v->fendup = 1;
+                v->next = NULL;
+                tail->next = v;
+                tail = v;
             }
         }
     }
@@ -91,9 +88,8 @@ int ezac_reset(ezac_ctx_t *ctx) {
 int ezac_find(ezac_ctx_t *ctx, char *data, int datan) {
     int i = 0;
     for (i = 0; i < datan; i++) {
-        int idx = data[i];
-        if (idx < 0 || idx > EZAC_MAX) idx = 0;
-        if (!ctx->cur->arr[idx])
+        int idx = (unsigned char)data[i];
+        while (ctx->cur != &ctx->root && !ctx->cur->arr[idx])
             ctx->cur = ctx->cur->pfail;
 
         if (ctx->cur->arr[idx]) {
diff --git a/src/common/aho_corasick.h b/src/common/aho_corasick.h
index 952ca7a..01cc0a6 100755
--- a/src/common/aho_corasick.h
+++ b/src/common/aho_corasick.h
@@ -6,11 +6,12 @@ extern "C"
 {
 #endif
 
-#define EZAC_MAX  128
+#define EZAC_MAX  256
 typedef struct ezac_node_t ezac_node_t;
 struct ezac_node_t {
     ezac_node_t * arr[EZAC_MAX];
     ezac_node_t * pfail;
+    ezac_node_t * next;     ///level order link, used by compiler
     char fendup:1;
 };
 typedef struct {    
-- 
2.43.0


From f4af598e7bb2b42a31ab47b844e24bc80d4e61f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:58:18 +0000
Subject: [PATCH 08/78] fix: do not take an escaped backslash for an escaped
 quote in cJSON_Minify

---
 src/common/cJSON.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/cJSON.c b/src/common/cJSON.c
index 524ba46..509c60e 100755
--- a/src/common/cJSON.c
+++ b/src/common/cJSON.c
@@ -2827,7 +2827,7 @@ static void minify_string(char **input, char **output) {
             *input += static_strlen("\"");
             *output += static_strlen("\"");
             return;
-        } else if (((*input)[0] == '\\') && ((*input)[1] == '\"')) {
+        } else if (((*input)[0] == '\\') && ((*input)[1] == '\"' || (*input)[1] == '\\')) {
             (*output)[1] = (*input)[1];
             *input += static_strlen("\"");
             *output += static_strlen("\"");
-- 
2.43.0


From 7284e45c211a703e6de8f0423f986b1540a94eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:02:46 +0000
Subject: [PATCH 09/78] fix: do not read past the end of a JSON object cut
 after a comma

---
 src/common/cJSON.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/common/cJSON.c b/src/common/cJSON.c
index 509c60e..cf2feb3 100755
--- a/src/common/cJSON.c
+++ b/src/common/cJSON.c
@@ -1654,6 +1654,11 @@ static cJSON_bool parse_object(cJSON * const item, parse_buffer * const input_bu
             current_item = new_item;
         }
 
+        if (cannot_access_at_index(input_buffer, 1))
+        {
+            goto fail; /* nothing comes after the comma */
+        }
+
         /* parse the name of the child */
         input_buffer->offset++;
         buffer_skip_whitespace(input_buffer);
-- 
2.43.0


From 7ec2e11d23fcccf0c2488bc93904a9b1c95dbe90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:04:03 +0000
Subject: [PATCH 10/78] fix: keep log records inside their buffer when a
 message is too long

---
 src/common/log.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/common/log.c b/src/common/log.c
index 57bad7e..da37437 100755
--- a/src/common/log.c
+++ b/src/common/log.c
@@ -14,16 +14,23 @@ static string_t levels[] = {
     string("[info]")
 };
 
+/// snprintf return the length without the cut, never move pos behind the text in buffer
+static void log_format_move(log_content_t *ctx, int n) {
+    int max = (int)(ctx->last - ctx->pos) - 1;
+    if (n > 0) 
+        ctx->pos += (n < max) ? n : max - 1;
+}
+
 static int log_format_prefix(log_content_t *ctx) {
-    ctx->pos += snprintf(ctx->pos, (ctx->last - ctx->pos)-1, "%.*s %s <%s:%d> ",
+    log_format_move(ctx, snprintf(ctx->pos, (ctx->last - ctx->pos)-1, "%.*s %s <%s:%d> ",
         levels[ctx->level].len, levels[ctx->level].data,
-        systime_log(), ctx->func, ctx->line );
+        systime_log(), ctx->func, ctx->line ));
     return 0;
 }
 
 static int log_format_text(log_content_t *ctx) {
     
-    ctx->pos += vsnprintf(ctx->pos, (ctx->last - ctx->pos)-1, ctx->args, ctx->args_list);
+    log_format_move(ctx, vsnprintf(ctx->pos, (ctx->last - ctx->pos)-1, ctx->args, ctx->args_list));
     va_end(ctx->args_list);
     return 0;
 }
-- 
2.43.0


From e0edf4162cce9a4284f0f4772b30e64edab29835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:04:11 +0000
Subject: [PATCH 11/78] fix: label log records with their own level

---
 src/common/log.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/common/log.c b/src/common/log.c
index da37437..12d9d99 100755
--- a/src/common/log.c
+++ b/src/common/log.c
@@ -10,8 +10,8 @@ log_mgr_t * log_ctx = NULL;
 
 static string_t levels[] = {
     string("[error]"),
-    string("[debug]"),
-    string("[info]")
+    string("[info]"),
+    string("[debug]")
 };
 
 /// snprintf return the length without the cut, never move pos behind the text in buffer
-- 
2.43.0


From 2d81218d725187116c3a0adba4a525a98ed411f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:12:34 +0000
Subject: [PATCH 12/78] fix: keep parsing an http request that arrives in
 several pieces

The request line and header parsers rescanned the whole buffer with the
saved state after a partial read, and never called recv again.
---
 src/http/http_req.c | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/http/http_req.c b/src/http/http_req.c
index 8652b45..6309565 100755
--- a/src/http/http_req.c
+++ b/src/http/http_req.c
@@ -40,6 +40,10 @@ static int web_req_line(con_t *c, web_req_t *req) {
 
     for (;;) {
         if (meta_getlen(c->meta) < 1) {
+            if (meta_getfree(c->meta) < 1) {
+                err("webreq meta full\n");
+                return -1;
+            }
             int recvd = c->recv(c, c->meta->last, meta_getfree(c->meta));
             if (recvd < 0) {
                 if (recvd == -11) {
@@ -188,10 +192,7 @@ static int web_req_line(con_t *c, web_req_t *req) {
             }
         }
 
-        if (meta_getfree(c->meta) < 1) {
-            err("webreq meta full\n");
-            return -1;
-        }
+        meta->pos = meta->last; ///all parsed, the parse continues with the next recv
     }
 }
 
@@ -210,6 +211,10 @@ static int web_req_hdrs(con_t *c, web_req_t *req) {
     for (;;) {
         
         if (meta_getlen(c->meta) < 1) {
+            if (meta_getfree(c->meta) < 1) {
+                err("webreq meta full\n");
+                return -1;
+            }
             int recvd = c->recv(c, c->meta->last, meta_getfree(c->meta));
             if (recvd < 0) {
                 if (recvd == -11) {
@@ -305,10 +310,7 @@ static int web_req_hdrs(con_t *c, web_req_t *req) {
             }
         }
 
-        if (meta_getfree(c->meta) < 1) {
-            err("webreq meta full\n");
-            return -1;
-        }
+        meta->pos = meta->last; ///all parsed, the parse continues with the next recv
     }
 }
 
-- 
2.43.0


From 3f950f31156db2f307b07d3798619942cf80ee1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:13:07 +0000
Subject: [PATCH 13/78] fix: an http header with an empty value does not
 swallow the next line

---
 src/http/http_req.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/http/http_req.c b/src/http/http_req.c
index 6309565..c1c53a6 100755
--- a/src/http/http_req.c
+++ b/src/http/http_req.c
@@ -255,11 +255,9 @@ static int web_req_hdrs(con_t *c, web_req_t *req) {
             if (req->state == s_value_init) {
                 if (*p == SP) { /// do nothing
                     continue;
-                } else {
-                    req->kvs[req->kvn].v.data = p;
-                    req->state = s_value;
-                    continue;
                 }
+                req->kvs[req->kvn].v.data = p;
+                req->state = s_value; ///the value may be empty, check CR below
             }
 
             if (req->state == s_value) {
-- 
2.43.0


From 71189ee5f00c2ea47b2363443bd28542d3cbeea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:13:50 +0000
Subject: [PATCH 14/78] fix: compare whole http header and method names

Names were compared up to their own length, so 'C: Keep-Alive' counted as
Connection and as Content-Length.
---
 src/http/http_req.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/http/http_req.c b/src/http/http_req.c
index c1c53a6..fc1aefd 100755
--- a/src/http/http_req.c
+++ b/src/http/http_req.c
@@ -17,6 +17,10 @@ void web_req_free(web_req_t *webreq) {
         mem_pool_free(webreq);
 }
 
+static int web_req_streq(string_t *s, const char *str) {
+    return (s->len == strlen(str)) && (strncasecmp((char*)s->data, str, s->len) == 0);
+}
+
 static int web_req_line(con_t *c, web_req_t *req) {
     unsigned char *p = NULL;
     ///reqline example
@@ -288,16 +292,16 @@ static int web_req_hdrs(con_t *c, web_req_t *req) {
 
                     int i = 0;
                     for (i = 0; i < req->kvn; i++) {
-                        if (strncasecmp((char*)req->kvs[i].k.data, "Connection", req->kvs[i].k.len) == 0) {
-                            if (strncasecmp((char*)req->kvs[i].v.data, "Keep-Alive", req->kvs[i].v.len) == 0) {
+                        if (web_req_streq(&req->kvs[i].k, "Connection")) {
+                            if (web_req_streq(&req->kvs[i].v, "Keep-Alive")) {
                                 req->fkeepalive = 1;
                             }
                         }
                     }
 
-                    if (strncasecmp((char*)req->method.data, "GET", req->method.len) == 0) {
+                    if (web_req_streq(&req->method, "GET")) {
                         req->method_typ = HTTP_METHOD_GET;
-                    } else if (strncasecmp((char*)req->method.data, "POST", req->method.len) == 0) {
+                    } else if (web_req_streq(&req->method, "POST")) {
                         req->method_typ = HTTP_METHOD_POST;
                     }
                     return req->cb(c, req);
@@ -316,7 +320,7 @@ static int web_req_payload(con_t *c, web_req_t *req) {
     if (!req->payload) {
         int i = 0;
         for (i = 0; i < req->kvn; i++) {
-            if (strncasecmp((char*)req->kvs[i].k.data, "Content-Length", req->kvs[i].k.len) == 0) {
+            if (web_req_streq(&req->kvs[i].k, "Content-Length")) {
                 req->payloadn = strtol((char*)req->kvs[i].v.data, NULL, 10);
                 if (req->payloadn < 0) {
                     err("webreq payloadn illegal. [%d]\n", req->payloadn);
-- 
2.43.0


From 409f69cbcd8d7fed85185aef7d30aae014fd8fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:13:51 +0000
Subject: [PATCH 15/78] fix: end the 400 status line with CRLF

---
 src/app/webser.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/app/webser.c b/src/app/webser.c
index a4f41e6..63f8938 100755
--- a/src/app/webser.c
+++ b/src/app/webser.c
@@ -306,7 +306,7 @@ int webser_rsp(con_t *c, int rcode, char *exthdr, void *payload, int payloadn) {
         if (rcode == 200) {
             schk(0 == webser_rsp_hdrp(c, "HTTP/1.1 200 OK\r\n"), break);
         } else if (rcode == 400) {
-            schk(0 == webser_rsp_hdrp(c, "HTTP/1.1 400 Bad Request"), break);
+            schk(0 == webser_rsp_hdrp(c, "HTTP/1.1 400 Bad Request\r\n"), break);
         } else if (rcode == 403) {
             schk(0 == webser_rsp_hdrp(c, "HTTP/1.1 403 Forbidden\r\n"), break);
         } else if (rcode == 404) {
@@ -314,7 +314,7 @@ int webser_rsp(con_t *c, int rcode, char *exthdr, void *payload, int payloadn) {
         } else if (rcode == 500) {
             schk(0 == webser_rsp_hdrp(c, "HTTP/1.1 500 Internal Server Error\r\n"), break);
         } else {
-            schk(0 == webser_rsp_hdrp(c, "HTTP/1.1 400 Bad Request"), break);
+            schk(0 == webser_rsp_hdrp(c, "HTTP/1.1 400 Bad Request\r\n"), break);
         }
         schk(0 == webser_rsp_hdrp(c, "Server: s5\r\n"), break);
         schk(0 == webser_rsp_hdrp(c, "Date: %s\r\n", systime_gmt()), break);    
-- 
2.43.0


From 49a72a3d94e6ba0e243c9036a86cc87a59e57c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:14:14 +0000
Subject: [PATCH 16/78] fix: honour Connection and Content-Length beyond the
 15th http header

The headers were evaluated from the table after parsing, and the table drops
everything past its size. Evaluate each header when its line is complete.
---
 src/http/http_req.c | 46 ++++++++++++++++++++++-----------------------
 1 file changed, 22 insertions(+), 24 deletions(-)

diff --git a/src/http/http_req.c b/src/http/http_req.c
index fc1aefd..bc04abd 100755
--- a/src/http/http_req.c
+++ b/src/http/http_req.c
@@ -200,6 +200,27 @@ static int web_req_line(con_t *c, web_req_t *req) {
     }
 }
 
+///look at a header as soon as its line is complete, kvs keeps only the first ones
+static int web_req_hdr(web_req_t *req, web_kv_t *kv) {
+    if (web_req_streq(&kv->k, "Connection")) {
+        if (web_req_streq(&kv->v, "Keep-Alive")) {
+            req->fkeepalive = 1;
+        }
+    } else if (web_req_streq(&kv->k, "Content-Length")) {
+        long payloadn = strtol((char*)kv->v.data, NULL, 10);
+        if (payloadn < 0) {
+            err("webreq payloadn illegal. [%ld]\n", payloadn);
+            return -1;
+        }
+        if (payloadn > (10*1024*1024)) {
+            err("ebreq payloadn too big. [%ld]\n", payloadn);
+            return -1;
+        }
+        req->payloadn = payloadn;
+    }
+    return 0;
+}
+
 static int web_req_hdrs(con_t *c, web_req_t *req) {
     unsigned char *p = NULL;
 
@@ -274,6 +295,7 @@ static int web_req_hdrs(con_t *c, web_req_t *req) {
 
             if (req->state == s_end) {
                 if (*p == LF) {
+                    schk(0 == web_req_hdr(req, &req->kvs[req->kvn]), return -1);
                     req->kvn ++;
                     if (req->kvn > (REQ_KV_MAX - 1)) 
                         req->kvn = REQ_KV_MAX - 1;
@@ -290,15 +312,6 @@ static int web_req_hdrs(con_t *c, web_req_t *req) {
                     c->meta->pos = p + 1;
                     req->cb = web_req_payload;
 
-                    int i = 0;
-                    for (i = 0; i < req->kvn; i++) {
-                        if (web_req_streq(&req->kvs[i].k, "Connection")) {
-                            if (web_req_streq(&req->kvs[i].v, "Keep-Alive")) {
-                                req->fkeepalive = 1;
-                            }
-                        }
-                    }
-
                     if (web_req_streq(&req->method, "GET")) {
                         req->method_typ = HTTP_METHOD_GET;
                     } else if (web_req_streq(&req->method, "POST")) {
@@ -318,21 +331,6 @@ static int web_req_hdrs(con_t *c, web_req_t *req) {
 
 static int web_req_payload(con_t *c, web_req_t *req) {
     if (!req->payload) {
-        int i = 0;
-        for (i = 0; i < req->kvn; i++) {
-            if (web_req_streq(&req->kvs[i].k, "Content-Length")) {
-                req->payloadn = strtol((char*)req->kvs[i].v.data, NULL, 10);
-                if (req->payloadn < 0) {
-                    err("webreq payloadn illegal. [%d]\n", req->payloadn);
-                    return -1;
-                }
-                if (req->payloadn > (10*1024*1024)) {
-                    err("ebreq payloadn too big. [%d]\n", req->payloadn);
-                    return -1;
-                }
-            }
-        }
-
         if (req->payloadn > 0) {
             schk(0 == meta_alloc(&req->payload, req->payloadn), return -1);
             int remain = meta_getlen(c->meta);
-- 
2.43.0


From b2a76b1ae354320a7ef8748e5d9d992be4b08b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:14:42 +0000
Subject: [PATCH 17/78] fix: serve only regular files, answer 500 when a file
 can't be opened

---
 src/app/webser.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/app/webser.c b/src/app/webser.c
index 63f8938..6b2687b 100755
--- a/src/app/webser.c
+++ b/src/app/webser.c
@@ -361,15 +361,17 @@ static int webser_req_file(con_t *c) {
         err("webser stat reqfile [%s] err, [%d]\n", p, errno);
         http_code = 400;
     } else {
-        if (st.st_mode & S_IFMT) {
+        if (S_ISREG(st.st_mode)) {
             if (st.st_mode & S_IRUSR) {
                 webc->ffd = open(p, O_RDONLY);
                 if (-1 == webc->ffd) {
                     err("webser open reqfile [%s] err, [%d]\n", p, errno);
+                    webc->ffd = 0;
                     http_code = 500;
+                } else {
+                    http_code = 200;
+                    webc->fsize = st.st_size;
                 }
-                http_code = 200;
-                webc->fsize = st.st_size;
             } else {
                 http_code = 403;
             }
-- 
2.43.0


From 3464f2836101df0fc196905223820d663b07bd09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:15:36 +0000
Subject: [PATCH 18/78] fix: wait for writability while sending a plain http
 response

The connection was registered for reading only, so a response that did not
fit into the send buffer at once stalled until the time-out.
---
 src/app/webser.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/app/webser.c b/src/app/webser.c
index 6b2687b..48810c6 100755
--- a/src/app/webser.c
+++ b/src/app/webser.c
@@ -334,6 +334,7 @@ int webser_rsp(con_t *c, int rcode, char *exthdr, void *payload, int payloadn) {
     
     c->ev->read_cb = webser_try_read;
     c->ev->write_cb = webser_rsp_hdr_send;
+    ev_opt(c, EV_R|EV_W);
     return c->ev->write_cb(c);
 }
 
-- 
2.43.0


From 4e209ca1c8629d56dbac9c936b30460af61b4a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:16:41 +0000
Subject: [PATCH 19/78] fix: accept an absolute form request target without a
 path

---
 src/http/http_req.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/http/http_req.c b/src/http/http_req.c
index bc04abd..03729c6 100755
--- a/src/http/http_req.c
+++ b/src/http/http_req.c
@@ -142,6 +142,10 @@ static int web_req_line(con_t *c, web_req_t *req) {
                     req->uri.data = p;
                     req->state = s_uri;
                     continue;
+                } else if (*p == SP) { ///absolute form without path, uri is empty
+                    req->host.len = p - req->host.data;
+                    req->state = s_version_init;
+                    continue;
                 }
             }
 
@@ -157,6 +161,10 @@ static int web_req_line(con_t *c, web_req_t *req) {
                     req->uri.data = p;
                     req->state = s_uri;
                     continue;
+                } else if (*p == SP) {
+                    req->port.len = p - req->port.data;
+                    req->state = s_version_init;
+                    continue;
                 }
             }
 
-- 
2.43.0


From 45f6fa9eef1b32f99ba0b55549f53b27e62d2603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:17:35 +0000
Subject: [PATCH 20/78] fix: give an accepted connection 5 seconds, not 5
 milliseconds, to send

---
 src/common/net.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/net.c b/src/common/net.c
index a641f37..3d768f6 100755
--- a/src/common/net.c
+++ b/src/common/net.c
@@ -167,7 +167,7 @@ int net_accept(con_t *c) {
         ///only check readable event for accept result 
         ev_opt(cc, EV_R);
 
-        EZ_TMADD(cc, net_exp, 5);
+        EZ_TMADD(cc, net_exp, 5*1000);
     }
     return 0;
 }
-- 
2.43.0


From 2a045909555fa15a55d9e76b79e189b7e7be7041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:18:48 +0000
Subject: [PATCH 21/78] fix: don't read past the end of a file after a partial
 send

---
 src/app/webser.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/app/webser.c b/src/app/webser.c
index 48810c6..efe5349 100755
--- a/src/app/webser.c
+++ b/src/app/webser.c
@@ -185,10 +185,9 @@ static int webser_rsp_payload_send_ff(con_t *c) {
         }
         if (webc->fsend >= webc->fsize) 
             break;
-        if (meta_getlen(meta) == 0) 
-            meta_clr(meta);
         
-        if (meta_getfree(meta) > 0) {
+        if (meta_getlen(meta) == 0) { ///a partial send doesn't need more data from file
+            meta_clr(meta);
             int readn = read(webc->ffd, meta->last, meta_getfree(meta));
             if (readn <= 0) {
                 err("webserv rff err. [%d] [%d] [%d]\n",
-- 
2.43.0


From 593411a6debef7ea61fa701698cccf4fcec8c7cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:19:12 +0000
Subject: [PATCH 22/78] fix: answer a POST /echo without a body

---
 src/app/web_api.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/app/web_api.c b/src/app/web_api.c
index 467e339..5a7c042 100755
--- a/src/app/web_api.c
+++ b/src/app/web_api.c
@@ -5,6 +5,8 @@
 static int wapi_echo_post(con_t *c) {
     webser_t * webc = c->data;
     ///dbg("http req data [%s]\n", webc->webreq->payload->pos);
+    if (!webc->webreq->payload) ///request without body
+        return webser_rsp(c, 200, NULL, NULL, 0);
     return webser_rsp(c, 200, NULL, webc->webreq->payload->pos, meta_getlen(webc->webreq->payload));
 }
 
-- 
2.43.0


From 3bec0dcf6a3976d6e67d0cf20766cef1c91dc683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:19:42 +0000
Subject: [PATCH 23/78] fix: keep the received bytes of the next request on a
 web connection

Every request allocated a new receive buffer, losing pipelined requests and
the bytes read before the protocol was known, and leaking the old buffer.
---
 src/app/webser.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/app/webser.c b/src/app/webser.c
index efe5349..a64df09 100755
--- a/src/app/webser.c
+++ b/src/app/webser.c
@@ -116,11 +116,12 @@ static int webser_keepalive(con_t *c) {
     meta_free(webc->rsp_hdr);
     meta_free(webc->rsp_payload);
     mem_pool_free(webc);
+    c->data = NULL;
 
     ///process net con meta remian data 
     int remain = meta_getlen(c->meta);
     if (remain) {
-        memcpy(c->meta->start, c->meta->pos, remain);
+        memmove(c->meta->start, c->meta->pos, remain);
         c->meta->pos = c->meta->start;
         c->meta->last = c->meta->pos + remain;
     } else {
@@ -440,10 +441,12 @@ static int webser_req_proc(con_t *c) {
 static int webser_start(con_t *c) {
     webser_t *webc = NULL;
     ///init web connection page and meta memory for use
-    schk(0 == meta_alloc(&c->meta, 4096), {
-        net_free(c);
-        return -1;
-    });
+    ///meta already exists if some bytes of the request were received before
+    if (!c->meta) 
+        schk(0 == meta_alloc(&c->meta, 4096), {
+            net_free(c);
+            return -1;
+        });
 
     schk(0 == web_calloc(&webc), {
         net_free(c);
-- 
2.43.0


From 0c506af812f40bbaaec2d6f3522204981daf61f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:19:43 +0000
Subject: [PATCH 24/78] fix: take only the body of a request from the receive
 buffer

---
 src/http/http_req.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/http/http_req.c b/src/http/http_req.c
index 03729c6..a06dd75 100755
--- a/src/http/http_req.c
+++ b/src/http/http_req.c
@@ -342,8 +342,11 @@ static int web_req_payload(con_t *c, web_req_t *req) {
         if (req->payloadn > 0) {
             schk(0 == meta_alloc(&req->payload, req->payloadn), return -1);
             int remain = meta_getlen(c->meta);
+            if (remain > req->payloadn) ///the rest belongs to the next request
+                remain = req->payloadn;
             if (remain) {
-                schk(0 == meta_pdata(req->payload, c->meta->pos, meta_getlen(c->meta)), return -1);
+                schk(0 == meta_pdata(req->payload, c->meta->pos, remain), return -1);
+                c->meta->pos += remain;
             }
         } else {
             return 0;
-- 
2.43.0


From e4bc40b68678c7d077aca344d2bc2f5eea63cb68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:19:44 +0000
Subject: [PATCH 25/78] fix: free the body of an http request

---
 src/http/http_req.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/http/http_req.c b/src/http/http_req.c
index a06dd75..e617951 100755
--- a/src/http/http_req.c
+++ b/src/http/http_req.c
@@ -13,8 +13,10 @@ web_req_t * web_req_alloc(void) {
 }
 
 void web_req_free(web_req_t *webreq) {
-    if (webreq)
+    if (webreq) {
+        meta_free(webreq->payload);
         mem_pool_free(webreq);
+    }
 }
 
 static int web_req_streq(string_t *s, const char *str) {
-- 
2.43.0


From 2eea5a6842029f8dc33b2b7918a3aebb60cac226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:22:27 +0000
Subject: [PATCH 26/78] fix: don't serve a uri that doesn't fit the traversal
 check

The check only saw the first 1024 bytes, left the copy unterminated, and the
path buffer was written past its end.
---
 src/app/webser.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/app/webser.c b/src/app/webser.c
index a64df09..dce4933 100755
--- a/src/app/webser.c
+++ b/src/app/webser.c
@@ -407,8 +407,10 @@ static int webser_req_router(con_t *c) {
         });
         
         char uri[1024] = {0};
-        memcpy(uri, webc->webreq->uri.data,
-                webc->webreq->uri.len > 1024 ? 1024 : webc->webreq->uri.len);
+        ///uri can't be checked as a whole, no file is served for it
+        if (webc->webreq->uri.len >= sizeof(uri)) 
+            return webser_rsp(c, 404, NULL, NULL, 0);
+        memcpy(uri, webc->webreq->uri.data, webc->webreq->uri.len);
         schk(!strstr(uri, "../"), {net_free(c);return -1;});
         
         c->ev->read_cb = webser_req_file;
-- 
2.43.0


From 0492398bb803e0b370aeb09939bc405e3c841994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:22:46 +0000
Subject: [PATCH 27/78] fix: restore the callbacks of a TLS handshake that had
 to wait for writing

Without a write callback before the handshake the handshake callback stayed
installed and called itself for ever.
---
 src/common/ssl.c | 34 +++++++++++-----------------------
 1 file changed, 11 insertions(+), 23 deletions(-)

diff --git a/src/common/ssl.c b/src/common/ssl.c
index 930814c..154d551 100755
--- a/src/common/ssl.c
+++ b/src/common/ssl.c
@@ -107,19 +107,12 @@ static int ssl_handshake_cb(con_t *c) {
 
     EZ_TMDEL(c);
     if (c->ssl->f_handshaked) {
-        if (c->ssl->cc_ev_typ) {
-            ev_opt(c, c->ssl->cc_ev_typ);
-        }
-
-        if (c->ssl->cc_ev_cbw) {
-            c->ev->write_cb = c->ssl->cc_ev_cbw;
-            c->ssl->cc_ev_cbw = NULL;
-        }
-
-        if (c->ssl->cc_ev_cbr) {
-            c->ev->read_cb = c->ssl->cc_ev_cbr;
-            c->ssl->cc_ev_cbr = NULL;
-        }
+        ///go back to what was cached when the handshake had to wait
+        ev_opt(c, c->ssl->cc_ev_typ);
+        c->ev->write_cb = c->ssl->cc_ev_cbw;
+        c->ev->read_cb = c->ssl->cc_ev_cbr;
+        c->ssl->cc_ev_typ = 0;
+        c->ssl->cc_ev_cbw = c->ssl->cc_ev_cbr = NULL;
 
         if (c->ev->write_cb) 
             return c->ev->write_cb(c);
@@ -154,16 +147,11 @@ int ssl_handshake(con_t *c) {
     int sslerr = SSL_get_error(sslc->con, rc);
     if ((sslerr == SSL_ERROR_WANT_READ) || (sslerr == SSL_ERROR_WANT_WRITE)) {
 
-        if (!sslc->cc_ev_typ) 
-            sslc->cc_ev_typ = c->ev->opt; ///cache current event opt
-            
-        if (!sslc->cc_ev_cbr)
-            if(c->ev->read_cb) 
-                sslc->cc_ev_cbr = c->ev->read_cb;
-
-        if (!sslc->cc_ev_cbw)
-            if (c->ev->write_cb) 
-                sslc->cc_ev_cbw = c->ev->write_cb;
+        if (!sslc->cc_ev_typ) { ///cache current event opt and callbacks
+            sslc->cc_ev_typ = c->ev->opt;
+            sslc->cc_ev_cbr = c->ev->read_cb;
+            sslc->cc_ev_cbw = c->ev->write_cb;
+        }
    
         if (sslerr == SSL_ERROR_WANT_READ) {
             c->ev->read_cb = ssl_handshake_cb;
-- 
2.43.0


From 0842d7340c364212039362e3d9370d3effb9cc71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:23:50 +0000
Subject: [PATCH 28/78] fix: answer requests whose path has no '.'

---
 src/app/webser.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/app/webser.c b/src/app/webser.c
index dce4933..62b48f5 100755
--- a/src/app/webser.c
+++ b/src/app/webser.c
@@ -135,7 +135,9 @@ static int webser_keepalive(con_t *c) {
 
 void * webser_rsp_mime(webser_t * webser, char * mimetype)
 {
-    void * typ = ezhash_find(g_web_ctx->mime_hash, 
+    void * typ = NULL;
+    if (mimetype) ///path without any '.' have no mimetype
+        typ = ezhash_find(g_web_ctx->mime_hash, 
                 mimetype, strlen(mimetype));
     return typ ? typ : "text/plain";
 }
-- 
2.43.0


From d465dd3a5aa64f560d93b2621cfcaede7d391693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:34:53 +0000
Subject: [PATCH 29/78] fix: limit the recursion over pipelined http requests

Every request of a burst was handled inside the previous one, some thousand
pipelined requests overflowed the stack.
---
 src/app/webser.c | 17 ++++++++++++++++-
 src/app/webser.h |  1 +
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/app/webser.c b/src/app/webser.c
index 62b48f5..a2a2323 100755
--- a/src/app/webser.c
+++ b/src/app/webser.c
@@ -105,6 +105,11 @@ static int webser_try_read(con_t *c) {
     return -1;
 }
 
+static void webser_next(void *data) {
+    con_t *c = data;
+    c->ev->read_cb(c);
+}
+
 static int webser_keepalive(con_t *c) {
     webser_t *webc = c->data;
 
@@ -130,7 +135,17 @@ static int webser_keepalive(con_t *c) {
 
     c->ev->read_cb = webser_start;
     c->ev->write_cb = NULL;
-    return c->ev->read_cb(c);
+
+    ///pipelined requests are processed recursively, go on from the timer if the stack gets deep
+    static int depth = 0;
+    if (depth >= WEB_PIPELINE_DEPTH) {
+        EZ_TMADD(c, webser_next, 1);
+        return -11;
+    }
+    depth++;
+    int rc = c->ev->read_cb(c);
+    depth--;
+    return rc;
 }
 
 void * webser_rsp_mime(webser_t * webser, char * mimetype)
diff --git a/src/app/webser.h b/src/app/webser.h
index 96d9f30..bf216ec 100755
--- a/src/app/webser.h
+++ b/src/app/webser.h
@@ -8,6 +8,7 @@ extern "C"
 
 #define WEB_TMOUT 5*1000
 #define WEB_PAYLOAD_LEN 16384
+#define WEB_PIPELINE_DEPTH 16
 
 typedef struct {
     char key[32];
-- 
2.43.0


From 3ba1df1779e895e0fb2ef9b67d5f7687e2ff1cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:47:45 +0000
Subject: [PATCH 30/78] fix: keep bytes that arrive together with the tunnel
 auth header

---
 src/app/tls_tunnel_s.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/app/tls_tunnel_s.c b/src/app/tls_tunnel_s.c
index 56681d5..91b9dea 100755
--- a/src/app/tls_tunnel_s.c
+++ b/src/app/tls_tunnel_s.c
@@ -259,7 +259,8 @@ static int tls_tunnel_s_auth_chk(con_t *cdown) {
        net_free(cdown);
        return -1;
     }
-    meta_clr(meta);
+    ///the first socks5 message may have come along with the auth hdr
+    meta->pos += sizeof(tls_tunnel_auth_t);
     
     cdown->ev->read_cb = s5_p1_req;
     cdown->ev->write_cb = NULL;
-- 
2.43.0


From 5e68d00571bcf7a714d05e544fc710196de6f60f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:49:20 +0000
Subject: [PATCH 31/78] fix: wait for TLS read and write readiness
 independently

---
 src/common/ssl.c | 50 ++++++++++++++++--------------------------------
 1 file changed, 16 insertions(+), 34 deletions(-)

diff --git a/src/common/ssl.c b/src/common/ssl.c
index 154d551..f033399 100755
--- a/src/common/ssl.c
+++ b/src/common/ssl.c
@@ -176,11 +176,7 @@ int ssl_read(con_t *c, unsigned char *buf, int bufn) {
 
     int rc = SSL_read(sslc->con, buf, bufn);
     if (rc > 0) {
-        if (sslc->cc_ev_typ) {
-            ev_opt(c, sslc->cc_ev_typ);
-            sslc->cc_ev_typ = 0;
-        }
-        if (sslc->cc_ev_cbw) {
+        if (c->ev->write_cb == ssl_read_cb) {
             c->ev->write_cb = sslc->cc_ev_cbw;
             sslc->cc_ev_cbw = NULL;
         }
@@ -189,20 +185,15 @@ int ssl_read(con_t *c, unsigned char *buf, int bufn) {
     
     int sslerr = SSL_get_error(sslc->con, rc);
     if (sslerr == SSL_ERROR_WANT_READ || sslerr == SSL_ERROR_WANT_WRITE) {
-        if (!sslc->cc_ev_typ) 
-            sslc->cc_ev_typ = c->ev->opt;
-        if (!sslc->cc_ev_cbr)
-            if (c->ev->read_cb) 
-                sslc->cc_ev_cbr = c->ev->read_cb;
-        if (!sslc->cc_ev_cbw)
-            if (c->ev->write_cb) 
-                sslc->cc_ev_cbw = c->ev->write_cb;
-
+        ///only add the event to wait for, the other direction may be waiting too
         if (sslerr == SSL_ERROR_WANT_READ) {
-            ev_opt(c, EV_R);
+            ev_opt(c, c->ev->opt | EV_R);
         } else if (sslerr == SSL_ERROR_WANT_WRITE) {
-            c->ev->write_cb = ssl_read_cb;
-            ev_opt(c, EV_W);
+            if (c->ev->write_cb != ssl_read_cb) {
+                sslc->cc_ev_cbw = c->ev->write_cb;
+                c->ev->write_cb = ssl_read_cb;
+            }
+            ev_opt(c, c->ev->opt | EV_W);
         }
         return -11;
     }
@@ -221,11 +212,7 @@ int ssl_write(con_t *c, unsigned char *data, int datan) {
     ssl_clear_error();
     int rc = SSL_write(sslc->con, data, datan);
     if (rc > 0) {
-        if (sslc->cc_ev_typ) {
-            ev_opt(c, c->ssl->cc_ev_typ);
-            sslc->cc_ev_typ = 0;
-        }
-        if (sslc->cc_ev_cbr) {
+        if (c->ev->read_cb == ssl_write_cb) {
             c->ev->read_cb = sslc->cc_ev_cbr;
             sslc->cc_ev_cbr = NULL;
         }
@@ -234,20 +221,15 @@ int ssl_write(con_t *c, unsigned char *data, int datan) {
     
     int sslerr = SSL_get_error(sslc->con, rc);
     if (sslerr == SSL_ERROR_WANT_READ || sslerr == SSL_ERROR_WANT_WRITE) {
-        if (!sslc->cc_ev_typ)
-            c->ssl->cc_ev_typ = c->ev->opt;
-        if (!sslc->cc_ev_cbr) 
-            if (c->ev->read_cb) 
-                c->ssl->cc_ev_cbr = c->ev->read_cb;
-        if (!sslc->cc_ev_cbw)
-            if (c->ev->write_cb) 
-                c->ssl->cc_ev_cbw = c->ev->write_cb;
-
+        ///only add the event to wait for, the other direction may be waiting too
         if (sslerr == SSL_ERROR_WANT_READ) {
-            c->ev->read_cb = ssl_write_cb;
-            ev_opt(c, EV_R);
+            if (c->ev->read_cb != ssl_write_cb) {
+                sslc->cc_ev_cbr = c->ev->read_cb;
+                c->ev->read_cb = ssl_write_cb;
+            }
+            ev_opt(c, c->ev->opt | EV_R);
         } else if (sslerr == SSL_ERROR_WANT_WRITE) {
-            ev_opt(c, EV_W);
+            ev_opt(c, c->ev->opt | EV_W);
         }
         return -11;
     }
-- 
2.43.0


From a788fe7d00e0df2bab8081bc514acd764c642dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:50:55 +0000
Subject: [PATCH 32/78] fix: keep both tunnel timers running while either
 direction moves

---
 src/app/tls_tunnel_s.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/app/tls_tunnel_s.c b/src/app/tls_tunnel_s.c
index 91b9dea..1a7eb23 100755
--- a/src/app/tls_tunnel_s.c
+++ b/src/app/tls_tunnel_s.c
@@ -61,6 +61,7 @@ static int tls_tunnel_traffic_recv(con_t *c) {
     int recvn = 0;
 
     EZ_TMADD(cdown, tls_ses_exp, TLS_TUNNEL_TMOUT);
+    EZ_TMADD(cup, tls_ses_exp, TLS_TUNNEL_TMOUT);
 
     while (meta_getfree(cdown->meta) > 0) {
         recvn = cdown->recv(cdown, cdown->meta->last, meta_getfree(cdown->meta));
@@ -94,6 +95,7 @@ static int tls_tunnel_traffic_send(con_t *c) {
     int sendn = 0;
 
     EZ_TMADD(cup, tls_ses_exp, TLS_TUNNEL_TMOUT);
+    EZ_TMADD(cdown, tls_ses_exp, TLS_TUNNEL_TMOUT);
 
     while (meta_getlen(cdown->meta) > 0) {
         sendn = cup->send(cup, cdown->meta->pos, meta_getlen(cdown->meta));
@@ -129,6 +131,7 @@ static int tls_tunnel_traffic_reverse_recv(con_t *c) {
     int recvn = 0;
 
     EZ_TMADD(cup, tls_ses_exp, TLS_TUNNEL_TMOUT);
+    EZ_TMADD(cdown, tls_ses_exp, TLS_TUNNEL_TMOUT);
 
     while (meta_getfree(cup->meta) > 0) {
         recvn = cup->recv(cup, cup->meta->last, meta_getfree(cup->meta));
@@ -162,6 +165,7 @@ static int tls_tunnel_traffic_reverse_send(con_t *c) {
     int sendn = 0;
     
     EZ_TMADD(cdown, tls_ses_exp, TLS_TUNNEL_TMOUT);
+    EZ_TMADD(cup, tls_ses_exp, TLS_TUNNEL_TMOUT);
 
     while (meta_getlen(cup->meta) > 0) {
         sendn = cdown->send(cdown, cup->meta->pos, meta_getlen(cup->meta));
-- 
2.43.0


From 4b4ef415c2057fbda56ee68b7a9e55e9ac350d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:58:56 +0000
Subject: [PATCH 33/78] fix: pass on pending data when the other direction of a
 tunnel fails

---
 src/app/tls_tunnel_s.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/app/tls_tunnel_s.c b/src/app/tls_tunnel_s.c
index 1a7eb23..0e7b2a2 100755
--- a/src/app/tls_tunnel_s.c
+++ b/src/app/tls_tunnel_s.c
@@ -102,6 +102,11 @@ static int tls_tunnel_traffic_send(con_t *c) {
         if (sendn < 0) {
             if (sendn == -1) {
                 err("far send error\n");
+                if (cdown->ev->write_cb && meta_getlen(cup->meta) > 0) { ///pass on what far sent before
+                    cup->ev->write_cb = NULL;
+                    ses->frecv_err_up = 1;
+                    return -11;
+                }
                 net_free(cup);
                 net_free(cdown);
                 return -1;
@@ -172,6 +177,11 @@ static int tls_tunnel_traffic_reverse_send(con_t *c) {
         if (sendn < 0) {
             if (sendn == -1) {
                 err("near send error\n");
+                if (cup->ev->write_cb && meta_getlen(cdown->meta) > 0) { ///pass on what near sent before
+                    cdown->ev->write_cb = NULL;
+                    ses->frecv_err_down = 1;
+                    return -11;
+                }
                 net_free(cup);
                 net_free(cdown);
                 return -1;
-- 
2.43.0


From 263d7ab5154bd0dd37378f977355b7b235d07f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:03:17 +0000
Subject: [PATCH 34/78] fix: route short requests on the shared port to the web
 server

---
 src/app/webser.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/app/webser.c b/src/app/webser.c
index a2a2323..a02ab87 100755
--- a/src/app/webser.c
+++ b/src/app/webser.c
@@ -499,9 +499,10 @@ static int webser_transfer_to_tlstunnel(con_t *c) {
             return -1;
         });
 
-    /// try to recv TLS tunnel authorization header 
+    /// the magic number is enough to tell a TLS tunnel from a web request,
+    /// a request can be shorter than the whole authorization header 
     meta = c->meta;
-    while (meta_getlen(meta) < sizeof(tls_tunnel_auth_t)) {
+    while (meta_getlen(meta) < sizeof(((tls_tunnel_auth_t*)0)->magic)) {
         rc = c->recv(c, meta->last, meta_getfree(meta));
         if (rc < 0) {
             if (rc == -11) {
-- 
2.43.0


From 223a81ceafd86ad01421d159cede255d1015f0dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:05:20 +0000
Subject: [PATCH 35/78] fix: check types and array lengths of configuration
 values

---
 src/common/config.c | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/common/config.c b/src/common/config.c
index d37549f..a6e862a 100755
--- a/src/common/config.c
+++ b/src/common/config.c
@@ -22,9 +22,9 @@ static int config_parse(char *str) {
 
         cJSON *ssl_crt_path = cJSON_GetObjectItem(root, "ssl_crt_path");
         cJSON *ssl_key_path = cJSON_GetObjectItem(root, "ssl_key_path");
-        if (ssl_crt_path)
+        if (cJSON_IsString(ssl_crt_path))
             strncpy(g_config.ssl_crt_path, cJSON_GetStringValue(ssl_crt_path), sizeof(g_config.ssl_crt_path)-1);
-        if (ssl_key_path)
+        if (cJSON_IsString(ssl_key_path))
             strncpy(g_config.ssl_key_path, cJSON_GetStringValue(ssl_key_path), sizeof(g_config.ssl_key_path)-1);
         ///dbg("ssl_crt_path: [%s]\n", g_config.ssl_crt_path);
         ///dbg("ssl_key_path: [%s]\n", g_config.ssl_key_path);
@@ -38,9 +38,9 @@ static int config_parse(char *str) {
             g_config.s5_mode = s5_mode->valueint;
         if (s5_serv_port)
             g_config.s5_serv_port = s5_serv_port->valueint;
-        if (s5_serv_auth_path)
+        if (cJSON_IsString(s5_serv_auth_path))
             strncpy(g_config.s5_serv_auth_path, cJSON_GetStringValue(s5_serv_auth_path), sizeof(g_config.s5_serv_auth_path)-1);
-        if (s5_serv_gw)
+        if (cJSON_IsString(s5_serv_gw))
             strncpy(g_config.s5_serv_gw, cJSON_GetStringValue(s5_serv_gw), sizeof(g_config.s5_serv_gw)-1);
         ///dbg("s5_mode: [%d]\n", g_config.s5_mode);
         ///dbg("s5_serv_port: [%d]\n", g_config.s5_serv_port);
@@ -56,9 +56,9 @@ static int config_parse(char *str) {
             g_config.s5_local_port = s5_local_port->valueint;
         if (s5_local_serv_port)
             g_config.s5_local_serv_port = s5_local_serv_port->valueint;
-        if (s5_local_serv_ip)
+        if (cJSON_IsString(s5_local_serv_ip))
             strncpy(g_config.s5_local_serv_ip, cJSON_GetStringValue(s5_local_serv_ip), sizeof(g_config.s5_local_serv_ip)-1);
-        if (s5_local_auth)
+        if (cJSON_IsString(s5_local_auth))
             strncpy(g_config.s5_local_auth, cJSON_GetStringValue(s5_local_auth), sizeof(g_config.s5_local_auth)-1);
         ///dbg("s5_local_port: [%d]\n", g_config.s5_local_port);
         ///dbg("s5_local_serv_port: [%d]\n", g_config.s5_local_serv_port);
@@ -70,24 +70,24 @@ static int config_parse(char *str) {
         cJSON *https_arr = cJSON_GetObjectItem(root, "https_arr");
         cJSON *http_home = cJSON_GetObjectItem(root, "http_home");
         cJSON *http_index = cJSON_GetObjectItem(root, "http_index");
-        if (http_arr) {
-            for (i = 0; i < cJSON_GetArraySize(http_arr); i++)
+        if (cJSON_IsArray(http_arr)) {
+            for (i = 0; i < cJSON_GetArraySize(http_arr) && i < L_OPEN_PORT_MAX; i++)
                 g_config.http_arr[i] = cJSON_GetArrayItem(http_arr, i)->valueint;
+            g_config.http_num = i;
         }
-        if (https_arr) {
-            for (i = 0; i < cJSON_GetArraySize(https_arr); i++)
+        if (cJSON_IsArray(https_arr)) {
+            for (i = 0; i < cJSON_GetArraySize(https_arr) && i < L_OPEN_PORT_MAX; i++)
                 g_config.https_arr[i] = cJSON_GetArrayItem(https_arr, i)->valueint;
+            g_config.https_num = i;
         }
-        if (http_home)
+        if (cJSON_IsString(http_home))
             strncpy(g_config.http_home, cJSON_GetStringValue(http_home), sizeof(g_config.http_home)-1);
-        if (http_index)
+        if (cJSON_IsString(http_index))
             strncpy(g_config.http_index, cJSON_GetStringValue(http_index), sizeof(g_config.http_index)-1);
 
-        g_config.http_num = cJSON_GetArraySize(http_arr);
         ///for(i = 0; i < g_config.http_num; i++) 
         ///    dbg("[%d]\n", g_config.http_arr[i]);
             
-        g_config.https_num = cJSON_GetArraySize(https_arr);
         ///for(i = 0; i < g_config.https_num; i++)
         ///    dbg("[%d]\n", g_config.https_arr[i]);
             
-- 
2.43.0


From 8eee7af9736f35b8bdf8b84441bb9a7ae3c311c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:05:21 +0000
Subject: [PATCH 36/78] fix: ignore entries of the key file that are not
 strings

---
 src/app/tls_tunnel_s.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/app/tls_tunnel_s.c b/src/app/tls_tunnel_s.c
index 0e7b2a2..685c772 100755
--- a/src/app/tls_tunnel_s.c
+++ b/src/app/tls_tunnel_s.c
@@ -353,11 +353,13 @@ int tls_tunnel_s_accept(con_t *cdown) {
 }
 
 static int tls_tunnel_s_auth_fparse(meta_t *meta) {
-    cJSON *root = cJSON_Parse((char*)meta->pos);
+    cJSON *root = cJSON_ParseWithLength((char*)meta->pos, meta_getlen(meta));
     if (root) {  /// traversal the array 
         int i = 0;
         for (i = 0; i < cJSON_GetArraySize(root); i++) {
             cJSON * arrobj = cJSON_GetArrayItem(root, i);
+            if (!cJSON_IsString(arrobj))
+                continue;
             if (0 != ezac_add(g_ses_ctx->ac, cJSON_GetStringValue(arrobj), strlen(cJSON_GetStringValue(arrobj)))) {
                 err("s5 srv auth add ac err\n", cJSON_GetStringValue(arrobj));
             }
-- 
2.43.0


From 58052ec13f5a83258b664337fc82cd256b90271b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:06:07 +0000
Subject: [PATCH 37/78] fix: keep serving when the tunnel key file cannot be
 read

---
 src/app/tls_tunnel_s.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/app/tls_tunnel_s.c b/src/app/tls_tunnel_s.c
index 685c772..d963edc 100755
--- a/src/app/tls_tunnel_s.c
+++ b/src/app/tls_tunnel_s.c
@@ -401,7 +401,8 @@ int tls_tunnel_s_init(void) {
     schk(!g_ses_ctx, return -1);
     schk(g_ses_ctx = (tls_tunnel_s_t*)mem_pool_alloc(sizeof(tls_tunnel_s_t)), return -1);
     if (config_get()->s5_mode > TLS_TUNNEL_C) 
-        schk(tls_tunnel_s_auth_init() == 0, return -1);
+        ///without keys no tunnel client is accepted, everything else still works
+        schk(tls_tunnel_s_auth_init() == 0, schk(g_ses_ctx->ac, return -1));
     return 0;
 }
 
-- 
2.43.0


From c753f907be33e2628ea3c2bafcb1aebd069d3873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:06:27 +0000
Subject: [PATCH 38/78] fix: closing a connection no longer drops the event of
 another one

---
 src/common/event.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/common/event.c b/src/common/event.c
index 52409b6..313a390 100755
--- a/src/common/event.c
+++ b/src/common/event.c
@@ -241,9 +241,10 @@ int ev_alloc(ev_t **ev) {
 
 int ev_free(ev_t *ev) {
     if (ev) {
-        if (ev->idxr) 
+        ///the index may be of an earlier round, only clear its own entry
+        if (g_event_ctx->evs[ev->idxr] == ev) 
             g_event_ctx->evs[ev->idxr] = NULL;
-        if (ev->idxw)
+        if (g_event_ctx->evs[ev->idxw] == ev)
             g_event_ctx->evs[ev->idxw] = NULL;
     
         queue_remove(&ev->queue);
-- 
2.43.0


From 64b1246060bb18454b44523ac719f0b185347723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:09:50 +0000
Subject: [PATCH 39/78] fix: look for the tunnel key inside the key field only

---
 src/app/tls_tunnel_s.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/app/tls_tunnel_s.c b/src/app/tls_tunnel_s.c
index d963edc..03b210d 100755
--- a/src/app/tls_tunnel_s.c
+++ b/src/app/tls_tunnel_s.c
@@ -265,7 +265,7 @@ static int tls_tunnel_s_auth_chk(con_t *cdown) {
     int auth_chk = -1;
     do {
         schk(auth->magic == htonl(TLS_TUNNEL_AUTH_MAGIC_NUM), break);
-        schk(0 == ezac_find(g_ses_ctx->ac, auth->key, strlen(auth->key)), break);
+        schk(0 == ezac_find(g_ses_ctx->ac, auth->key, strnlen(auth->key, sizeof(auth->key))), break);
         auth_chk = 0;
     } while(0);
     
-- 
2.43.0


From 81fd668ac1ae34a0ee60a61571d179aa34812ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:11:57 +0000
Subject: [PATCH 40/78] fix: decide on a tunnel key independently of earlier
 ones

---
 src/app/tls_tunnel_s.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/app/tls_tunnel_s.c b/src/app/tls_tunnel_s.c
index 03b210d..b6a45aa 100755
--- a/src/app/tls_tunnel_s.c
+++ b/src/app/tls_tunnel_s.c
@@ -265,6 +265,7 @@ static int tls_tunnel_s_auth_chk(con_t *cdown) {
     int auth_chk = -1;
     do {
         schk(auth->magic == htonl(TLS_TUNNEL_AUTH_MAGIC_NUM), break);
+        ezac_reset(g_ses_ctx->ac); ///forget what earlier clients presented
         schk(0 == ezac_find(g_ses_ctx->ac, auth->key, strnlen(auth->key, sizeof(auth->key))), break);
         auth_chk = 0;
     } while(0);
-- 
2.43.0


From 8056a8109c8c1643746b494b327910b8c5ee9079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:14:47 +0000
Subject: [PATCH 41/78] fix: refuse socks5 greetings of another version or
 without methods

---
 src/app/socks5.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/app/socks5.c b/src/app/socks5.c
index 68eeb36..8a1067b 100755
--- a/src/app/socks5.c
+++ b/src/app/socks5.c
@@ -410,6 +410,11 @@ int s5_p1_req(con_t *cdown) {
             if (s5->s5_state == METHODN) {
                 s5p1->methods_n = *p;
                 s5p1->methods_cnt = 0;
+                if (s5p1->ver != 0x05 || s5p1->methods_n == 0) {
+                    err("s5p1 ver [%d] methods [%d] not support\n", s5p1->ver, s5p1->methods_n);
+                    net_free(cdown);
+                    return -1;
+                }
                 s5->s5_state = METHOD;
                 continue;
             }
-- 
2.43.0


From 42a2d82a5c2156c5dfa63f701cfda22f9b47285f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:16:06 +0000
Subject: [PATCH 42/78] fix: refuse socks5 requests with an empty host name

---
 src/app/socks5.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/app/socks5.c b/src/app/socks5.c
index 8a1067b..b48d810 100755
--- a/src/app/socks5.c
+++ b/src/app/socks5.c
@@ -304,7 +304,11 @@ int s5_p2_req(con_t *cdown) {
             if (s5->s5_state == TYP_DOMAINN) {
                 s5p2->dst_addr_n = *p;
                 s5->s5_state = TYP_DOMAIN;
-                if (s5p2->dst_addr_n < 0) s5p2->dst_addr_n = 0;
+                if (s5p2->dst_addr_n == 0) {
+                    err("s5p2 empty domain\n");
+                    net_free(cdown);
+                    return -1;
+                }
                 if (s5p2->dst_addr_n > 255) s5p2->dst_addr_n = 255;
                 continue;
             }
-- 
2.43.0


From c8a6be1081c5e9b99952fc3ae6dd5b4f371a01d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:18:25 +0000
Subject: [PATCH 43/78] fix: drop the dns request when the tunnel client goes
 away

---
 src/app/socks5.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/app/socks5.c b/src/app/socks5.c
index b48d810..5455563 100755
--- a/src/app/socks5.c
+++ b/src/app/socks5.c
@@ -8,6 +8,10 @@ static int s5_try_read(con_t *cdown) {
 
     if (0 != net_socket_check_status(cdown->fd)) {
         err("tls tunnel. socket chk err\n");
+        if (ses->dns) { ///nobody is left to take the result
+            dns_free(ses->dns);
+            ses->dns = NULL;
+        }
         net_free(ses->cup);
         net_free(cdown);
         return -1;
@@ -111,6 +115,7 @@ void s5_cup_dns_cb(int status, unsigned char *result, void *data) {
  
         //after result used 
         dns_free(dnsc); 	
+        ses->dns = NULL;
 
         ses->cup->addr.sin_family = AF_INET;
         ses->cup->addr.sin_port = addr_port;
@@ -122,6 +127,7 @@ void s5_cup_dns_cb(int status, unsigned char *result, void *data) {
     } else {
         err("TLS tunnel. dns resolv failed\n");
         dns_free(dnsc);
+        ses->dns = NULL;
         net_free(ses->cup);
         net_free(ses->cdown);
     }
-- 
2.43.0


From fd55ec695725158078be09b351f238167d220dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:22:35 +0000
Subject: [PATCH 44/78] fix: refuse socks5 host names that contain a NUL byte

---
 src/app/socks5.c | 2 ++
 src/app/socks5.h | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/app/socks5.c b/src/app/socks5.c
index 5455563..6231c23 100755
--- a/src/app/socks5.c
+++ b/src/app/socks5.c
@@ -341,6 +341,8 @@ int s5_p2_req(con_t *cdown) {
                     schk(0x05 == s5p2->ver, break);
                     schk(0x01 == s5p2->cmd, break);    /// only support CONNECT 0x01 request
                     schk(s5p2->atyp != S5_RFC_IPV6, break); /// not support IPV6 request
+                    /// a domain is used as string. can't contain the end flag
+                    schk(s5p2->atyp != S5_RFC_DOMAIN || strlen((char*)s5p2->dst_addr) == s5p2->dst_addr_n, break);
     
                     cdown->ev->read_cb = s5_cup_addr;
                     cdown->ev->write_cb = NULL;
diff --git a/src/app/socks5.h b/src/app/socks5.h
index 24044d2..6cb443b 100755
--- a/src/app/socks5.h
+++ b/src/app/socks5.h
@@ -31,7 +31,7 @@ typedef struct {
     unsigned char       atyp;
     unsigned char       dst_addr_n;
     unsigned char       dst_addr_cnt;
-    unsigned char       dst_addr[DOMAIN_LENGTH];
+    unsigned char       dst_addr[DOMAIN_LENGTH+1];
     unsigned char       dst_port[2];
 } s5_ph2_req_t;
 
-- 
2.43.0


From 71237b92ead10ec1880206d7b89b7d5db11f5140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:26:35 +0000
Subject: [PATCH 45/78] fix: parse dns responses by their record structure

---
 src/dns/dns.c | 133 ++++++++++++++++++++------------------------------
 1 file changed, 52 insertions(+), 81 deletions(-)

diff --git a/src/dns/dns.c b/src/dns/dns.c
index 8bdb7b4..2f1bd2a 100755
--- a/src/dns/dns.c
+++ b/src/dns/dns.c
@@ -94,96 +94,67 @@ inline static char * dns_get_serv(void) {
     }
 }
 
+/// skip a name, return the position after it. NULL means the name is illegal
+static unsigned char * dns_response_skip_name(unsigned char *p, unsigned char *end) {
+    while (p < end) {
+        if (((*p)&0xc0) == 0xc0)    /// 0xc0 means two byte length, it ends the name
+            return end - p >= 2 ? p + 2 : NULL;
+        if ((*p)&0xc0)
+            return NULL;
+        if (*p == 0)                /// end flag 0
+            return p + 1;
+        p += 1 + *p;
+    }
+    return NULL;
+}
+
 int dns_response_analyze(con_t *c) {
-    unsigned char *p = NULL;
-    int state_len = 0, cur = 0;
     dnsc_t *dnsc = c->data;
     meta_t *meta = c->meta;
-    
-    enum {
-        ANSWER_DOMAIN,
-        ANSWER_DOMAIN2,
-        ANSWER_COMMON_START,
-        ANSWER_COMMON,
-        ANSWER_ADDR_START,
-        ANSWER_ADDR
-    } state = ANSWER_DOMAIN;
-    p = meta->pos + sizeof(dns_header_t) + dnsc->qname_len + sizeof(dns_question_t);
+    dns_header_t *header = (dns_header_t*)meta->pos;
+    int answern = ntohs(header->answer_count);
+    unsigned char *p = NULL;
+
+    /// skip the question
+    p = dns_response_skip_name(meta->pos + sizeof(dns_header_t), meta->last);
+    if (p && meta->last - p >= (int)sizeof(dns_question_t))
+        p += sizeof(dns_question_t);
+    else
+        p = NULL;
     /*
         parse dns answer
     */
-    for (; p < meta->last; p++) {
-        if (state == ANSWER_DOMAIN) {
-            if ((*p)&0xc0) {    /// 0xc0 means two byte length 
-                dnsc->answer.name = p;
-                state = ANSWER_DOMAIN2;
-                continue;
+    while (p && answern-- > 0) {
+        dnsc->answer.name = p;
+        p = dns_response_skip_name(p, meta->last);
+        if (!p || meta->last - p < (int)sizeof(dns_rdata_t))
+            break;
+
+        dnsc->answer.rdata = (dns_rdata_t *)p;
+        unsigned int rttl = ntohl(dnsc->answer.rdata->ttl);
+        unsigned short rtyp = ntohs(dnsc->answer.rdata->type);
+        unsigned short rclass = ntohs(dnsc->answer.rdata->rclass);
+        unsigned short rdatan = ntohs(dnsc->answer.rdata->data_len);
+        p += sizeof(dns_rdata_t);
+        if (meta->last - p < rdatan)
+            break;
+        dnsc->answer.answer_addr = p;
+        p += rdatan;
+
+        /// if this answer is a A TYPE answer (IPV4), return ok
+        if (rtyp == 0x0001 && rclass == 0x0001 && rdatan == 4) {
+            if (0 == dns_rec_find((char*)dnsc->query, NULL)) {
+                /// do nothing, record already in cache 
             } else {
-                /// not 0xc0 mean normal string type. then just wait the end flag 0 comes 
-                if (*p == 0) {    
-                    state = ANSWER_COMMON_START;
-                    cur = 0;
-                    state_len = sizeof(dns_rdata_t);
-                    continue;
-                }
-            }
-        }
-        if (state == ANSWER_DOMAIN2) {
-            cur = 0;
-            state_len = sizeof(dns_rdata_t);
-            state = ANSWER_COMMON_START;
-            continue;
-        }
-        if (state == ANSWER_COMMON_START) {
-            /// common start means common part already started
-            dnsc->answer.rdata = (dns_rdata_t *)p;
-            state = ANSWER_COMMON;
-        }
-        if (state == ANSWER_COMMON) {
-            cur++;
-            if(cur >= state_len) {
-                ///answer common finish, goto answer address
-                state = ANSWER_ADDR_START;
-                cur = 0;
-                state_len = ntohs(dnsc->answer.rdata->data_len);
-                continue;
-            }
-        }
-        if (state == ANSWER_ADDR_START) {
-            dnsc->answer.answer_addr = p;
-            state = ANSWER_ADDR;
-        }
-        if (state == ANSWER_ADDR) {
-            cur++;
-            if (cur >= state_len) {
-                /// answer address finish. check address in here
-                unsigned int rttl = ntohl(dnsc->answer.rdata->ttl);
-                unsigned short rtyp = ntohs(dnsc->answer.rdata->type);
-                unsigned short rdatan = ntohs(dnsc->answer.rdata->data_len);
-
-                /// if this answer is a A TYPE answer (IPV4), return ok
-                if (rtyp == 0x0001) {
-                    if (0 == dns_rec_find((char*)dnsc->query, NULL)) {
-                        /// do nothing, record already in cache 
-                    } else {
-                        if (rttl > 0 && rdatan > 0) {
-                            dns_rec_add((char*)dnsc->query, (char*)dnsc->answer.answer_addr, 1000*rttl);
-                        }
-                    }
-                    memcpy(dnsc->result, dnsc->answer.answer_addr, 4);
-                    dns_async_result(dnsc, 0, dnsc->result);
-                    return 0;
-                } else if (rtyp == 0x0005) {
-                    ///dbg("dns answer type CNAME, ignore\n");
-                } else if (rtyp == 0x0002) {
-                    ///dbg("dns answer type NAME SERVER, ignore\n");
-                } else if (rtyp == 0x000f) {
-                    ///dbg("dns answer type MAIL SERVER, ignore\n");
+                if (rttl > 0) {
+                    dns_rec_add((char*)dnsc->query, (char*)dnsc->answer.answer_addr, 1000*rttl);
                 }
-                state = ANSWER_DOMAIN;
-                cur = 0;
             }
+            memcpy(dnsc->result, dnsc->answer.answer_addr, 4);
+            dns_async_result(dnsc, 0, dnsc->result);
+            return 0;
         }
+        /// CNAME, NAME SERVER, MAIL SERVER and other types, ignore
     }
     err("dns rsp find result error.\n");
     dns_async_result(dnsc, -1, NULL);
@@ -216,7 +187,7 @@ int dns_response_recv(con_t *c) {
 
     /// do basic filter in here, check req question count and answer count     
     header = (dns_header_t*)meta->pos;
-    if (ntohs(header->question_count) < 1) {
+    if (ntohs(header->question_count) != 1) {
         err("dns response question count [%d], illegal\n", header->question_count);
         dns_async_result(dnsc, -1, NULL);
         return -1;
-- 
2.43.0


From 3de9b03539e726146a052d69c547a18758fe88a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:27:06 +0000
Subject: [PATCH 46/78] fix: accept dns responses only from the configured
 resolver

---
 src/dns/dns.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/dns/dns.c b/src/dns/dns.c
index 2f1bd2a..18ee0dc 100755
--- a/src/dns/dns.c
+++ b/src/dns/dns.c
@@ -181,6 +181,10 @@ int dns_response_recv(con_t *c) {
             dns_async_result(dnsc, -1, NULL);
             return -1;
         }
+        if (c->addr.sin_addr.s_addr != inet_addr(dns_get_serv()) || c->addr.sin_port != htons(53)) {
+            /// not from the dns server, ignore it
+            continue;
+        }
         meta->last += size;
     }
     EZ_TMDEL(c);
-- 
2.43.0


From f7f6062417cedb530d2827fd4149961060330ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:39:54 +0000
Subject: [PATCH 47/78] fix: do not use expired dns cache entries

---
 src/dns/dns.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/dns/dns.c b/src/dns/dns.c
index 18ee0dc..4d0bcf5 100755
--- a/src/dns/dns.c
+++ b/src/dns/dns.c
@@ -48,6 +48,10 @@ static int dns_rec_add(char *query, char *addr, int msec) {
 int dns_rec_find(char *query, char *out_addr) {
     dns_cache_t *dnsc = ezhash_find(dns_ctx->dns_hash, query, strlen(query));
     if (dnsc) {
+        if (dnsc->expire_msec <= systime_msec()) { /// expired, need resolve again
+            ezhash_del(dns_ctx->dns_hash, query, strlen(query));
+            return -1;
+        }
         if (out_addr) memcpy(out_addr, dnsc->addr, 4);
         return 0;
     }
-- 
2.43.0


From 8b03f8af76e1606f6770b1ae0eb79eb06fc3eca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:40:42 +0000
Subject: [PATCH 48/78] fix: sweep expired dns cache entries, not the valid
 ones

---
 src/dns/dns.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dns/dns.c b/src/dns/dns.c
index 4d0bcf5..88715ff 100755
--- a/src/dns/dns.c
+++ b/src/dns/dns.c
@@ -71,7 +71,7 @@ void dns_rec_chk(void *data) {
 
                     ezhash_obj_t *obj = ptr_get_struct(p, ezhash_obj_t, queue);
                     dns_cache_t *dnsc = obj->val;
-                    if (dnsc->expire_msec > now) {
+                    if (dnsc->expire_msec <= now) {
                         if (obj->key) 
                             mem_pool_free(obj->key);
                         if (obj->val)
-- 
2.43.0


From 01b01a1b43f12d07a28e834035e0b3396791c7b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:41:30 +0000
Subject: [PATCH 49/78] fix: keep large dns ttl values from overflowing

---
 src/dns/dns.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dns/dns.c b/src/dns/dns.c
index 88715ff..516fb77 100755
--- a/src/dns/dns.c
+++ b/src/dns/dns.c
@@ -28,7 +28,7 @@ static void dns_cexp(void *data) {
     dns_async_result(dns, -1, NULL);
 }
 
-static int dns_rec_add(char *query, char *addr, int msec) {
+static int dns_rec_add(char *query, char *addr, long long msec) {
     dns_cache_t rdns = {0};
     
     strncpy(rdns.query, query, sizeof(rdns.query)-1);
@@ -151,7 +151,7 @@ int dns_response_analyze(con_t *c) {
                 /// do nothing, record already in cache 
             } else {
                 if (rttl > 0) {
-                    dns_rec_add((char*)dnsc->query, (char*)dnsc->answer.answer_addr, 1000*rttl);
+                    dns_rec_add((char*)dnsc->query, (char*)dnsc->answer.answer_addr, 1000LL*rttl);
                 }
             }
             memcpy(dnsc->result, dnsc->answer.answer_addr, 4);
-- 
2.43.0


From 239d3f4331f46308824d08f4c30ad9d5daf39c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:13:12 +0000
Subject: [PATCH 50/78] fix: release the local client too when the handshake
 with the tunnel server times out

---
 src/common/ssl.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/common/ssl.c b/src/common/ssl.c
index f033399..5d55caa 100755
--- a/src/common/ssl.c
+++ b/src/common/ssl.c
@@ -98,10 +98,21 @@ int ssl_shutdown(con_t *c) {
     return -1;
 }
 
+static void ssl_handshake_exp(void *data) {
+    con_t *c = data;
+    c->ssl->f_err = 1;
+    if (c->ssl->handshake_cb) {
+        ///the owner releases the connection and whatever belongs to it
+        c->ssl->handshake_cb(c);
+        return;
+    }
+    net_free(c);
+}
+
 static int ssl_handshake_cb(con_t *c) {
     int rc = ssl_handshake(c);
     if (rc == -11) {
-        EZ_TMADD(c, ssl_cexp, SSL_TMOUT);
+        EZ_TMADD(c, ssl_handshake_exp, SSL_TMOUT);
         return -11;
     }
 
-- 
2.43.0


From cb95b3724eb52c0813448a0fe6e830ba9355d7c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:18:02 +0000
Subject: [PATCH 51/78] fix: fail a dns request that can't be set up without
 crashing or leaking

---
 src/app/socks5.c | 2 +-
 src/dns/dns.c    | 5 ++---
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/app/socks5.c b/src/app/socks5.c
index 6231c23..cae22d8 100755
--- a/src/app/socks5.c
+++ b/src/app/socks5.c
@@ -126,7 +126,7 @@ void s5_cup_dns_cb(int status, unsigned char *result, void *data) {
         ses->cup->ev->write_cb(ses->cup);
     } else {
         err("TLS tunnel. dns resolv failed\n");
-        dns_free(dnsc);
+        if (dnsc) dns_free(dnsc);
         ses->dns = NULL;
         net_free(ses->cup);
         net_free(ses->cdown);
diff --git a/src/dns/dns.c b/src/dns/dns.c
index 516fb77..504aa50 100755
--- a/src/dns/dns.c
+++ b/src/dns/dns.c
@@ -306,7 +306,8 @@ static int dns_request_packet(con_t *c) {
 
 int dns_alloc(dnsc_t **outdns, char *domain, dns_async_cb cb, void *userdata) {
     dnsc_t * dns = mem_pool_alloc(sizeof(dnsc_t));
-    schk(dns, return -1);
+    *outdns = dns; ///set before any call of cb, cb frees it
+    schk(dns, {cb(-1, NULL, userdata); return -1;});
 
     dns->user_data = userdata;
     dns->cb = cb;
@@ -328,8 +329,6 @@ int dns_alloc(dnsc_t **outdns, char *domain, dns_async_cb cb, void *userdata) {
         schk(0 == net_socket_reuseaddr(dns->c->fd), break);
         schk(0 == net_socket_nbio(dns->c->fd), break);
 
-        *outdns = dns;
-
         memcpy(&dns->c->addr, &addr, sizeof(dns->c->addr));
         dns->c->ev->read_cb = NULL;
         dns->c->ev->write_cb = dns_request_packet;
-- 
2.43.0


From 74b7caf50b51740baa57d8d21f272df76a4acf41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:19:02 +0000
Subject: [PATCH 52/78] fix: don't free a web connection twice when its
 response head can't be allocated

---
 src/app/webser.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/app/webser.c b/src/app/webser.c
index a02ab87..063841a 100755
--- a/src/app/webser.c
+++ b/src/app/webser.c
@@ -292,7 +292,7 @@ static int webser_rsp_hdrp(con_t *c, const char * str, ...) {
 
 
     if (!webc->rsp_hdr) {
-        schk(0 == meta_alloc(&webc->rsp_hdr, 4096), {net_free(c);return -1;});
+        schk(0 == meta_alloc(&webc->rsp_hdr, 4096), return -1); ///caller frees c
     }
     meta_t * n = webc->rsp_hdr;
     meta_t * p = NULL;
@@ -304,9 +304,9 @@ static int webser_rsp_hdrp(con_t *c, const char * str, ...) {
         }
         n = n->next;
     }
-    schk(0 == meta_alloc(&n, 4096), {net_free(c);return -1;});
-    schk(0 == meta_pdata(n, buf, strlen(buf)), {net_free(c);return -1;});
+    schk(0 == meta_alloc(&n, 4096), return -1);
     p->next = n;
+    schk(0 == meta_pdata(n, buf, strlen(buf)), return -1);
     return 0;
 }
 
-- 
2.43.0


From cc063258b3f97342858f4caa5aa526f31745d3b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:21:53 +0000
Subject: [PATCH 53/78] fix: don't loop for ever over ssl errors left in the
 queue

---
 src/common/ssl.c | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/common/ssl.c b/src/common/ssl.c
index 5d55caa..76bc2b1 100755
--- a/src/common/ssl.c
+++ b/src/common/ssl.c
@@ -10,10 +10,6 @@ static g_ssl_t *g_ssl_ctx = NULL;
 
 #define ssl_clear_error()                   \
 {                                           \
-    unsigned long rc = 0;                   \
-    do {                                    \
-        rc = ERR_peek_error();              \
-    } while(rc);                            \
     ERR_clear_error();                      \
 }
 
-- 
2.43.0


From e54351b368956efd24557dc06768712bf6993f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:26:32 +0000
Subject: [PATCH 54/78] fix: keep accepting after one connection could not be
 accepted

---
 src/common/net.c | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/common/net.c b/src/common/net.c
index 3d768f6..47dd6e4 100755
--- a/src/common/net.c
+++ b/src/common/net.c
@@ -137,24 +137,29 @@ int net_accept(con_t *c) {
         cfd = accept(c->fd, (struct sockaddr *)&caddr, &caddrn);
         if (-1 == cfd) {
             if (errno == EWOULDBLOCK ||
-                errno == EAGAIN ||
-                errno == EINTR ||
+                errno == EAGAIN
+            ) {
+                return -11;
+            }
+            ///only this connection is lost, others may be waiting behind it
+            ///and there is no further event for them
+            if (errno == EINTR ||
                 errno == EPROTO ||
                 errno == ECONNABORTED
             ) {
-                return -11;
+                continue;
             }
             err("accept failed, [%d]\n", errno);
             return -1;
         }
-        schk(net_alloc(&cc) != -1, {close(cfd); return -1;});
+        schk(net_alloc(&cc) != -1, {close(cfd); continue;});
         memcpy(&cc->addr, &caddr, caddrn);
         cc->fd = cfd;
         
-        schk(net_socket_nbio(cc->fd) == 0, {net_free(cc); return -1;});
-        schk(net_socket_nodelay(cc->fd) == 0, {net_free(cc); return -1;});
-        schk(net_socket_fastopen(cc->fd) == 0, {net_free(cc); return -1;});
-        schk(net_socket_lowat_send(cc->fd) == 0, {net_free(cc); return -1;});
+        schk(net_socket_nbio(cc->fd) == 0, {net_free(cc); continue;});
+        schk(net_socket_nodelay(cc->fd) == 0, {net_free(cc); continue;});
+        schk(net_socket_fastopen(cc->fd) == 0, {net_free(cc); continue;});
+        schk(net_socket_lowat_send(cc->fd) == 0, {net_free(cc); continue;});
         
         cc->recv = recvs;
         cc->send = sends;
-- 
2.43.0


From 816f2219037ec81560046a55ba2cf3f6e40a7dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:36:50 +0000
Subject: [PATCH 55/78] fix: cache the callbacks of a waiting TLS handshake
 only once

---
 src/common/ssl.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/ssl.c b/src/common/ssl.c
index 76bc2b1..92244db 100755
--- a/src/common/ssl.c
+++ b/src/common/ssl.c
@@ -154,7 +154,7 @@ int ssl_handshake(con_t *c) {
     int sslerr = SSL_get_error(sslc->con, rc);
     if ((sslerr == SSL_ERROR_WANT_READ) || (sslerr == SSL_ERROR_WANT_WRITE)) {
 
-        if (!sslc->cc_ev_typ) { ///cache current event opt and callbacks
+        if (c->ev->read_cb != ssl_handshake_cb && c->ev->write_cb != ssl_handshake_cb) { ///cache current event opt and callbacks
             sslc->cc_ev_typ = c->ev->opt;
             sslc->cc_ev_cbr = c->ev->read_cb;
             sslc->cc_ev_cbw = c->ev->write_cb;
-- 
2.43.0


From d62e38233964417b25ee597c9245f7f491739201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 22:02:22 +0000
Subject: [PATCH 56/78] fix: resume both directions after a TLS renegotiation
 that had to wait

---
 src/common/ssl.c | 40 +++++++++++++++++++++++++++++-----------
 1 file changed, 29 insertions(+), 11 deletions(-)

diff --git a/src/common/ssl.c b/src/common/ssl.c
index 92244db..d28102c 100755
--- a/src/common/ssl.c
+++ b/src/common/ssl.c
@@ -174,19 +174,39 @@ int ssl_handshake(con_t *c) {
     return -1;
 }
 
-static int ssl_read_cb(con_t *c) { return c->ev->read_cb(c); }
+static int ssl_read_cb(con_t *c) { return c->ev->read_cb ? c->ev->read_cb(c) : -11; }
+
+static int ssl_write_cb(con_t *c) { return c->ev->write_cb ? c->ev->write_cb(c) : -11; }
+
+static void ssl_resume(con_t *c) {
+    ///renegotiation or key update is over. go back to the cached callbacks
+    ///and wake up both directions, each of them may have waited for it
+    ssl_con_t * sslc = c->ssl;
+    int opt = c->ev->opt;
+
+    if (c->ev->write_cb == ssl_read_cb) {
+        c->ev->write_cb = sslc->cc_ev_cbw;
+        sslc->cc_ev_cbw = NULL;
+    }
+    if (c->ev->read_cb == ssl_write_cb) {
+        c->ev->read_cb = sslc->cc_ev_cbr;
+        sslc->cc_ev_cbr = NULL;
+    }
+    ev_opt(c, EV_NONE);
+    ev_opt(c, opt);
+}
 
 int ssl_read(con_t *c, unsigned char *buf, int bufn) {
     ssl_con_t * sslc = c->ssl;
+    int waiting = SSL_in_init(sslc->con);
 
     ssl_clear_error();
 
     int rc = SSL_read(sslc->con, buf, bufn);
+    if (waiting && !SSL_in_init(sslc->con)) {
+        ssl_resume(c);
+    }
     if (rc > 0) {
-        if (c->ev->write_cb == ssl_read_cb) {
-            c->ev->write_cb = sslc->cc_ev_cbw;
-            sslc->cc_ev_cbw = NULL;
-        }
         return rc;
     }
     
@@ -211,18 +231,16 @@ int ssl_read(con_t *c, unsigned char *buf, int bufn) {
     return -1;
 }
 
-static int ssl_write_cb(con_t *c) { return c->ev->write_cb(c); }
-
 int ssl_write(con_t *c, unsigned char *data, int datan) {
     ssl_con_t * sslc = c->ssl;
+    int waiting = SSL_in_init(sslc->con);
 
     ssl_clear_error();
     int rc = SSL_write(sslc->con, data, datan);
+    if (waiting && !SSL_in_init(sslc->con)) {
+        ssl_resume(c);
+    }
     if (rc > 0) {
-        if (c->ev->read_cb == ssl_write_cb) {
-            c->ev->read_cb = sslc->cc_ev_cbr;
-            sslc->cc_ev_cbr = NULL;
-        }
         return rc;
     }
     
-- 
2.43.0


From 7ff373d84385b633a58e17df933376f60a305c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 22:48:06 +0000
Subject: [PATCH 57/78] fix: leave the id file alone when a worker ends

---
 src/main.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index c2af9a1..08e74cd 100755
--- a/src/main.c
+++ b/src/main.c
@@ -121,9 +121,11 @@ int main(int argc, char ** argv)
     schk(0 == proc_pid_create(), return -1);
     schk(0 == modules_core_init(), {unlink(S5_PATH_PID); return -1;});
 
+    pid_t pid = getpid();
     config_get()->sys_process_num > 0 ? proc_master_run() : proc_worker_run();
     modules_core_exit();
-    unlink(S5_PATH_PID);
+    if(pid == getpid()) ///a worker process ends here too, the file belongs to the master
+        unlink(S5_PATH_PID);
     return 0;
 }
 #endif
-- 
2.43.0


From 9b39627f8ad4a66ab717a1b5b6ce023a617ef211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 22:48:07 +0000
Subject: [PATCH 58/78] fix: signal all workers even if one of them is already
 gone

---
 src/common/process.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/common/process.c b/src/common/process.c
index 022b328..9eb5939 100755
--- a/src/common/process.c
+++ b/src/common/process.c
@@ -37,13 +37,16 @@ int proc_signal_send(pid_t pid, int32 signal) {
 
 static int proc_signal_bcast(int sig) {
     int i = 0;
+    int rc = 0;
     for (i = 0; i < config_get()->sys_process_num; i++) {
+        if (g_proc_ctx->processes[i].exited)
+            continue;
         if (-1 == proc_signal_send(g_proc_ctx->processes[i].pid, sig)) {
             err("broadcast signal failed\n");
-            return -1;
+            rc = -1; ///the others still have to be told
         }
     }
-    return 0;
+    return rc;
 }
 
 void proc_worker_run(void) {
-- 
2.43.0


From 72523d77baacab66203325668fafeef4737fd653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 22:48:08 +0000
Subject: [PATCH 59/78] fix: do not lose a reload request that arrives outside
 sigsuspend

---
 src/common/process.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/common/process.c b/src/common/process.c
index 9eb5939..e1d3122 100755
--- a/src/common/process.c
+++ b/src/common/process.c
@@ -90,6 +90,7 @@ void proc_master_run(void) {
     sigemptyset(&set);
     sigaddset(&set, SIGCHLD);
     sigaddset(&set, SIGINT);
+    sigaddset(&set, SIGHUP);
     sigaddset(&set, SIGUSR1);
     sigaddset(&set, SIGUSR2);
     if (sigprocmask(SIG_BLOCK, &set, NULL) == -1) {
-- 
2.43.0


From 73c10f0ca1f0d63d989754c355d85f58b34953db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:57:46 +0000
Subject: [PATCH 60/78] fix: refuse an absent text in cJSON_SetValuestring

---
 src/common/cJSON.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/common/cJSON.c b/src/common/cJSON.c
index cf2feb3..b4e5209 100755
--- a/src/common/cJSON.c
+++ b/src/common/cJSON.c
@@ -405,6 +405,10 @@ CJSON_PUBLIC(char*) cJSON_SetValuestring(cJSON *object, const char *valuestring)
     {
         return NULL;
     }
+    if ((valuestring == NULL) || (object->valuestring == NULL))
+    {
+        return NULL;
+    }
     if (strlen(valuestring) <= strlen(object->valuestring))
     {
         strcpy(object->valuestring, valuestring);
-- 
2.43.0


From e6f50630c1c8e42533ccf18e35fb185124709413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:58:18 +0000
Subject: [PATCH 61/78] fix: refuse an absent item in cJSON_InsertItemInArray

---
 src/common/cJSON.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/cJSON.c b/src/common/cJSON.c
index b4e5209..4d0974c 100755
--- a/src/common/cJSON.c
+++ b/src/common/cJSON.c
@@ -2273,7 +2273,7 @@ CJSON_PUBLIC(cJSON_bool) cJSON_InsertItemInArray(cJSON *array, int which, cJSON
 {
     cJSON *after_inserted = NULL;
 
-    if (which < 0)
+    if ((which < 0) || (newitem == NULL))
     {
         return false;
     }
-- 
2.43.0


From 1714944f520c6b0ecd19dcb591292b67dbf76c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:58:37 +0000
Subject: [PATCH 62/78] fix: release the reference when its member name cannot
 be copied

---
 src/common/cJSON.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/common/cJSON.c b/src/common/cJSON.c
index 4d0974c..0803180 100755
--- a/src/common/cJSON.c
+++ b/src/common/cJSON.c
@@ -2077,12 +2077,21 @@ CJSON_PUBLIC(cJSON_bool) cJSON_AddItemReferenceToArray(cJSON *array, cJSON *item
 
 CJSON_PUBLIC(cJSON_bool) cJSON_AddItemReferenceToObject(cJSON *object, const char *string, cJSON *item)
 {
+    cJSON *reference = NULL;
+
     if ((object == NULL) || (string == NULL))
     {
         return false;
     }
 
-    return add_item_to_object(object, string, create_reference(item, &global_hooks), &global_hooks, false);
+    reference = create_reference(item, &global_hooks);
+    if (add_item_to_object(object, string, reference, &global_hooks, false))
+    {
+        return true;
+    }
+
+    cJSON_Delete(reference);
+    return false;
 }
 
 CJSON_PUBLIC(cJSON*) cJSON_AddNullToObject(cJSON * const object, const char * const name)
-- 
2.43.0


From a6f59cceb68aef8c81a8f13765ba98f711ead2cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:07:39 +0000
Subject: [PATCH 63/78] fix: take timer time from the monotonic clock

---
 src/common/sys_time.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/common/sys_time.c b/src/common/sys_time.c
index d817754..93e623c 100755
--- a/src/common/sys_time.c
+++ b/src/common/sys_time.c
@@ -22,7 +22,12 @@ status systime_update(void) {
     gettimeofday(&tv, NULL);
     sec = tv.tv_sec;
     msec = tv.tv_usec / 1000;
-    time_msec = (sec * 1000) + msec;
+
+    /// timers must not follow the changes of the system clock
+    struct timespec mono;
+    memset(&mono, 0, sizeof(struct timespec));
+    clock_gettime(CLOCK_MONOTONIC, &mono);
+    time_msec = (mono.tv_sec * 1000LL) + (mono.tv_nsec / 1000000);
 
     struct tm gmt;
     gmtime_r(&sec, &gmt);
-- 
2.43.0


From 1ed406cbe0e622346b359555cc0213dc394c675a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:32:25 +0000
Subject: [PATCH 64/78] fix: keep accepting after a shortage of descriptors or
 memory

---
 src/common/net.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/common/net.c b/src/common/net.c
index 47dd6e4..a2ece94 100755
--- a/src/common/net.c
+++ b/src/common/net.c
@@ -124,6 +124,10 @@ int net_connect(con_t *c, struct sockaddr_in *addr) {
     }
 }
 
+static void net_accept_again(void *data) {
+    net_accept(data);
+}
+
 int net_accept(con_t *c) {
     listen_t *listen = c->data;
     int cfd = 0;
@@ -150,6 +154,9 @@ int net_accept(con_t *c) {
                 continue;
             }
             err("accept failed, [%d]\n", errno);
+            ///short of descriptors or memory. connections stay in the queue 
+            ///and there is no further event for them, try again later
+            EZ_TMADD(c, net_accept_again, 100);
             return -1;
         }
         schk(net_alloc(&cc) != -1, {close(cfd); continue;});
-- 
2.43.0


From b79910203b7f876f382f2333471391f49623f242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:47:14 +0000
Subject: [PATCH 65/78] fix: skip a byte order mark in front of a document of
 one character

---
 src/common/cJSON.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/cJSON.c b/src/common/cJSON.c
index 0803180..a59dc30 100755
--- a/src/common/cJSON.c
+++ b/src/common/cJSON.c
@@ -1072,7 +1072,7 @@ static parse_buffer *skip_utf8_bom(parse_buffer * const buffer)
         return NULL;
     }
 
-    if (can_access_at_index(buffer, 4) && (strncmp((const char*)buffer_at_offset(buffer), "\xEF\xBB\xBF", 3) == 0))
+    if (can_access_at_index(buffer, 2) && (strncmp((const char*)buffer_at_offset(buffer), "\xEF\xBB\xBF", 3) == 0))
     {
         buffer->offset += 3;
     }
-- 
2.43.0


From b2327c46aa718a0207f910b8660a86565364f60b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:19:10 +0000
Subject: [PATCH 66/78] fix: release the pool's lock when a free is refused

---
 src/common/mem.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/mem.c b/src/common/mem.c
index 4f93449..25ae679 100755
--- a/src/common/mem.c
+++ b/src/common/mem.c
@@ -124,7 +124,7 @@ int mem_pool_init(void) {
 int mem_pool_free(void *p) {
     pthread_mutex_lock(&g_mp_thread_lock);
     mem_obj_t * obj = ptr_get_struct(p, mem_obj_t, addr);
-    schk(obj->magic == MP_OBJ_MAGIC, return -1);
+    schk(obj->magic == MP_OBJ_MAGIC, {pthread_mutex_unlock(&g_mp_thread_lock); return -1;});
     queue_remove(&obj->queue);
     queue_insert_tail(&g_mem_ctx.blks[obj->blk_idx].usable, &obj->queue);
     pthread_mutex_unlock(&g_mp_thread_lock);
-- 
2.43.0


From 5edcf4e2be651ae1fd53906222f0c27587f58242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:23:46 +0000
Subject: [PATCH 67/78] fix: use only DNS responses that carry the request's id
 and question

---
 src/common/net_send.c | 18 +++++++-----------
 src/dns/dns.c         | 22 ++++++++++++++++++++--
 src/dns/dns.h         |  1 +
 3 files changed, 28 insertions(+), 13 deletions(-)

diff --git a/src/common/net_send.c b/src/common/net_send.c
index 12e63a9..99e524c 100755
--- a/src/common/net_send.c
+++ b/src/common/net_send.c
@@ -87,20 +87,16 @@ int udp_recvs(con_t *c, unsigned char *buf, int bufn)
 
     for (;;) {
         int recvd = recvfrom(c->fd, buf, bufn, 0, (struct sockaddr*)&c->addr, &socklen);
-        if (recvd <= 0) {
-            if (recvd == 0) {
-                return -1;
+        if (recvd < 0) {
+            if ((errno == EAGAIN) || (errno == EWOULDBLOCK)) {
+                return -11;
+            } else if (errno == EINTR) {
+                continue;
             } else {
-                if ((errno == EAGAIN) || (errno == EWOULDBLOCK)) {
-                    return -11;
-                } else if (errno == EINTR) {
-                    continue;
-                } else {
-                    return -1;
-                }
+                return -1;
             }
         }
-        return recvd;
+        return recvd; ///0 is an empty datagram
     };
 }
 
diff --git a/src/dns/dns.c b/src/dns/dns.c
index 504aa50..fdf3d36 100755
--- a/src/dns/dns.c
+++ b/src/dns/dns.c
@@ -165,6 +165,20 @@ int dns_response_analyze(con_t *c) {
     return -1;
 }
 
+/// @brief check that a response carries the id and the question of the request
+static int dns_response_match(dnsc_t *dnsc, meta_t *meta) {
+    unsigned char qname[512] = {0};
+    dns_header_t *header = (dns_header_t*)meta->pos;
+    int qname_len = dns_request_host2qname(dnsc->query, qname);
+
+    if (meta_getlen(meta) < sizeof(dns_header_t) + qname_len + sizeof(dns_question_t))
+        return 0;
+    if (header->id != htons(DNS_REQUEST_ID))
+        return 0;
+    /// label lengths are less than 'A', so that they are compared as they are
+    return 0 == strncasecmp((char*)meta->pos + sizeof(dns_header_t), (char*)qname, qname_len);
+}
+
 int dns_response_recv(con_t *c) {
     dnsc_t *dnsc = c->data;
     meta_t *meta = c->meta;
@@ -175,7 +189,7 @@ int dns_response_recv(con_t *c) {
 
     while (meta_getlen(meta) < want_len) {
         int size = udp_recvs(c, meta->last, meta_getfree(meta));
-        if (size <= 0) {
+        if (size < 0) {
             if (size == -11) {
                 // add timer for recv
                 EZ_TMADD(c, dns_cexp, DNS_TMOUT);
@@ -190,6 +204,10 @@ int dns_response_recv(con_t *c) {
             continue;
         }
         meta->last += size;
+        if (!dns_response_match(dnsc, meta)) {
+            /// not a response for this request, ignore it
+            meta_clr(meta);
+        }
     }
     EZ_TMDEL(c);
 
@@ -280,7 +298,7 @@ static int dns_request_packet(con_t *c) {
 
     /// fill in dns packet header 
     header = (dns_header_t*)meta->last;
-    header->id = (unsigned short)htons(0xbeef);
+    header->id = (unsigned short)htons(DNS_REQUEST_ID);
     header->flag = htons(0x100);
     header->question_count = htons(1);
     header->answer_count = 0;
diff --git a/src/dns/dns.h b/src/dns/dns.h
index 4ce31ed..25d715a 100755
--- a/src/dns/dns.h
+++ b/src/dns/dns.h
@@ -9,6 +9,7 @@ extern "C"
 
 #define DNS_TMOUT   5000
 #define DNS_METAN    1500
+#define DNS_REQUEST_ID 0xbeef
 #define DNS_TTL_MAX  (3600*1000*3)
 
 #pragma pack(push,1)
-- 
2.43.0


From f803e1cc92d6bb69d6ca1b21a9478c2d4f6de250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:23:46 +0000
Subject: [PATCH 68/78] fix: limit the wait for a DNS response as a whole

---
 src/dns/dns.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dns/dns.c b/src/dns/dns.c
index fdf3d36..03ab28f 100755
--- a/src/dns/dns.c
+++ b/src/dns/dns.c
@@ -191,8 +191,6 @@ int dns_response_recv(con_t *c) {
         int size = udp_recvs(c, meta->last, meta_getfree(meta));
         if (size < 0) {
             if (size == -11) {
-                // add timer for recv
-                EZ_TMADD(c, dns_cexp, DNS_TMOUT);
                 return -11;
             }
             err("dns recv response failed, errno [%d]\n", errno);
@@ -249,6 +247,8 @@ int dns_request_send(con_t *c) {
 
     meta_clr(meta);
     
+    /// add timer for recv
+    EZ_TMADD(c, dns_cexp, DNS_TMOUT);
     c->ev->write_cb = NULL;
     c->ev->read_cb = dns_response_recv;
     return c->ev->read_cb(c);
-- 
2.43.0


From bc7b8721ebdf9393214991c39c7e9e94df0f0300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:41:59 +0000
Subject: [PATCH 69/78] fix: signal only a process id that the id file really
 holds

The text of the file was taken as a number whatever it was. A damaged or
empty looking file gave 0, and the request went to the whole process group.
Negative and too large numbers reached other processes as well.
---
 src/common/process.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/common/process.c b/src/common/process.c
index e1d3122..68b8f03 100755
--- a/src/common/process.c
+++ b/src/common/process.c
@@ -23,10 +23,15 @@ status proc_pid(void) {
 
 int proc_pid_form_file(pid_t *pid) {
     char str[32] = {0};
+    char *end = NULL;
     int fd = open(S5_PATH_PID, O_RDONLY);
     schk(fd > 0, return -1);
-    schk(read(fd, str, sizeof(str)) > 0, {close(fd); return -1;});
-    *pid = strtol(str, NULL, 10);
+    ssize_t n = read(fd, str, sizeof(str));
+    close(fd);
+    schk(n > 0 && n < (ssize_t)sizeof(str), return -1); ///a full buffer has no end of string
+    long val = strtol(str, &end, 10);
+    schk(end != str && val > 0 && val <= INT_MAX, return -1); ///other values name groups of processes
+    *pid = (pid_t)val;
     return 0;
 }
 
-- 
2.43.0


From 70c1a8638e9e2c069239def32e0fbe041954ad89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:41:59 +0000
Subject: [PATCH 70/78] fix: leave the id file alone when a start fails

A start that could not open its ports had already overwritten the file, and
removed it. A server that was running could not be reloaded or stopped any
more.
---
 src/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index 08e74cd..7534056 100755
--- a/src/main.c
+++ b/src/main.c
@@ -118,8 +118,8 @@ int main(int argc, char ** argv)
 
     schk(0 == config_init(), return -1);
     schk(0 == proc_daemon(), return -1);
+    schk(0 == modules_core_init(), return -1); ///the file may still name a running server until here
     schk(0 == proc_pid_create(), return -1);
-    schk(0 == modules_core_init(), {unlink(S5_PATH_PID); return -1;});
 
     pid_t pid = getpid();
     config_get()->sys_process_num > 0 ? proc_master_run() : proc_worker_run();
-- 
2.43.0


From 7e2c6c573f75485af403cb3e3d1c0263bdab8d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:43:06 +0000
Subject: [PATCH 71/78] fix: do not start with a configuration that cannot be
 read

Reading the configuration always reported success. With a missing or broken
file the server ran without any port, and a server that was running before
lost its entry in the id file.
---
 src/common/config.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/common/config.c b/src/common/config.c
index a6e862a..a204edc 100755
--- a/src/common/config.c
+++ b/src/common/config.c
@@ -111,6 +111,7 @@ int config_init(void) {
     g_config.sys_log_level = 0xff; ///full level
 
     struct stat fstat;
+    int ret = -1;
     int rc = 0;
     int fsz = 0;
     int ffd = 0;
@@ -135,11 +136,12 @@ int config_init(void) {
         ahead_dbg("config string:\n");
         ahead_dbg("%s", fbuf);
         schk(0 == config_parse(fbuf), break);
+        ret = 0;
     } while(0);
     
     if (ffd) close(ffd);
     if (fbuf) sys_free(fbuf);
-    return 0;
+    return ret;
 }
 
 int config_end(void) { return OK; }
-- 
2.43.0


From 0ef536e3b6f2fb55e30808cb623c5c0a5535ce27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:45:04 +0000
Subject: [PATCH 72/78] fix: open every port of the configuration

Only eight ports were opened, the others were left out without a word. The
configuration can name 64 ports for each of the two lists.
---
 src/common/event.c  | 4 ++--
 src/common/listen.c | 8 ++++----
 src/common/listen.h | 4 +++-
 3 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/common/event.c b/src/common/event.c
index 313a390..d5f3d03 100755
--- a/src/common/event.c
+++ b/src/common/event.c
@@ -278,7 +278,7 @@ int ev_init(void) {
     /// listen fd set by SO_REUSEPORT. 
     /// kernel will be process listen fd loadbalance
     int i = 0;
-    for (i = 0; i < 8; i++) {
+    for (i = 0; i < LISTEN_MAX; i++) {
         if (g_listens[i].fuse) {
             
             schk(0 == net_alloc(&g_listens[i].c), return -1);
@@ -295,7 +295,7 @@ int ev_init(void) {
 
 int ev_exit(void) {
     int i = 0;
-    for (i = 0; i < 8; i++) {
+    for (i = 0; i < LISTEN_MAX; i++) {
         if (g_listens[i].fuse)
             net_free(g_listens[i].c);
     }
diff --git a/src/common/listen.c b/src/common/listen.c
index 188ca51..8661375 100755
--- a/src/common/listen.c
+++ b/src/common/listen.c
@@ -5,11 +5,11 @@
 #include "http_req.h"
 #include "webser.h"
 
-listen_t g_listens[8];
+listen_t g_listens[LISTEN_MAX];
 
 static int listen_add(unsigned short port, ev_cb cb, char fssl) {
     int i = 0;
-    for (i = 0; i < 8; i++) {
+    for (i = 0; i < LISTEN_MAX; i++) {
         if(!g_listens[i].fuse) {
             g_listens[i].port = port;
             g_listens[i].cb = cb;
@@ -49,7 +49,7 @@ static int listen_set_opt(listen_t *l) {
 
 int listen_start(void) {
     int i = 0;
-    for (i = 0; i < 8; i++) {
+    for (i = 0; i < LISTEN_MAX; i++) {
         if (g_listens[i].fuse) {
             schk(0 == listen_set_opt(&g_listens[i]), return -1);
         }
@@ -78,7 +78,7 @@ int listen_init(void) {
 
 status listen_end(void) {
     int i = 0;
-    for (i = 0; i < 8; i++) {
+    for (i = 0; i < LISTEN_MAX; i++) {
         if (g_listens[i].fuse) {
             if (g_listens[i].fd)
                 close(g_listens[i].fd);
diff --git a/src/common/listen.h b/src/common/listen.h
index 022452d..1c1e4b3 100755
--- a/src/common/listen.h
+++ b/src/common/listen.h
@@ -18,7 +18,9 @@ struct listen {
     char fssl:1;
 };
 
-extern listen_t g_listens[8];
+#define LISTEN_MAX (L_OPEN_PORT_MAX * 2 + 1) ///all ports a configuration can name
+
+extern listen_t g_listens[LISTEN_MAX];
 
 
 status listen_start(void);
-- 
2.43.0


From 725c5062768b1cf4e331c29b0c3af4e5e3fcc506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:49:08 +0000
Subject: [PATCH 73/78] fix: announce and send files of 2 GB and more

The size was kept in an int. Such files were announced with a negative or a
wrong length, or without any content.
---
 src/app/webser.c | 6 +++---
 src/app/webser.h | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/app/webser.c b/src/app/webser.c
index 063841a..b720637 100755
--- a/src/app/webser.c
+++ b/src/app/webser.c
@@ -208,8 +208,8 @@ static int webser_rsp_payload_send_ff(con_t *c) {
             meta_clr(meta);
             int readn = read(webc->ffd, meta->last, meta_getfree(meta));
             if (readn <= 0) {
-                err("webserv rff err. [%d] [%d] [%d]\n",
-                    errno, webc->fsend, webc->fsize);
+                err("webserv rff err. [%d] [%ld] [%ld]\n",
+                    errno, (long)webc->fsend, (long)webc->fsize);
                 net_free(c);
                 return -1;
             }
@@ -336,7 +336,7 @@ int webser_rsp(con_t *c, int rcode, char *exthdr, void *payload, int payloadn) {
         schk(0 == webser_rsp_hdrp(c, "Server: s5\r\n"), break);
         schk(0 == webser_rsp_hdrp(c, "Date: %s\r\n", systime_gmt()), break);    
         schk(0 == webser_rsp_hdrp(c, "Connection: %s\r\n", webc->webreq->fkeepalive ? "keep-alive" : "close"), break);
-        schk(0 == webser_rsp_hdrp(c, "Content-Length: %d\r\n", (webc->type == WEBSER_FILE) ? webc->fsize : meta_getlens(webc->rsp_payload)), break);
+        schk(0 == webser_rsp_hdrp(c, "Content-Length: %ld\r\n", (webc->type == WEBSER_FILE) ? (long)webc->fsize : (long)meta_getlens(webc->rsp_payload)), break);
         if (exthdr) {
             schk(0 == webser_rsp_hdrp(c, "%s", exthdr), break);
         }
diff --git a/src/app/webser.h b/src/app/webser.h
index bf216ec..75cb9ff 100755
--- a/src/app/webser.h
+++ b/src/app/webser.h
@@ -26,8 +26,8 @@ typedef struct {
        
     // static file data
     int ffd;        // file fd  
-    int fsize;      // file allsize
-    int fsend;      // file sendsize
+    off_t fsize;      // file allsize
+    off_t fsend;      // file sendsize
 
     // api data
     webser_api_t * api;
-- 
2.43.0


From 4d5169fa0dcfacb7020c46cf4df5c0ba57e7755e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:49:08 +0000
Subject: [PATCH 74/78] fix: never send more of a file than was announced

A file that grew while it was sent made the last block longer than the
announced length. The client took the surplus for the next response.
---
 src/app/webser.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/app/webser.c b/src/app/webser.c
index b720637..9d3cf91 100755
--- a/src/app/webser.c
+++ b/src/app/webser.c
@@ -206,7 +206,8 @@ static int webser_rsp_payload_send_ff(con_t *c) {
         
         if (meta_getlen(meta) == 0) { ///a partial send doesn't need more data from file
             meta_clr(meta);
-            int readn = read(webc->ffd, meta->last, meta_getfree(meta));
+            off_t left = webc->fsize - webc->fsend; ///the file may have grown since its size was announced
+            int readn = read(webc->ffd, meta->last, left < meta_getfree(meta) ? left : meta_getfree(meta));
             if (readn <= 0) {
                 err("webserv rff err. [%d] [%ld] [%ld]\n",
                     errno, (long)webc->fsend, (long)webc->fsize);
-- 
2.43.0


From 84d8ef27e617790626e92d060e8bfe3f29d3f4ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:42:07 +0000
Subject: [PATCH 75/78] fix: search and free binary trees of any shape

Lookup and release kept the nodes still to visit in a fixed array of 8192
entries, which a long chain with leaves on the other side overflows.
Lookup now follows the order of the keys and release the parent links.
---
 src/common/util/bst.c | 56 +++++++++++++++++++------------------------
 1 file changed, 25 insertions(+), 31 deletions(-)

diff --git a/src/common/util/bst.c b/src/common/util/bst.c
index fa6e49e..0f5060f 100755
--- a/src/common/util/bst.c
+++ b/src/common/util/bst.c
@@ -15,21 +15,25 @@ int bst_create(bst_t ** bst)
 
 int bst_free(bst_t * bst)
 {
-    bst_node_t * stack[8192] = {NULL};
-    int stackn = 0;
-
-    if(bst->head.left)
-        stack[stackn++] = bst->head.left;
-    if(bst->head.right)
-        stack[stackn++] = bst->head.right;
-
-    while(stackn > 0) {
-        bst_node_t * n = stack[--stackn];
-        if(n->left)
-            stack[stackn++] = n->left;
-        if(n->right)
-            stack[stackn++] = n->right;
-        sys_free(n);
+    bst_node_t * n = &bst->head;
+
+    ///go down to a leaf, free it, go on with its parent
+    while(n) {
+        if(n->left) {
+            n = n->left;
+        } else if(n->right) {
+            n = n->right;
+        } else if(n != &bst->head) {
+            bst_node_t * p = n->parent;
+            if(n->type == BST_LEFT)
+                p->left = NULL;
+            else
+                p->right = NULL;
+            sys_free(n);
+            n = p;
+        } else {
+            break;
+        }
     }
     return 0;
 }
@@ -77,22 +81,12 @@ bst_node_t * bst_min(bst_node_t * n)
 
 bst_node_t * bst_find(bst_t * bst, long long key)
 {
-    bst_node_t * stack[8192] = {NULL};
-    int stackn = 0;
-
-    ///head is not an element
-    if(bst->head.left)
-        stack[stackn++] = bst->head.left;
-    if(bst->head.right)
-        stack[stackn++] = bst->head.right;
-
-    while(stackn > 0) {
-        bst_node_t * n = stack[--stackn];
-        if(n->num == key) return n;
-        if(n->left)
-            stack[stackn++] = n->left;
-        if(n->right)
-            stack[stackn++] = n->right;
+    bst_node_t * n = &bst->head;
+
+    while(n) {
+        ///head is not an element
+        if(n != &bst->head && n->num == key) return n;
+        n = (key > n->num) ? n->right : n->left;
     }
     return NULL;
 }
-- 
2.43.0


From 6174db96b851f1b161a34fa5666aa4294c6e2fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:42:07 +0000
Subject: [PATCH 76/78] fix: free key sets of any shape

The nodes still to free were kept in a fixed array of 4096 entries, which
keys that branch widely at many depths overflow. They are linked instead.
---
 src/common/aho_corasick.c | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/common/aho_corasick.c b/src/common/aho_corasick.c
index a507828..04698ee 100755
--- a/src/common/aho_corasick.c
+++ b/src/common/aho_corasick.c
@@ -1,16 +1,19 @@
 #include "common.h"
 
 int ezac_node_free(ezac_node_t *root) {
-    ezac_node_t *stack[4096] = {0};
-    int stackn = 0;
+    ezac_node_t *top = root;
     int i = 0;
 
-    stack[stackn++] = root;
-    while (stackn > 0) {
-        ezac_node_t * p = stack[--stackn];
+    ///nodes still to free are linked by next
+    root->next = NULL;
+    while (top) {
+        ezac_node_t * p = top;
+        top = p->next;
         for (i = 0; i < EZAC_MAX; i++) {
-            if (p->arr[i])
-                stack[stackn++] = p->arr[i];
+            if (p->arr[i]) {
+                p->arr[i]->next = top;
+                top = p->arr[i];
+            }
         }
         if (p != root)
             sys_free(p);
-- 
2.43.0


From 4ee3f38ec86f27a31a31bdd37cc5b3ca1b52e495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:45:55 +0000
Subject: [PATCH 77/78] fix: keep remembered names from using up the memory
 pool

Every resolved name stays in the cache for its time to live and takes
three blocks of the pool. After about 660 names no small block was left
and the worker could not serve any connection. Remember at most 256
names.
---
 src/dns/dns.c | 10 ++++++++--
 src/dns/dns.h |  1 +
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/dns/dns.c b/src/dns/dns.c
index 03ab28f..af12b55 100755
--- a/src/dns/dns.c
+++ b/src/dns/dns.c
@@ -11,6 +11,7 @@ typedef struct dns_cache_s {
 
 typedef struct dns_ctx_s {
     ezhash_t *dns_hash;
+    int dns_num;
     ev_timer_t dns_timer;
 } dns_ctx_t;
 static dns_ctx_t *dns_ctx = NULL;
@@ -40,7 +41,10 @@ static int dns_rec_add(char *query, char *addr, long long msec) {
         msec = DNS_TTL_MAX;
     rdns.expire_msec = systime_msec() + msec;
 
-    ezhash_add(dns_ctx->dns_hash, query, strlen(query), &rdns, sizeof(dns_cache_t));
+    if (dns_ctx->dns_num >= DNS_CACHE_MAX || ezhash_find(dns_ctx->dns_hash, query, strlen(query)))
+        return 0;
+    if (0 == ezhash_add(dns_ctx->dns_hash, query, strlen(query), &rdns, sizeof(dns_cache_t)))
+        dns_ctx->dns_num++;
     ///dbg("dns cache add entry: [%s]. ttl [%d] msec\n", query, msec);
     return 0;
 }
@@ -49,7 +53,8 @@ int dns_rec_find(char *query, char *out_addr) {
     dns_cache_t *dnsc = ezhash_find(dns_ctx->dns_hash, query, strlen(query));
     if (dnsc) {
         if (dnsc->expire_msec <= systime_msec()) { /// expired, need resolve again
-            ezhash_del(dns_ctx->dns_hash, query, strlen(query));
+            if (0 == ezhash_del(dns_ctx->dns_hash, query, strlen(query)))
+                dns_ctx->dns_num--;
             return -1;
         }
         if (out_addr) memcpy(out_addr, dnsc->addr, 4);
@@ -78,6 +83,7 @@ void dns_rec_chk(void *data) {
                             mem_pool_free(obj->val);
                         queue_remove(&obj->queue);
                         mem_pool_free(obj);
+                        dns_ctx->dns_num--;
                     }
                     
                     p = n;
diff --git a/src/dns/dns.h b/src/dns/dns.h
index 25d715a..65be1b6 100755
--- a/src/dns/dns.h
+++ b/src/dns/dns.h
@@ -11,6 +11,7 @@ extern "C"
 #define DNS_METAN    1500
 #define DNS_REQUEST_ID 0xbeef
 #define DNS_TTL_MAX  (3600*1000*3)
+#define DNS_CACHE_MAX  256   ///each entry takes three blocks of the memory pool
 
 #pragma pack(push,1)
 /// dns format in here
-- 
2.43.0


From 6fd378a3112b21734ff1f141a3ce4438ebba7301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:55:06 +0000
Subject: [PATCH 78/78] fix: try again to start a worker when fork failed

A worker that could not be forked stayed missing until the next signal, and
a failure at start-up ended the master while the workers already started
went on without it.
---
 src/common/process.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/common/process.c b/src/common/process.c
index 68b8f03..ec50389 100755
--- a/src/common/process.c
+++ b/src/common/process.c
@@ -94,6 +94,7 @@ void proc_master_run(void) {
     ///signal will be reprocess when blocking is remove
     sigemptyset(&set);
     sigaddset(&set, SIGCHLD);
+    sigaddset(&set, SIGALRM);
     sigaddset(&set, SIGINT);
     sigaddset(&set, SIGHUP);
     sigaddset(&set, SIGUSR1);
@@ -106,7 +107,9 @@ void proc_master_run(void) {
     for (i = 0; i < config_get()->sys_process_num; i++) { /// start worker process
         if (-1 == proc_fork(&g_proc_ctx->processes[i])) {
             err("process spawn number [%d] child failed, errno [%d]\n", i, errno);
-            return;
+            g_proc_ctx->processes[i].exited = 1;
+            alarm(1); ///try again later
+            continue;
         }
         if (g_proc_ctx->process_id != L_PROCESS_MASTER)
             return;
@@ -140,6 +143,7 @@ void proc_master_run(void) {
                     if (!g_proc_ctx->sig_quit) {  ///if master not recived sigint, just to restart the child process
                         if (-1 == proc_fork( &g_proc_ctx->processes[i])) {
                             err("proc_fork index [%d] failed, [%d]\n", i, errno);
+                            alarm(1); ///try again later
                             continue;
                         }
 
@@ -195,6 +199,8 @@ void proc_signal_cb(int signal) {
         } else if(signal == SIGCHLD) {
             g_proc_ctx->sig_reap = 1;
             proc_waitpid();
+        } else if (signal == SIGALRM) {
+            g_proc_ctx->sig_reap = 1;
         } else if (signal == SIGHUP) {
             g_proc_ctx->sig_reload = 1;
         }
@@ -212,6 +218,7 @@ status proc_signal_init(void) {
         SIGINT,
         SIGHUP,
         SIGCHLD,
+        SIGALRM,
         SIGPIPE,
         SIGUSR1,
         SIGUSR2,
-- 
2.43.0

