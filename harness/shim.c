#include "common.h"
#include "shim.h"
#undef err
#undef dbg

int sh_max_con(void) { return MAX_NET_CON; } int sh_log_text(void) { return LOG_TEXT_LENGTH; } int sh_open_port_max(void) { return L_OPEN_PORT_MAX; } int sh_path_max(void) { return FILEPATH_LENGTH; }
int sh_pool_init(void) { return mem_pool_init(); } void *sh_sys_alloc(int n) { return sys_alloc(n); } void sh_sys_free(void *p) { sys_free(p); }

size_t sh_timer_size(void) { return sizeof(ev_timer_t); }
int sh_tm_add(void *t, void (*cb)(void *), void *d, int ms) { return tm_add(t, cb, d, ms); } int sh_tm_del(void *t) { return tm_del(t); } int sh_timer_expire(int *w) { return timer_expire(w); } int sh_timer_init(void) { return timer_init(); }
void sh_systime_update(void) { systime_update(); } long long sh_systime_msec(void) { return systime_msec(); } const char *sh_systime_log(void) { return (const char *)systime_log(); } const char *sh_systime_gmt(void) { return (const char *)systime_gmt(); }

void *sh_heap_new(int n) { heap_t *h = NULL; heap_create(&h, n); return h; } void sh_heap_free(void *h) { heap_free(h); } int sh_heap_add(void *h, void *n) { return heap_add(h, n); } int sh_heap_del(void *h, void *n) { return heap_del(h, ((heap_node_t *)n)->index); } void *sh_heap_min(void *h) { return heap_min(h); }
size_t sh_heap_node_size(void) { return sizeof(heap_node_t); } void sh_heap_key(void *n, long long k) { ((heap_node_t *)n)->key = k; } long long sh_heap_getkey(void *n) { return ((heap_node_t *)n)->key; }

void *sh_hash_new(int n) { ezhash_t *h = NULL; return ezhash_create(&h, n) == 0 ? h : NULL; } void sh_hash_free(void *h) { ezhash_free(h); } void *sh_hash_find(void *h, void *k, int n) { return ezhash_find(h, k, n); }
int sh_hash_add(void *h, void *k, int n, void *v, int vn) { return ezhash_add(h, k, n, v, vn); } int sh_hash_del(void *h, void *k, int n) { return ezhash_del(h, k, n); }

void *sh_ac_new(void) { return ezac_init(); } void sh_ac_free(void *a) { ezac_free(a); } int sh_ac_add(void *a, char *d, int n) { return ezac_add(a, d, n); } int sh_ac_build(void *a) { return ezac_compiler(a); } int sh_ac_reset(void *a) { return ezac_reset(a); } int sh_ac_find(void *a, char *d, int n) { return ezac_find(a, d, n); }

void *sh_rb_new(int n) { ringbuffer_t *r = NULL; return ringbuffer_alloc(&r, n) == 0 ? r : NULL; } void sh_rb_free(void *r) { ringbuffer_free(r); } int sh_rb_push(void *r, const void *d, int n) { return ringbuffer_push(r, (unsigned char *)d, n); } int sh_rb_pull(void *r, int n, void *d, int *o) { return ringbuffer_pull(r, n, d, o); } int sh_rb_len(void *r) { return ringbuffer_getlen(r); } int sh_rb_room(void *r) { return ringbuffer_getfree(r); }

void *sh_bst_new(void) { bst_t *b = NULL; return bst_create(&b) == 0 ? b : NULL; } void sh_bst_free(void *b) { bst_free(b); } int sh_bst_add(void *b, long long k) { return bst_add(b, k); } int sh_bst_del(void *b, long long k) { return bst_del(b, k); }
int sh_bst_find(void *b, long long k, long long *key) { bst_node_t *n = bst_find(b, k); if (!n) return 0; *key = n->num; return 1; }
int sh_bst_count(void *b) { return ((bst_t *)b)->elem_num; }
// in-order walk of the nodes below the head (the head is no element)
long sh_bst_inorder(void *b, long long *out, long max) {
    bst_t *t = b; bst_node_t *n = &t->head, **st = malloc((max + 16) * sizeof *st); long k = 0, top = 0;
    while ((n || top) && k <= max) {
        if (n) { if (top >= max + 16) break; st[top++] = n; n = n->left; continue; }
        n = st[--top]; if (n != &t->head) { if (k < max) out[k] = n->num; k++; } n = n->right;
    }
    free(st); return n || top ? -1 : k;
}
int sh_bst_min(void *b, long long *out) { bst_t *t = b; if (!t->head.right) return 0; *out = bst_min(t->head.right)->num; return 1; }

size_t sh_q_size(void) { return sizeof(queue_t); } void sh_q_init(void *q) { queue_init(q); } void sh_q_insert(void *h, void *q) { queue_insert(h, q); } void sh_q_tail_insert(void *h, void *q) { queue_insert_tail(h, q); } void sh_q_remove(void *q) { queue_remove(q); } int sh_q_empty(void *h) { return queue_empty(h); } void *sh_q_head(void *h) { return queue_head(h); } void *sh_q_next(void *q) { return queue_next(q); } void *sh_q_prev(void *q) { return queue_prev(q); } void *sh_q_tail(void *h) { return queue_tail(h); }
void *sh_arr_new(int sz) { mem_arr_t *a = NULL; return mem_arr_create(&a, sz) == 0 ? a : NULL; } void *sh_arr_push(void *a) { return mem_arr_push(a); } void *sh_arr_get(void *a, int i) { return mem_arr_get(a, i); } int sh_arr_num(void *a) { return ((mem_arr_t *)a)->elem_num; } void sh_arr_free(void *a) { mem_arr_free(a); }
int sh_list_push(void **h, char *d) { return mem_list_push((mem_list_t **)h, d); } void sh_list_free(void *h) { mem_list_free(h); } void *sh_list_next(void *l) { return ((mem_list_t *)l)->next; } int sh_list_len(void *l) { return ((mem_list_t *)l)->datan; } const char *sh_list_data(void *l) { return ((mem_list_t *)l)->data; }
void *sh_meta_new(int cap) { meta_t *m = NULL; return meta_alloc(&m, cap) == 0 ? m : NULL; } void sh_meta_free(void *m) { meta_free(m); } void sh_meta_link(void *a, void *b) { ((meta_t *)a)->next = b; } int sh_meta_put(void *m, void *d, int n) { return meta_pdata(m, d, n); } int sh_meta_lens(void *m) { return meta_getlens(m); } int sh_meta_len(void *m) { return meta_getlen((meta_t *)m); } int sh_meta_room(void *m) { return meta_getfree((meta_t *)m); } int sh_meta_cap(void *m) { return meta_cap((meta_t *)m); } void sh_meta_consume(void *m, int n) { ((meta_t *)m)->pos += n; } void *sh_meta_dump(void *m) { return meta_dump(m); } const unsigned char *sh_meta_pos(void *m) { return ((meta_t *)m)->pos; } void sh_meta_clear(void *m) { meta_clr((meta_t *)m); }
const unsigned char *sh_find(const unsigned char *s, unsigned n, const unsigned char *f, unsigned m) { return l_find_str((unsigned char *)s, n, (unsigned char *)f, m); }

int sh_cfb(int dec, unsigned char *in, int n, unsigned char *out) { return dec ? aes_cfb_decrypt(in, n, out) : aes_cfb_encrypt(in, n, out); }
void *sh_gcm_new(int typ) { sys_cipher_t *c = NULL; return sys_aesgcm_ctx_init(&c, typ) == 0 ? c : NULL; } void sh_gcm_free(void *c) { sys_aesgcm_ctx_exit(c); } int sh_gcm(void *c, int dec, unsigned char *in, int n, unsigned char *out, char *tag) { return dec ? sys_aesgcm_dec(c, in, n, out, tag) : sys_aesgcm_enc(c, in, n, out, tag); } int sh_rand16(char *o) { return sys_genrand_16byte(o); }

int sh_config_init(void) { return config_init(); }
long long sh_cfg_num(const char *f) {
    config_t *c = config_get();
#define N(k, v) if (!strcmp(f, k)) return v
    N("sys_daemon", c->sys_daemon); N("sys_process", c->sys_process_num); N("sys_log_level", c->sys_log_level); N("s5_mode", c->s5_mode); N("s5_serv_port", c->s5_serv_port); N("s5_local_port", c->s5_local_port); N("s5_local_serv_port", c->s5_local_serv_port); N("http_num", c->http_num); N("https_num", c->https_num);
    abort();
}
const char *sh_cfg_str(const char *f) {
    config_t *c = config_get();
    N("ssl_crt_path", c->ssl_crt_path); N("ssl_key_path", c->ssl_key_path); N("s5_serv_auth_path", c->s5_serv_auth_path); N("s5_serv_gw", c->s5_serv_gw); N("s5_local_serv_ip", c->s5_local_serv_ip); N("s5_local_auth", c->s5_local_auth); N("http_home", c->http_home); N("http_index", c->http_index);
    abort();
}
int sh_cfg_ports(int https, int *out, int max) { config_t *c = config_get(); int n = https ? c->https_num : c->http_num; for (int i = 0; i < n && i < max && i < L_OPEN_PORT_MAX; i++) out[i] = https ? c->https_arr[i] : c->http_arr[i]; return n; }
void sh_cfg_loglevel(int l) { config_get()->sys_log_level = l; }
int sh_log_init(void) { return log_init(); } int sh_log_end(void) { return log_end(); }
int sh_log(int access, int level, const char *func, int line, const char *text) { return log_print(access ? LOG_ID_ACCESS : LOG_ID_MAIN, level, func, line, "%s", text); }
int sh_log_d(int access, int level, const char *func, int line, int d, const char *text) { return log_print(access ? LOG_ID_ACCESS : LOG_ID_MAIN, level, func, line, "[%d] %s\n", d, text); }
