// Flat view of the program's utility modules for checks that call them directly.
// shim.c includes the program's own headers; the checks see opaque pointers only.
#pragma once
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
// constants
int sh_max_con(void), sh_log_text(void), sh_open_port_max(void), sh_path_max(void);
// memory
void *__real_mem_pool_alloc(int); int __real_mem_pool_free(void *);
int sh_pool_init(void); void *sh_sys_alloc(int); void sh_sys_free(void *);
// timers and clock
size_t sh_timer_size(void);
int sh_tm_add(void *t, void (*cb)(void *), void *d, int ms), sh_tm_del(void *t), sh_timer_expire(int *w), sh_timer_init(void);
void sh_systime_update(void); long long sh_systime_msec(void); const char *sh_systime_log(void), *sh_systime_gmt(void);
// heap
void *sh_heap_new(int n); void sh_heap_free(void *); int sh_heap_add(void *h, void *node), sh_heap_del(void *h, void *node); void *sh_heap_min(void *h);
size_t sh_heap_node_size(void); void sh_heap_key(void *n, long long k); long long sh_heap_getkey(void *n);
// hash
void *sh_hash_new(int n); void sh_hash_free(void *); void *sh_hash_find(void *, void *, int); int sh_hash_add(void *, void *, int, void *, int), sh_hash_del(void *, void *, int);
// multi-key search
void *sh_ac_new(void); void sh_ac_free(void *); int sh_ac_add(void *, char *, int), sh_ac_build(void *), sh_ac_reset(void *), sh_ac_find(void *, char *, int);
// ring buffer
void *sh_rb_new(int n); void sh_rb_free(void *); int sh_rb_push(void *, const void *, int), sh_rb_pull(void *, int, void *, int *), sh_rb_len(void *), sh_rb_room(void *);
// search tree
void *sh_bst_new(void); void sh_bst_free(void *); int sh_bst_add(void *, long long), sh_bst_del(void *, long long); int sh_bst_find(void *, long long, long long *key);
int sh_bst_count(void *); long sh_bst_inorder(void *, long long *out, long max); int sh_bst_min(void *, long long *out);
// queue
size_t sh_q_size(void); void sh_q_init(void *), sh_q_insert(void *, void *), sh_q_tail_insert(void *, void *), sh_q_remove(void *); int sh_q_empty(void *); void *sh_q_head(void *), *sh_q_next(void *), *sh_q_prev(void *), *sh_q_tail(void *);
// array, list, chained buffer, substring
void *sh_arr_new(int sz); void *sh_arr_push(void *), *sh_arr_get(void *, int); int sh_arr_num(void *); void sh_arr_free(void *);
int sh_list_push(void **, char *); void sh_list_free(void *); void *sh_list_next(void *); int sh_list_len(void *); const char *sh_list_data(void *);
void *sh_meta_new(int cap); void sh_meta_free(void *); void sh_meta_link(void *, void *); int sh_meta_put(void *, void *, int); int sh_meta_lens(void *), sh_meta_len(void *), sh_meta_room(void *), sh_meta_cap(void *); void sh_meta_consume(void *, int); void *sh_meta_dump(void *); const unsigned char *sh_meta_pos(void *); void sh_meta_clear(void *);
const unsigned char *sh_find(const unsigned char *, unsigned, const unsigned char *, unsigned);
// ciphers
int sh_cfb(int dec, unsigned char *in, int n, unsigned char *out); void *sh_gcm_new(int typ); void sh_gcm_free(void *); int sh_gcm(void *, int dec, unsigned char *in, int n, unsigned char *out, char *tag); int sh_rand16(char *out);
// configuration and log
int sh_config_init(void); long long sh_cfg_num(const char *field); const char *sh_cfg_str(const char *field); int sh_cfg_ports(int https, int *out, int max); void sh_cfg_loglevel(int);
int sh_log_init(void), sh_log_end(void); int sh_log(int access, int level, const char *func, int line, const char *text); int sh_log_d(int access, int level, const char *func, int line, int d, const char *text);
#ifdef __cplusplus
}
#endif
