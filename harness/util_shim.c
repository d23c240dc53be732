/* C side of the utility checks: the helpers are headers and internal
 * interfaces that only compile as C.  Built with the same flags and the same
 * replaced allocator as the library. */
#include <errno.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <sys/uio.h>
#include "libtsm.h"
#include "libtsm-int.h"
#include "shl-array.h"
#include "shl-htable.h"
#include "shl-ring.h"

/* symbols */
int u_sym_new(void **t) { return tsm_symbol_table_new((struct tsm_symbol_table **)t); }
void u_sym_ref(void *t) { tsm_symbol_table_ref(t); }
void u_sym_unref(void *t) { tsm_symbol_table_unref(t); }
uint32_t u_sym_make(uint32_t c) { return tsm_symbol_make(c); }
uint32_t u_sym_append(void *t, uint32_t s, uint32_t c) { return tsm_symbol_append(t, s, c); }
const uint32_t *u_sym_get(void *t, uint32_t *s, size_t *n) { return tsm_symbol_get(t, s, n); }
unsigned u_sym_width(void *t, uint32_t s) { return tsm_symbol_get_width(t, s); }

/* hash table */
void *u_ht_new(bool (*cmp)(const void *, const void *), size_t (*hash)(const void *, void *), void *priv)
{
	struct shl_htable *h = malloc(sizeof *h);
	if (h) shl_htable_init(h, cmp, hash, priv);
	return h;
}
void u_ht_free(void *h, void (*cb)(void *, void *), void *ctx) { shl_htable_clear(h, cb, ctx); free(h); }
void u_ht_clear(void *h, void (*cb)(void *, void *), void *ctx) { shl_htable_clear(h, cb, ctx); }
void u_ht_visit(void *h, void (*cb)(void *, void *), void *ctx) { shl_htable_visit(h, cb, ctx); }
bool u_ht_lookup(void *h, const void *o, size_t hash, void **out) { return shl_htable_lookup(h, o, hash, out); }
int u_ht_insert(void *h, const void *o, size_t hash) { return shl_htable_insert(h, o, hash); }
bool u_ht_remove(void *h, const void *o, size_t hash, void **out) { return shl_htable_remove(h, o, hash, out); }
/* both ways to initialize */
void *u_hts_new(bool stat) { struct shl_htable *h = malloc(sizeof *h); if (h && stat) { struct shl_htable i = SHL_HTABLE_INIT_STR(*h); *h = i; } else if (h) shl_htable_init_str(h); return h; }
void *u_htu_new(bool stat) { struct shl_htable *h = malloc(sizeof *h); if (h && stat) { struct shl_htable i = SHL_HTABLE_INIT_ULONG(*h); *h = i; } else if (h) shl_htable_init_ulong(h); return h; }
void u_hts_visit(void *h, void (*cb)(char **, void *), void *ctx) { shl_htable_visit_str(h, cb, ctx); }
void u_hts_clear(void *h, void (*cb)(char **, void *), void *ctx) { shl_htable_clear_str(h, cb, ctx); }
void u_htu_visit(void *h, void (*cb)(unsigned long *, void *), void *ctx) { shl_htable_visit_ulong(h, cb, ctx); }
void u_htu_clear(void *h, void (*cb)(unsigned long *, void *), void *ctx) { shl_htable_clear_ulong(h, cb, ctx); }
bool u_hts_lookup(void *h, const char *s, size_t *hash, char ***out) { return shl_htable_lookup_str(h, s, hash, out); }
int u_hts_insert(void *h, char **s, size_t *hash) { return shl_htable_insert_str(h, s, hash); }
bool u_hts_remove(void *h, const char *s, size_t *hash, char ***out) { return shl_htable_remove_str(h, s, hash, out); }
bool u_htu_lookup(void *h, unsigned long k, unsigned long **out) { return shl_htable_lookup_ulong(h, k, out); }
int u_htu_insert(void *h, const unsigned long *k) { return shl_htable_insert_ulong(h, k); }
bool u_htu_remove(void *h, unsigned long k, unsigned long **out) { return shl_htable_remove_ulong(h, k, out); }

/* ring */
void *u_ring_new(void) { return calloc(1, sizeof(struct shl_ring)); }
void u_ring_free(void *r) { shl_ring_clear(r); free(r); }
void u_ring_clear(void *r) { shl_ring_clear(r); }
void u_ring_flush(void *r) { shl_ring_flush(r); }
size_t u_ring_peek(void *r, struct iovec *v) { return shl_ring_peek(r, v); }
size_t u_ring_copy(void *r, void *b, size_t n) { return shl_ring_copy(r, b, n); }
int u_ring_push(void *r, const void *b, size_t n) { return shl_ring_push(r, b, n); }
void u_ring_pull(void *r, size_t n) { shl_ring_pull(r, n); }
size_t u_ring_size(void *r) { return shl_ring_get_size(r); }

/* array */
int u_arr_new(void **a, size_t es, size_t n) { return shl_array_new((struct shl_array **)a, es, n); }
void u_arr_free(void *a) { shl_array_free(a); }
int u_arr_zresize(void *a, size_t n) { return shl_array_zresize(a, n); }
int u_arr_push(void *a, const void *d) { return shl_array_push(a, d); }
void u_arr_pop(void *a) { shl_array_pop(a); }
void *u_arr_data(void *a) { return shl_array_get_array(a); }
size_t u_arr_len(void *a) { return shl_array_get_length(a); }
size_t u_arr_bsize(void *a) { return shl_array_get_bsize(a); }
size_t u_arr_es(void *a) { return shl_array_get_element_size(a); }
size_t u_pow2(size_t v) { return shl_array_pow2(v); }
