/* Analysis stand-in for src/core/khash.h: the same macro interface, but the operations on the
   tables are opaque functions, which the analyser models as an abstract map (see engine/models.py).
   The operations themselves are checked separately on the real header (rule "khash"). */
#ifndef __AC_KHASH_H
#define __AC_KHASH_H
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
typedef uint32_t khint32_t; typedef uint64_t khint64_t; typedef khint32_t khint_t; typedef khint_t khiter_t;
#define KHASH_INIT(name, khkey_t, khval_t, kh_is_map, hf, he) \
  typedef struct kh_##name##_s { khint_t n_buckets, size, n_occupied, upper_bound; khint32_t *flags; khkey_t *keys; khval_t *vals; } kh_##name##_t; \
  kh_##name##_t *kh_init_##name(void); void kh_destroy_##name(kh_##name##_t *h); void kh_clear_##name(kh_##name##_t *h); \
  khint_t kh_get_##name(const kh_##name##_t *h, khkey_t key); int kh_resize_##name(kh_##name##_t *h, khint_t n); \
  khint_t kh_put_##name(kh_##name##_t *h, khkey_t key, int *ret); void kh_del_##name(kh_##name##_t *h, khint_t x); \
  bool vk_exist(const kh_##name##_t *h, khint_t x);
#define KHASH_MAP_INIT_INT(name, khval_t) KHASH_INIT(name, khint32_t, khval_t, 1, 0, 0)
#define KHASH_SET_INIT_INT(name) KHASH_INIT(name, khint32_t, char, 0, 0, 0)
#define khash_t(name) kh_##name##_t
#define kh_init(name) kh_init_##name()
#define kh_destroy(name, h) kh_destroy_##name(h)
#define kh_clear(name, h) kh_clear_##name(h)
#define kh_resize(name, h, s) kh_resize_##name(h, s)
#define kh_put(name, h, k, r) kh_put_##name(h, k, r)
#define kh_get(name, h, k) kh_get_##name(h, k)
#define kh_del(name, h, k) kh_del_##name(h, k)
#define kh_exist(h, x) (vk_exist((h), (x)))
#define kh_key(h, x) ((h)->keys[x])
#define kh_val(h, x) ((h)->vals[x])
#define kh_value(h, x) ((h)->vals[x])
#define kh_begin(h) (khint_t)(0)
#define kh_end(h) ((h)->n_buckets)
#define kh_size(h) ((h)->size)
#define kh_n_buckets(h) ((h)->n_buckets)
#define kh_foreach(h, kvar, vvar, code) { khint_t __i; for (__i = kh_begin(h); __i != kh_end(h); ++__i) { if (!kh_exist(h,__i)) continue; (kvar) = kh_key(h,__i); (vvar) = kh_val(h,__i); code; } }
#define kh_foreach_value(h, vvar, code) { khint_t __i; for (__i = kh_begin(h); __i != kh_end(h); ++__i) { if (!kh_exist(h,__i)) continue; (vvar) = kh_val(h,__i); code; } }
#endif
