// Stand-in for yyjson, which is not installed here: the part of its documented API that json.hpp
// uses, over a plain tree.  "Text" is a private encoding with one property of the real one, which is
// all json.hpp relies on: what yyjson writes, yyjson reads back, value for value (a non-negative
// integer reads back as unsigned, a real stays a real, key order and string lengths are kept).  As in
// yyjson, writing fails (NULL) for NaN, infinities and strings that are not UTF-8, the *n functions
// take lengths, strcpy stops at a NUL, strn keeps the caller's pointer, and NULL arguments are refused.
#pragma once
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#define YYJSON_VERSION_HEX 0x000C00
typedef uint32_t yyjson_read_flag;
typedef uint32_t yyjson_write_flag;
static const yyjson_write_flag YYJSON_WRITE_PRETTY = 1;
enum { ZY_NULL = 2, ZY_BOOL, ZY_UINT, ZY_SINT, ZY_REAL, ZY_STR, ZY_ARR, ZY_OBJ };
#define ZY_NODE(T)                                                                                       \
  struct T { uint8_t t; bool own; union { bool b; uint64_t u; int64_t i; double d; const char *s; } v;    \
             size_t len; struct T *first, *last, *next, *all; };
struct yyjson_val; struct yyjson_mut_val;
ZY_NODE(yyjson_val)
ZY_NODE(yyjson_mut_val)
typedef struct yyjson_val yyjson_val; typedef struct yyjson_mut_val yyjson_mut_val;
typedef struct yyjson_doc { yyjson_val *root, *all; } yyjson_doc;
typedef struct yyjson_mut_doc { yyjson_mut_val *root, *all; } yyjson_mut_doc;
typedef struct yyjson_alc yyjson_alc;
typedef struct yyjson_obj_iter { size_t idx, max; yyjson_val *cur; } yyjson_obj_iter;
// ---- tree
template <class D, class V> static inline V *zy_new(D *doc, V *, uint8_t t) { V *v = (V *)calloc(1, sizeof(V)); v->t = t; v->all = doc->all; doc->all = v; return v; }
template <class D> static inline void zy_free(D *doc) {
  if (!doc) return;
  for (auto *v = doc->all; v;) { auto *n = v->all; if (v->own) free((void *)v->v.s); free(v); v = n; }
  free(doc);
}
template <class V> static inline void zy_link(V *p, V *c) { c->next = nullptr; if (p->last) p->last->next = c; else p->first = c; p->last = c; }
static inline bool zy_utf8(const char *s, size_t n) {
  const uint8_t *p = (const uint8_t *)s;
  for (size_t i = 0; i < n;) {
    uint8_t c = p[i]; size_t k = c < 0x80 ? 0 : c < 0xc2 ? 9 : c < 0xe0 ? 1 : c < 0xf0 ? 2 : c < 0xf5 ? 3 : 9;
    if (k >= n - i) return false;
    if (k >= 1) {
      uint8_t d = p[i + 1];
      if (d < (c == 0xe0 ? 0xa0 : c == 0xf0 ? 0x90 : 0x80) || d > (c == 0xed ? 0x9f : c == 0xf4 ? 0x8f : 0xbf)) return false;
      for (size_t j = 2; j <= k; j++) if ((p[i + j] & 0xc0) != 0x80) return false;
    }
    i += k + 1;
  }
  return true;
}
// ---- mutable documents
static inline yyjson_mut_doc *yyjson_mut_doc_new(const yyjson_alc *) { return (yyjson_mut_doc *)calloc(1, sizeof(yyjson_mut_doc)); }
static inline void yyjson_mut_doc_free(yyjson_mut_doc *d) { zy_free(d); }
static inline void yyjson_mut_doc_set_root(yyjson_mut_doc *d, yyjson_mut_val *r) { if (d) d->root = r; }
static inline yyjson_mut_val *zy_mut(yyjson_mut_doc *d, uint8_t t) { return d ? zy_new(d, (yyjson_mut_val *)nullptr, t) : nullptr; }
static inline yyjson_mut_val *yyjson_mut_null(yyjson_mut_doc *d) { return zy_mut(d, ZY_NULL); }
static inline yyjson_mut_val *yyjson_mut_bool(yyjson_mut_doc *d, bool x) { auto *v = zy_mut(d, ZY_BOOL); if (v) v->v.b = x; return v; }
static inline yyjson_mut_val *yyjson_mut_uint(yyjson_mut_doc *d, uint64_t x) { auto *v = zy_mut(d, ZY_UINT); if (v) v->v.u = x; return v; }
static inline yyjson_mut_val *yyjson_mut_sint(yyjson_mut_doc *d, int64_t x) { auto *v = zy_mut(d, ZY_SINT); if (v) v->v.i = x; return v; }
static inline yyjson_mut_val *yyjson_mut_real(yyjson_mut_doc *d, double x) { auto *v = zy_mut(d, ZY_REAL); if (v) v->v.d = x; return v; }
static inline yyjson_mut_val *yyjson_mut_strn(yyjson_mut_doc *d, const char *s, size_t n) { if (!d || !s) return nullptr; auto *v = zy_mut(d, ZY_STR); v->v.s = s; v->len = n; return v; }
static inline yyjson_mut_val *yyjson_mut_str(yyjson_mut_doc *d, const char *s) { return s ? yyjson_mut_strn(d, s, strlen(s)) : nullptr; }
static inline yyjson_mut_val *yyjson_mut_strncpy(yyjson_mut_doc *d, const char *s, size_t n) {
  if (!d || !s) return nullptr;
  char *c = (char *)malloc(n + 1); if (n) memcpy(c, s, n); c[n] = 0;
  auto *v = zy_mut(d, ZY_STR); v->v.s = c; v->len = n; v->own = true; return v;
}
static inline yyjson_mut_val *yyjson_mut_strcpy(yyjson_mut_doc *d, const char *s) { return s ? yyjson_mut_strncpy(d, s, strlen(s)) : nullptr; }
static inline yyjson_mut_val *yyjson_mut_arr(yyjson_mut_doc *d) { return zy_mut(d, ZY_ARR); }
static inline yyjson_mut_val *yyjson_mut_obj(yyjson_mut_doc *d) { return zy_mut(d, ZY_OBJ); }
static inline bool yyjson_mut_arr_add_val(yyjson_mut_val *a, yyjson_mut_val *v) { if (!a || a->t != ZY_ARR || !v) return false; zy_link(a, v); a->len++; return true; }
static inline bool yyjson_mut_obj_add(yyjson_mut_val *o, yyjson_mut_val *k, yyjson_mut_val *v) {
  if (!o || o->t != ZY_OBJ || !k || k->t != ZY_STR || !v) return false;
  zy_link(o, k); zy_link(o, v); o->len++; return true;
}
// ---- "text"
template <class V> static inline size_t zy_size(const V *v) {     // 0: cannot be written
  size_t n = 1;
  switch (v->t) {
    case ZY_UINT: case ZY_SINT: return 9;
    case ZY_REAL: { uint64_t b; memcpy(&b, &v->v.d, 8); return (b >> 52 & 0x7ff) == 0x7ff ? 0 : 9; }
    case ZY_STR: return zy_utf8(v->v.s, v->len) ? 5 + v->len : 0;
    case ZY_ARR: case ZY_OBJ: n = 5; for (V *c = v->first; c; c = c->next) { size_t k = zy_size(c); if (!k) return 0; n += k; } return n;
    default: return n;
  }
}
template <class V> static inline char *zy_put(const V *v, char *p) {
  uint32_t n = (uint32_t)v->len;
  switch (v->t) {
    case ZY_NULL: *p++ = 'n'; break;
    case ZY_BOOL: *p++ = v->v.b ? 't' : 'f'; break;
    case ZY_UINT: case ZY_SINT: *p++ = v->t == ZY_SINT && v->v.i < 0 ? 'i' : 'u'; memcpy(p, &v->v.u, 8); p += 8; break;
    case ZY_REAL: *p++ = 'r'; memcpy(p, &v->v.d, 8); p += 8; break;
    case ZY_STR: *p++ = 's'; memcpy(p, &n, 4); p += 4; if (n) memcpy(p, v->v.s, n); p += n; break;
    default: *p++ = v->t == ZY_ARR ? '[' : '{'; memcpy(p, &n, 4); p += 4; for (V *c = v->first; c; c = c->next) p = zy_put(c, p);
  }
  return p;
}
template <class V> static inline char *zy_write(const V *v, size_t *len) {
  size_t n = v ? zy_size(v) : 0; if (len) *len = n;
  if (!n) return nullptr;
  char *s = (char *)malloc(n + 1); zy_put(v, s); s[n] = 0; return s;
}
static inline char *yyjson_mut_write(const yyjson_mut_doc *d, yyjson_write_flag, size_t *len) { if (len) *len = 0; return d ? zy_write(d->root, len) : nullptr; }
static inline char *yyjson_val_write(const yyjson_val *v, yyjson_write_flag, size_t *len) { return zy_write(v, len); }
static inline yyjson_val *zy_get(yyjson_doc *d, const char *&p, const char *e, bool key) {
  if (p == e) return nullptr;
  char c = *p++;
  if (key && c != 's') return nullptr;
  size_t left = (size_t)(e - p);
  switch (c) {
    case 'n': return zy_new(d, (yyjson_val *)nullptr, ZY_NULL);
    case 't': case 'f': { auto *v = zy_new(d, (yyjson_val *)nullptr, ZY_BOOL); v->v.b = c == 't'; return v; }
    case 'u': case 'i': case 'r': { if (left < 8) return nullptr; auto *v = zy_new(d, (yyjson_val *)nullptr, c == 'u' ? ZY_UINT : c == 'i' ? ZY_SINT : ZY_REAL); memcpy(&v->v.u, p, 8); p += 8; return v; }
    case 's': { uint32_t n; if (left < 4) return nullptr; memcpy(&n, p, 4); p += 4; if (n > left - 4) return nullptr;
                char *s = (char *)malloc(n + 1); if (n) memcpy(s, p, n); s[n] = 0; p += n;
                auto *v = zy_new(d, (yyjson_val *)nullptr, ZY_STR); v->v.s = s; v->len = n; v->own = true; return v; }
    case '[': case '{': { uint32_t n; if (left < 4) return nullptr; memcpy(&n, p, 4); p += 4;
                auto *v = zy_new(d, (yyjson_val *)nullptr, c == '[' ? ZY_ARR : ZY_OBJ);
                for (uint32_t i = 0; i < n; i++) {
                  if (c == '{') { auto *k = zy_get(d, p, e, true); if (!k) return nullptr; zy_link(v, k); }
                  auto *x = zy_get(d, p, e, false); if (!x) return nullptr; zy_link(v, x);
                }
                v->len = n; return v; }
    default: return nullptr;
  }
}
static inline yyjson_doc *yyjson_read(const char *s, size_t n, yyjson_read_flag) {
  if (!s || !n) return nullptr;
  auto *d = (yyjson_doc *)calloc(1, sizeof(yyjson_doc));
  if (n == 2 && s[0] == '{' && s[1] == '}') { d->root = zy_new(d, (yyjson_val *)nullptr, ZY_OBJ); return d; }
  const char *p = s;
  d->root = zy_get(d, p, s + n, false);
  if (!d->root || p != s + n) { zy_free(d); return nullptr; }
  return d;
}
static inline void yyjson_doc_free(yyjson_doc *d) { zy_free(d); }
static inline yyjson_val *yyjson_doc_get_root(yyjson_doc *d) { return d ? d->root : nullptr; }
// ---- values
static inline bool yyjson_is_null(yyjson_val *v) { return v && v->t == ZY_NULL; }
static inline bool yyjson_is_bool(yyjson_val *v) { return v && v->t == ZY_BOOL; }
static inline bool yyjson_is_uint(yyjson_val *v) { return v && v->t == ZY_UINT; }
static inline bool yyjson_is_sint(yyjson_val *v) { return v && v->t == ZY_SINT; }
static inline bool yyjson_is_int(yyjson_val *v) { return v && (v->t == ZY_UINT || v->t == ZY_SINT); }
static inline bool yyjson_is_real(yyjson_val *v) { return v && v->t == ZY_REAL; }
static inline bool yyjson_is_num(yyjson_val *v) { return yyjson_is_int(v) || yyjson_is_real(v); }
static inline bool yyjson_is_str(yyjson_val *v) { return v && v->t == ZY_STR; }
static inline bool yyjson_is_arr(yyjson_val *v) { return v && v->t == ZY_ARR; }
static inline bool yyjson_is_obj(yyjson_val *v) { return v && v->t == ZY_OBJ; }
static inline bool yyjson_get_bool(yyjson_val *v) { return yyjson_is_bool(v) && v->v.b; }
static inline uint64_t yyjson_get_uint(yyjson_val *v) { return yyjson_is_int(v) ? v->v.u : 0; }
static inline int64_t yyjson_get_sint(yyjson_val *v) { return yyjson_is_int(v) ? v->v.i : 0; }
static inline double yyjson_get_real(yyjson_val *v) { return yyjson_is_real(v) ? v->v.d : 0.0; }
static inline const char *yyjson_get_str(yyjson_val *v) { return yyjson_is_str(v) ? v->v.s : nullptr; }
static inline size_t yyjson_get_len(yyjson_val *v) { return v ? v->len : 0; }
static inline size_t yyjson_arr_size(yyjson_val *a) { return yyjson_is_arr(a) ? a->len : 0; }
static inline yyjson_val *yyjson_arr_get(yyjson_val *a, size_t i) {
  if (!yyjson_is_arr(a) || i >= a->len) return nullptr;
  yyjson_val *c = a->first; while (i--) c = c->next; return c;
}
static inline size_t yyjson_obj_size(yyjson_val *o) { return yyjson_is_obj(o) ? o->len : 0; }
static inline yyjson_val *yyjson_obj_getn(yyjson_val *o, const char *k, size_t n) {
  if (!yyjson_is_obj(o) || !k) return nullptr;
  for (yyjson_val *c = o->first; c; c = c->next->next) if (c->len == n && (n == 0 || memcmp(c->v.s, k, n) == 0)) return c->next;
  return nullptr;
}
static inline bool yyjson_obj_iter_init(yyjson_val *o, yyjson_obj_iter *it) {
  if (!it) return false;
  memset(it, 0, sizeof *it);
  if (!yyjson_is_obj(o)) return false;
  it->max = o->len; it->cur = o->first; return true;
}
static inline yyjson_val *yyjson_obj_iter_next(yyjson_obj_iter *it) {
  if (!it || it->idx >= it->max) return nullptr;
  it->idx++; yyjson_val *k = it->cur; it->cur = k->next->next; return k;
}
static inline yyjson_val *yyjson_obj_iter_get_val(yyjson_val *k) { return k ? k->next : nullptr; }
