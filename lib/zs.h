// Symbolic-input API.  Under the symbolic engine these are builtins; natively
// (replay) they read a recorded counterexample / sample.
#pragma once
#include <cstddef>
#include <cstdint>
#include <type_traits>
extern "C" {
void zs_bytes(void *p, size_t n, const char *name);        // n fresh arbitrary bytes
uint64_t zs_pick(uint64_t n, const char *name);            // every value 0..n-1 (forks)
void zs_assume(int c);
void zs_assert_(int c, const char *msg);
[[noreturn]] void zs_fail_(const char *msg);
void zs_observe(uint64_t v);                               // compared with native run on sample paths
void zs_cover(const char *tag);                            // vacuity check
uint64_t zs_param(int i);
uint64_t zs_conc(uint64_t v);                              // enumerate all values
int zs_native(void);
void zs_leak_begin(void);
void zs_leak_end(void);
void zs_freeze(void);                                      // from here on everything that exists may only be read
void zs_thaw(void);
void zs_two_threads(void (*f)(void *), void *arg);         // native only
int zs_readable(const void *p, size_t n);                  // native: 1
int zs_initialised(const void *p, size_t n);               // native: touches bytes
}
#define ZS_STR2(x) #x
#define ZS_STR(x) ZS_STR2(x)
#define ZS_ASSERT(c, msg) zs_assert_((c) ? 1 : 0, msg " [" ZS_STR(__LINE__) "]")
#define ZS_FAIL(msg) zs_fail_(msg " [" ZS_STR(__LINE__) "]")
#define ZS_ENTRY(name) extern "C" __attribute__((used, visibility("default"))) void name()
template <class T> inline T zs_val(const char *name) { T v; zs_bytes(&v, sizeof v, name); return v; }
inline uint64_t zs_u64(const char *n) { return zs_val<uint64_t>(n); }
inline uint32_t zs_u32(const char *n) { return zs_val<uint32_t>(n); }
inline uint8_t zs_u8(const char *n) { return zs_val<uint8_t>(n); }
// f is what several threads may do at once: everything that exists already is shared.
// Engine: no write may reach it (so no interleaving of any number of threads can interfere).
// Native (replay, under ThreadSanitizer): two threads run f.
template <class F> inline void zs_shared(F &&f) {
  if (zs_native()) { zs_two_threads([](void *p) { (*(std::remove_reference_t<F> *)p)(); }, (void *)&f); return; }
  zs_freeze();
  f();
  zs_thaw();
}
