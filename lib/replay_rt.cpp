// Native side of zs.h: feeds recorded inputs to the harness.
// usage: PROG entry inputsfile [params...]
// exit codes: 0 path completed, 99 assertion failed, 76 assumption not met, 77 input stream mismatch
#include "zs.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <new>
#include <dlfcn.h>
#include <unistd.h>
#include <thread>
#include <atomic>
static std::vector<std::pair<std::string, std::string>> *g_in;
static size_t g_pos;
static std::vector<uint64_t> *g_par, *g_obs;
static size_t g_limit = size_t(1) << 28;
static bool g_on = false;
static void flush_obs() { if (g_obs) for (auto v : *g_obs) printf("OBS %llx\n", (unsigned long long)v); if (g_obs) g_obs->clear(); }
static void die(int c) { flush_obs(); fflush(stdout); fflush(stderr); _exit(c); }
static std::string nextIn(const char *name, size_t n) {
  if (g_pos >= g_in->size()) { printf("ZS-STREAM end of inputs at %s\n", name); die(77); }
  auto &p = (*g_in)[g_pos++];
  if (p.first != name || p.second.size() != n) { printf("ZS-STREAM mismatch: want %s/%zu have %s/%zu\n", name, n, p.first.c_str(), p.second.size()); die(77); }
  return p.second;
}
extern "C" {
void zs_bytes(void *p, size_t n, const char *name) { auto s = nextIn(name, n); if (n) memcpy(p, s.data(), n); }
uint64_t zs_pick(uint64_t, const char *name) { auto s = nextIn(name, 4); uint32_t v; memcpy(&v, s.data(), 4); return v; }
void zs_assume(int c) { if (!c) { printf("ZS-ASSUME not met\n"); die(76); } }
void zs_assert_(int c, const char *m) { if (!c) { printf("ZS-ASSERT-FAILED %s\n", m); die(99); } }
void zs_fail_(const char *m) { printf("ZS-ASSERT-FAILED %s\n", m); die(99); __builtin_unreachable(); }
void zs_observe(uint64_t v) { g_obs->push_back(v); }
void zs_cover(const char *) {}
uint64_t zs_param(int i) { return (size_t)i < g_par->size() ? (*g_par)[i] : 0; }
uint64_t zs_conc(uint64_t v) { return v; }
int zs_native(void) { return 1; }
void zs_freeze(void) {}
void zs_thaw(void) {}
void zs_two_threads(void (*f)(void *), void *arg) {
  std::atomic<int> n{0};
  auto g = [&] { n.fetch_add(1, std::memory_order_relaxed); while (n.load(std::memory_order_relaxed) < 2) ; f(arg); };
  std::thread a(g), b(g); a.join(); b.join();
}
#if __has_feature(address_sanitizer)
extern size_t __sanitizer_get_current_allocated_bytes(void);
static size_t g_leak0;
void zs_leak_begin(void) { g_leak0 = __sanitizer_get_current_allocated_bytes(); }
void zs_leak_end(void) { size_t n = __sanitizer_get_current_allocated_bytes(); if (n != g_leak0) { printf("ZS-LEAK %lld bytes\n", (long long)(n - g_leak0)); die(98); } }
#else
void zs_leak_begin(void) {}
void zs_leak_end(void) {}
#endif
static volatile unsigned char g_sink;
int zs_readable(const void *p, size_t n) { const unsigned char *b = (const unsigned char *)p; unsigned char x = 0; for (size_t i = 0; i < n; i++) x ^= b[i]; g_sink = x; return 1; }
int zs_initialised(const void *p, size_t n) { const unsigned char *b = (const unsigned char *)p; unsigned x = 0; for (size_t i = 0; i < n; i++) if (b[i] == 0x5a) x++; if (x == 123456789) printf("?"); return 1; }
}
#if !__has_feature(address_sanitizer) && !__has_feature(thread_sanitizer)
// same allocation bound as the engine
void *operator new(size_t n) { if (g_on && n > g_limit) throw std::bad_alloc(); void *p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void *operator new[](size_t n) { return operator new(n); }
void operator delete(void *p) noexcept { free(p); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
void operator delete[](void *p, size_t) noexcept { free(p); }
#endif
int main(int argc, char **argv) {
  if (argc < 3) return 70;
  g_in = new std::vector<std::pair<std::string, std::string>>; g_par = new std::vector<uint64_t>; g_obs = new std::vector<uint64_t>; g_obs->reserve(100000);
  FILE *f = fopen(argv[2], "r");
  if (!f) return 71;
  char *line = nullptr; size_t cap = 0; ssize_t n;
  while ((n = getline(&line, &cap, f)) > 0) {
    while (n && (line[n - 1] == '\n')) line[--n] = 0;
    char *tab = strchr(line, '\t');
    if (!tab) continue;
    std::string name(line, tab - line), hex(tab + 1), v;
    for (size_t i = 0; i + 1 < hex.size(); i += 2) v += (char)strtol(hex.substr(i, 2).c_str(), nullptr, 16);
    g_in->push_back({name, v});
  }
  free(line); fclose(f);
  for (int i = 3; i < argc; i++) g_par->push_back(strtoull(argv[i], nullptr, 0));
  auto fn = (void (*)())dlsym(RTLD_DEFAULT, argv[1]);
  if (!fn) { printf("no entry %s\n", argv[1]); return 72; }
  g_on = true;
  fn();
  g_on = false;
  flush_obs();
  printf("ZS-DONE\n");
  fflush(stdout);
  delete g_in; delete g_par; delete g_obs;
  return 0;
}
