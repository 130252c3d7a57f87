// libc string primitives as plain loops (bitcode runtime)
#include <stddef.h>
void *memchr(const void *p, int c, size_t n) { const unsigned char *b = p; for (size_t i = 0; i < n; i++) if (b[i] == (unsigned char)c) return (void *)(b + i); return 0; }
int strcmp(const char *a, const char *b) { while (*a && *a == *b) { a++; b++; } return (int)(unsigned char)*a - (int)(unsigned char)*b; }
int strncmp(const char *a, const char *b, size_t n) { for (; n; n--, a++, b++) { if (*a != *b) return (int)(unsigned char)*a - (int)(unsigned char)*b; if (!*a) return 0; } return 0; }
// the "C" locale
int isprint(int c) { return c >= 32 && c < 127; }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isupper(int c) { return c >= 'A' && c <= 'Z'; }
int islower(int c) { return c >= 'a' && c <= 'z'; }
int isalpha(int c) { return isupper(c) || islower(c); }
int isalnum(int c) { return isalpha(c) || isdigit(c); }
int isgraph(int c) { return c > 32 && c < 127; }
int ispunct(int c) { return isgraph(c) && !isalnum(c); }
int iscntrl(int c) { return (c >= 0 && c < 32) || c == 127; }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int isblank(int c) { return c == ' ' || c == 9; }
int isxdigit(int c) { return isdigit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
int toupper(int c) { return islower(c) ? c - 32 : c; }
int tolower(int c) { return isupper(c) ? c + 32 : c; }
int abs(int x) { return x < 0 ? -x : x; }
long labs(long x) { return x < 0 ? -x : x; }
long long llabs(long long x) { return x < 0 ? -x : x; }
void *memrchr(const void *p, int c, size_t n) { const unsigned char *b = p; while (n--) if (b[n] == (unsigned char)c) return (void *)(b + n); return 0; }
void *memmem(const void *h, size_t n, const void *x, size_t m) {
  const unsigned char *a = h, *b = x;
  for (size_t i = 0; m <= n && i <= n - m; i++) { size_t k = 0; while (k < m && a[i + k] == b[k]) k++; if (k == m) return (void *)(a + i); }
  return 0;
}
void *mempcpy(void *d, const void *s, size_t n) { unsigned char *a = d; const unsigned char *b = s; for (size_t i = 0; i < n; i++) a[i] = b[i]; return a + n; }
char *strchr(const char *s, int c) { for (;; s++) { if (*s == (char)c) return (char *)s; if (!*s) return 0; } }
char *strrchr(const char *s, int c) { const char *r = 0; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char *)r; } }
char *strstr(const char *h, const char *n) { for (;; h++) { size_t k = 0; while (n[k] && h[k] == n[k]) k++; if (!n[k]) return (char *)h; if (!*h) return 0; } }
size_t strnlen(const char *s, size_t m) { size_t i = 0; while (i < m && s[i]) i++; return i; }
char *strcpy(char *d, const char *s) { char *r = d; while ((*d++ = *s++)) {} return r; }
char *strncpy(char *d, const char *s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
