// C library routines for symbolic execution (bitcode only).
#include <stddef.h>
size_t strlen(const char *s) { size_t n = 0; while (s[n]) ++n; return n; }
int strcmp(const char *a, const char *b) { while (*a && *a == *b) { ++a; ++b; } return (unsigned char)*a - (unsigned char)*b; }
int strncmp(const char *a, const char *b, size_t n) { while (n && *a && *a == *b) { ++a; ++b; --n; } return n ? (unsigned char)*a - (unsigned char)*b : 0; }
char *strcpy(char *d, const char *s) { char *r = d; while ((*d++ = *s++)) {} return r; }
int memcmp(const void *a, const void *b, size_t n) { const unsigned char *x = a, *y = b; for (; n; --n, ++x, ++y) if (*x != *y) return *x - *y; return 0; }
void *memchr(const void *s, int c, size_t n) { const unsigned char *p = s; for (; n; --n, ++p) if (*p == (unsigned char)c) return (void *)p; return 0; }
char *strchr(const char *s, int c) { for (;; ++s) { if (*s == (char)c) return (char *)s; if (!*s) return 0; } }
char *strstr(const char *h, const char *n) { size_t l = strlen(n); for (;; ++h) { if (!strncmp(h, n, l)) return (char *)h; if (!*h) return 0; } }
void *memcpy(void *d, const void *s, size_t n) { unsigned char *x = d; const unsigned char *y = s; while (n--) *x++ = *y++; return d; }
void *memset(void *d, int c, size_t n) { unsigned char *x = d; while (n--) *x++ = (unsigned char)c; return d; }
