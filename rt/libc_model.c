// Reference models of the C library functions the code under verification calls ("C" locale).
#include <stddef.h>
#include <stdint.h>
int vf_errno;
int memcmp(const void *a, const void *b, size_t n) {
  const unsigned char *x = a, *y = b;
  int r = 0;
  for (size_t i = n; i > 0; --i) r = x[i - 1] == y[i - 1] ? r : x[i - 1] - y[i - 1]; // any magnitude
  return r;
}
int bcmp(const void *a, const void *b, size_t n) { return memcmp(a, b, n); }
size_t strlen(const char *s) { size_t i = 0; while (s[i]) ++i; return i; }
size_t strnlen(const char *s, size_t m) { size_t i = 0; while (i < m && s[i]) ++i; return i; }
void *memchr(const void *s, int c, size_t n) {
  const unsigned char *p = s;
  for (size_t i = 0; i < n; ++i) if (p[i] == (unsigned char)c) return (void *)(p + i);
  return 0;
}
#define IN(c, l, h) ((unsigned)(c) - (unsigned)(l) <= (unsigned)(h) - (unsigned)(l))
static int up(int c) { return c - (IN(c, 'a', 'z') << 5); }
static int lo(int c) { return c + (IN(c, 'A', 'Z') << 5); }
int toupper(int c) { return up(c); }
int tolower(int c) { return lo(c); }
int isdigit(int c) { return IN(c, '0', '9'); }
int isxdigit(int c) { return IN(c, '0', '9') | IN(c, 'a', 'f') | IN(c, 'A', 'F'); }
int isspace(int c) { return (c == ' ') | IN(c, 9, 13); }
int isupper(int c) { return IN(c, 'A', 'Z'); }
int islower(int c) { return IN(c, 'a', 'z'); }
int isalpha(int c) { return isupper(c) | islower(c); }
int isalnum(int c) { return isalpha(c) | isdigit(c); }
int isprint(int c) { return IN(c, 32, 126); }
int ispunct(int c) { return isprint(c) & (c != ' ') & !isalnum(c); }
const struct vf_in6 { unsigned char b[16]; } __attribute__((aligned(4))) in6addr_any, in6addr_loopback = {{0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1}};
int strncasecmp(const char *a, const char *b, size_t n) {
  for (size_t i = 0; i < n; ++i) {
    int x = lo((unsigned char)a[i]), y = lo((unsigned char)b[i]);
    if (x != y) return x - y;
    if (!x) return 0;
  }
  return 0;
}
int strcasecmp(const char *a, const char *b) { return strncasecmp(a, b, (size_t)-1); }
int strcmp(const char *a, const char *b) {
  size_t i = 0;
  for (;; ++i) {
    unsigned char x = a[i], y = b[i];
    if (x != y) return x < y ? -1 : 1;
    if (!x) return 0;
  }
}
int strncmp(const char *a, const char *b, size_t n) {
  for (size_t i = 0; i < n; ++i) {
    unsigned char x = a[i], y = b[i];
    if (x != y) return x < y ? -1 : 1;
    if (!x) return 0;
  }
  return 0;
}
char *strcpy(char *d, const char *s) { size_t i = 0; while ((d[i] = s[i])) ++i; return d; }
char *strcat(char *d, const char *s) { strcpy(d + strlen(d), s); return d; }
char *strchr(const char *s, int c) { for (;; ++s) { if (*s == (char)c) return (char *)s; if (!*s) return 0; } }
uint32_t htonl(uint32_t x) { return __builtin_bswap32(x); }
uint32_t ntohl(uint32_t x) { return __builtin_bswap32(x); }
uint16_t htons(uint16_t x) { return __builtin_bswap16(x); }
uint16_t ntohs(uint16_t x) { return __builtin_bswap16(x); }
