/* C models of libc functions for the symbolic executor (external calls of X go to sxm_X). */
#include <stddef.h>
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
int sx_errno;
static char sx_std[2];
#undef stderr
#undef stdout
FILE* stderr = (FILE*)&sx_std[0];
FILE* stdout = (FILE*)&sx_std[1];
size_t sxm_strlen(const char* s) { size_t n = 0; while (s[n]) n++; return n; }
size_t sxm_strnlen(const char* s, size_t m) { size_t n = 0; while (n < m && s[n]) n++; return n; }
char* sxm_strcpy(char* d, const char* s) { size_t n = sxm_strlen(s); memcpy(d, s, n + 1); return d; }
char* sxm_stpcpy(char* d, const char* s) { size_t n = sxm_strlen(s); memcpy(d, s, n + 1); return d + n; }
char* sxm_strncpy(char* d, const char* s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char* sxm_strcat(char* d, const char* s) { sxm_strcpy(d + sxm_strlen(d), s); return d; }
char* sxm_strncat(char* d, const char* s, size_t n) { size_t l = sxm_strlen(d), k = sxm_strnlen(s, n); memcpy(d + l, s, k); d[l + k] = 0; return d; }
char* sxm_strchr(const char* s, int c) { for (;; s++) { if (*s == (char)c) return (char*)s; if (!*s) return NULL; } }
char* sxm_index(const char* s, int c) { return sxm_strchr(s, c); }
char* sxm_strrchr(const char* s, int c) { const char* r = NULL; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char*)r; } }
char* sxm_rindex(const char* s, int c) { return sxm_strrchr(s, c); }
void* sxm_memchr(const void* p, int c, size_t n) { const unsigned char* s = p; for (size_t i = 0; i < n; i++) if (s[i] == (unsigned char)c) return (void*)(s + i); return NULL; }
void* sxm_rawmemchr(const void* p, int c) { const unsigned char* s = p; while (*s != (unsigned char)c) s++; return (void*)s; }
char* sxm_strstr(const char* h, const char* n) { size_t l = sxm_strlen(n); if (!l) return (char*)h; for (; *h; h++) if (strncmp(h, n, l) == 0) return (char*)h; return NULL; }
void* sxm_memmem(const void* h, size_t hl, const void* n, size_t nl) { const char* p = h; if (!nl) return (void*)h; for (size_t i = 0; i + nl <= hl; i++) if (memcmp(p + i, n, nl) == 0) return (void*)(p + i); return NULL; }
size_t sxm_strspn(const char* s, const char* a) { size_t n = 0; while (s[n] && sxm_strchr(a, s[n])) n++; return n; }
size_t sxm_strcspn(const char* s, const char* a) { size_t n = 0; while (s[n] && !sxm_strchr(a, s[n])) n++; return n; }
char* sxm_strpbrk(const char* s, const char* a) { for (; *s; s++) if (sxm_strchr(a, *s)) return (char*)s; return NULL; }
char* sxm_strdup(const char* s) { size_t n = sxm_strlen(s) + 1; char* r = malloc(n); if (r) memcpy(r, s, n); return r; }
char* sxm_strndup(const char* s, size_t m) { size_t n = sxm_strnlen(s, m); char* r = malloc(n + 1); if (r) { memcpy(r, s, n); r[n] = 0; } return r; }
void* sxm_reallocarray(void* p, size_t a, size_t b) { return realloc(p, a * b); }
void* sxm_memccpy(void* d, const void* s, int c, size_t n) { char* x = d; const char* y = s; for (size_t i = 0; i < n; i++) { x[i] = y[i]; if (y[i] == (char)c) return x + i + 1; } return NULL; }
void sxm_bzero(void* p, size_t n) { memset(p, 0, n); }
void sxm_bcopy(const void* s, void* d, size_t n) { memmove(d, s, n); }
int sxm_abs(int x) { return x < 0 ? -x : x; }
long sxm_labs(long x) { return x < 0 ? -x : x; }
int sxm_tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int sxm_toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
int sxm_isdigit(int c) { return c >= '0' && c <= '9'; }
int sxm_isupper(int c) { return c >= 'A' && c <= 'Z'; }
int sxm_islower(int c) { return c >= 'a' && c <= 'z'; }
int sxm_isalpha(int c) { return sxm_isupper(c) || sxm_islower(c); }
int sxm_isalnum(int c) { return sxm_isalpha(c) || sxm_isdigit(c); }
int sxm_isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
unsigned sxm_htonl(unsigned x) { return __builtin_bswap32(x); }
unsigned sxm_ntohl(unsigned x) { return __builtin_bswap32(x); }
unsigned short sxm_htons(unsigned short x) { return (unsigned short)(x << 8 | x >> 8); }
unsigned short sxm_ntohs(unsigned short x) { return (unsigned short)(x << 8 | x >> 8); }
char* sxm_strerror(int e) { (void)e; return (char*)"error"; }
int sxm_isxdigit(int c) { return sxm_isdigit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
int sxm_isprint(int c) { return c >= 32 && c <= 126; }
int sxm_isgraph(int c) { return c > 32 && c <= 126; }
int sxm_iscntrl(int c) { return (c >= 0 && c < 32) || c == 127; }
int sxm_ispunct(int c) { return sxm_isgraph(c) && !sxm_isalnum(c); }
int sxm_isblank(int c) { return c == ' ' || c == 9; }
int sxm_isascii(int c) { return (c & ~127) == 0; }
#include "ctype_tab.h"
static const unsigned short* ctab_p = ctab + 128; static const int* clow_p = clow + 128; static const int* cup_p = cup + 128;
const unsigned short** sxm___ctype_b_loc(void) { return &ctab_p; }
const int** sxm___ctype_tolower_loc(void) { return &clow_p; }
const int** sxm___ctype_toupper_loc(void) { return &cup_p; }
void* sxm_memrchr(const void* p, int c, size_t n) { const unsigned char* s = p; while (n--) if (s[n] == (unsigned char)c) return (void*)(s + n); return NULL; }
char* sxm_stpncpy(char* d, const char* s, size_t n) { size_t i = 0, k; for (; i < n && s[i]; i++) d[i] = s[i]; for (k = i; k < n; k++) d[k] = 0; return d + i; }
size_t sxm_strlcpy(char* d, const char* s, size_t n) { size_t l = sxm_strlen(s), k = l; if (n) { if (k > n - 1) k = n - 1; memcpy(d, s, k); d[k] = 0; } return l; }
size_t sxm_strlcat(char* d, const char* s, size_t n) { size_t l = sxm_strnlen(d, n); if (l == n) return n + sxm_strlen(s); return l + sxm_strlcpy(d + l, s, n - l); }
char* sxm_strcasestr(const char* h, const char* n) { size_t l = sxm_strlen(n); if (!l) return (char*)h; for (; *h; h++) if (strncasecmp(h, n, l) == 0) return (char*)h; return NULL; }
char* sxm_strtok_r(char* s, const char* d, char** st) { if (!s) s = *st; s += sxm_strspn(s, d); if (!*s) { *st = s; return NULL; } char* e = s + sxm_strcspn(s, d); if (*e) *e++ = 0; *st = e; return s; }
static char* tok_st; char* sxm_strtok(char* s, const char* d) { return sxm_strtok_r(s, d, &tok_st); }
char* sxm_strsep(char** s, const char* d) { char* r = *s; if (!r) return NULL; char* e = r + sxm_strcspn(r, d); if (*e) { *e++ = 0; *s = e; } else *s = NULL; return r; }
char* sxm_basename(const char* s) { char* r = sxm_strrchr(s, '/'); return r ? r + 1 : (char*)s; }
unsigned long sxm_strtoul(const char* s, char** e, int b) {
    const char* p = s; unsigned long v = 0; int neg = 0, any = 0; while (sxm_isspace((unsigned char)*p)) p++; if (*p == '-' || *p == '+') neg = *p++ == '-';
    if ((b == 0 || b == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && sxm_isxdigit((unsigned char)p[2])) { p += 2; b = 16; } if (b == 0) b = *p == '0' ? 8 : 10;
    for (;; p++) { int c = (unsigned char)*p, d = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'z' ? c - 'a' + 10 : c >= 'A' && c <= 'Z' ? c - 'A' + 10 : 99; if (d >= b) break; v = v * b + d; any = 1; }
    if (e) *e = (char*)(any ? p : s); return neg ? -v : v;
}
long sxm_strtol(const char* s, char** e, int b) { return (long)sxm_strtoul(s, e, b); }
long long sxm_strtoll(const char* s, char** e, int b) { return (long long)sxm_strtoul(s, e, b); }
unsigned long long sxm_strtoull(const char* s, char** e, int b) { return sxm_strtoul(s, e, b); }
int sxm_atoi(const char* s) { return (int)sxm_strtol(s, NULL, 10); }
long sxm_atol(const char* s) { return sxm_strtol(s, NULL, 10); }
void sxm_qsort(void* b, size_t n, size_t z, int (*cmp)(const void*, const void*)) {
    char* p = b; if (n < 2 || !z) return; char* t = malloc(z);
    for (size_t i = 1; i < n; i++) { memcpy(t, p + i * z, z); size_t k = i; while (k > 0 && cmp(p + (k - 1) * z, t) > 0) { memcpy(p + k * z, p + (k - 1) * z, z); k--; } memcpy(p + k * z, t, z); }
    free(t);
}
void* sxm_bsearch(const void* k, const void* b, size_t n, size_t z, int (*cmp)(const void*, const void*)) { size_t l = 0, h = n; while (l < h) { size_t m = (l + h) / 2; const void* p = (const char*)b + m * z; int c = cmp(k, p); if (c == 0) return (void*)p; if (c < 0) h = m; else l = m + 1; } return NULL; }
void* sxm_aligned_alloc(size_t a, size_t n) { (void)a; return malloc(n); }
int sxm_posix_memalign(void** p, size_t a, size_t n) { (void)a; void* q = malloc(n); if (!q) return 12; *p = q; return 0; }
int sxm_ffs(int x) { if (!x) return 0; int n = 1; while (!(x & 1)) { x = (int)((unsigned)x >> 1); n++; } return n; }
int sxm_getpid(void) { return 4711; }
long sxm_time(long* t) { if (t) *t = 1700000000; return 1700000000; }
static unsigned sx_rand = 12345; int sxm_rand(void) { sx_rand = sx_rand * 1103515245u + 12345u; return (int)(sx_rand >> 16 & 0x7fff); }
long sxm_random(void) { return sxm_rand(); }
char* sxm_getenv(const char* n) { (void)n; return NULL; }
