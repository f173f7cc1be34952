/* Models of the C library functions used by the code under test (symbolic
 * execution only; native replay uses the real C library). */
#include <stdint.h>
#include <stddef.h>
#include <limits.h>
#include <stdbool.h>
#include "vse.h"

int vse_errno;

static int digitval(unsigned char c) __attribute__((unused));
static int digitval(unsigned char c)
{
	if (c >= '0' && c <= '9') return c - '0';
	if (c >= 'a' && c <= 'z') return c - 'a' + 10;
	if (c >= 'A' && c <= 'Z') return c - 'A' + 10;
	return 99;
}
static bool space(unsigned char c) { return c == ' ' || (c >= 9 && c <= 13); }

/* digit test on possibly symbolic c that forks at most once per class */
static bool isdig(unsigned char c, int base)
{
	if (base <= 10) return (bool)((c >= '0') & (c < '0' + base));
	return (bool)(((c >= '0') & (c <= '9')) | ((c >= 'a') & (c < 'a' + base - 10)) | ((c >= 'A') & (c < 'A' + base - 10)));
}
static unsigned dv(unsigned char c)
{
	return ((unsigned)c & 15u) + 9u * ((unsigned)c >> 6); /* c is a hex digit */
}

static unsigned long long parse(const char *s, char **end, int base, bool *neg, bool *ovf, bool *any)
{
	const char *p = s;
	unsigned long long v = 0;
	unsigned nd = 0;
	*neg = *ovf = *any = false;
	while (space((unsigned char)*p)) p++;
	if (*p == '-') { *neg = true; p++; } else if (*p == '+') p++;
	if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && isdig((unsigned char)p[2], 16)) { base = 16; p += 2; }
	else if (base == 0) base = p[0] == '0' ? 8 : 10;
	while (isdig((unsigned char)*p, base)) {
		unsigned d = base <= 10 ? (unsigned)(unsigned char)*p - '0' : dv((unsigned char)*p);
		nd++;
		/* overflow needs at least 16 hex / 20 decimal / 22 octal digits */
		if (base == 16) { if (nd > 16 && (v >> 60)) *ovf = true; v = v << 4 | d; }
		else if (base == 8) { if (nd > 21 && (v >> 61)) *ovf = true; v = v << 3 | d; }
		else if (nd > (base == 16 ? 16 : base == 10 ? 19 : 21)) {
			if ((v > ULLONG_MAX / (unsigned)base) | ((v == ULLONG_MAX / (unsigned)base) & (d > ULLONG_MAX % (unsigned)base))) *ovf = true;
			v = v * (unsigned)base + d;
		} else v = v * (unsigned)base + d;
		*any = true;
		p++;
	}
	if (!*any) p = s;
	if (end) *end = (char *)p;
	return v;
}

long long strtoll(const char *s, char **end, int base)
{
	bool neg, ovf, any;
	unsigned long long v = parse(s, end, base, &neg, &ovf, &any);
	if (neg) {
		if (ovf || v > (unsigned long long)LLONG_MAX + 1) { vse_errno = 34; return LLONG_MIN; }
		return (long long)(0 - v);
	}
	if (ovf || v > LLONG_MAX) { vse_errno = 34; return LLONG_MAX; }
	return (long long)v;
}
unsigned long long strtoull(const char *s, char **end, int base)
{
	bool neg, ovf, any;
	unsigned long long v = parse(s, end, base, &neg, &ovf, &any);
	if (ovf) { vse_errno = 34; return ULLONG_MAX; }
	return neg ? 0 - v : v;
}
long strtol(const char *s, char **end, int base) { return (long)strtoll(s, end, base); }
unsigned long strtoul(const char *s, char **end, int base) { return (unsigned long)strtoull(s, end, base); }
long long __isoc23_strtoll(const char *s, char **end, int base) { return strtoll(s, end, base); }
unsigned long long __isoc23_strtoull(const char *s, char **end, int base) { return strtoull(s, end, base); }
long __isoc23_strtol(const char *s, char **end, int base) { return strtol(s, end, base); }
unsigned long __isoc23_strtoul(const char *s, char **end, int base) { return strtoul(s, end, base); }
int atoi(const char *s) { return (int)strtoll(s, NULL, 10); }

char *strchr(const char *s, int c) { for (;; s++) { if (*s == (char)c) return (char *)s; if (!*s) return NULL; } }
char *strrchr(const char *s, int c) { char *r = NULL; for (;; s++) { if (*s == (char)c) r = (char *)s; if (!*s) return r; } }
void *memchr(const void *p, int c, size_t n) { const unsigned char *s = p; for (size_t i = 0; i < n; i++) if (s[i] == (unsigned char)c) return (void *)(s + i); return NULL; }
char *strncpy(char *d, const char *s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char *strcat(char *d, const char *s) { char *r = d; while (*d) d++; while ((*d++ = *s++)) ; return r; }
int tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
static int low(unsigned char c) { return c + ((c >= 'A') & (c <= 'Z')) * 32; }
int strcasecmp(const char *a, const char *b) { for (;; a++, b++) { int x = low((unsigned char)*a), y = low((unsigned char)*b); if (x != y) return x - y; if (!x) return 0; } }
int strncasecmp(const char *a, const char *b, size_t n) { for (; n; a++, b++, n--) { int x = low((unsigned char)*a), y = low((unsigned char)*b); if (x != y) return x - y; if (!x) return 0; } return 0; }
int abs(int x) { return x < 0 ? -x : x; }

long labs(long x) { return x < 0 ? -x : x; }
long long llabs(long long x) { return x < 0 ? -x : x; }
long atol(const char *s) { return (long)strtoll(s, NULL, 10); }
long long atoll(const char *s) { return strtoll(s, NULL, 10); }
intmax_t strtoimax(const char *s, char **end, int base) { return strtoll(s, end, base); }
uintmax_t strtoumax(const char *s, char **end, int base) { return strtoull(s, end, base); }
intmax_t __isoc23_strtoimax(const char *s, char **end, int base) { return strtoll(s, end, base); }
uintmax_t __isoc23_strtoumax(const char *s, char **end, int base) { return strtoull(s, end, base); }

char *strchrnul(const char *s, int c) { while (*s && *s != (char)c) s++; return (char *)s; }
void *memrchr(const void *p, int c, size_t n) { const unsigned char *s = p; while (n-- > 0) if (s[n] == (unsigned char)c) return (void *)(s + n); return NULL; }
void *rawmemchr(const void *p, int c) { const unsigned char *s = p; while (*s != (unsigned char)c) s++; return (void *)s; }
void *memmem(const void *h, size_t hn, const void *n, size_t nn)
{
	const unsigned char *a = h, *b = n;
	for (size_t i = 0; i + nn <= hn; i++) { size_t k = 0; while (k < nn && a[i + k] == b[k]) k++; if (k == nn) return (void *)(a + i); }
	return NULL;
}
char *strstr(const char *h, const char *n)
{
	for (;; h++) { size_t k = 0; while (n[k] && h[k] == n[k]) k++; if (!n[k]) return (char *)h; if (!*h) return NULL; }
}
size_t strspn(const char *s, const char *set) { size_t n = 0; while (s[n] && strchr(set, s[n])) n++; return n; }
size_t strcspn(const char *s, const char *set) { size_t n = 0; while (s[n] && !strchr(set, s[n])) n++; return n; }
char *strpbrk(const char *s, const char *set) { s += strcspn(s, set); return *s ? (char *)s : NULL; }
char *stpcpy(char *d, const char *s) { while ((*d = *s)) { d++; s++; } return d; }
char *stpncpy(char *d, const char *s, size_t n) { size_t i = 0, e; for (; i < n && s[i]; i++) d[i] = s[i]; e = i; for (; i < n; i++) d[i] = 0; return d + e; }
char *strncat(char *d, const char *s, size_t n) { char *r = d; while (*d) d++; while (n-- > 0 && *s) *d++ = *s++; *d = 0; return r; }
void *mempcpy(void *d, const void *s, size_t n) { unsigned char *a = d; const unsigned char *b = s; for (size_t i = 0; i < n; i++) a[i] = b[i]; return a + n; }
void *memccpy(void *d, const void *s, int c, size_t n) { unsigned char *a = d; const unsigned char *b = s; for (size_t i = 0; i < n; i++) { a[i] = b[i]; if (b[i] == (unsigned char)c) return a + i + 1; } return NULL; }
void bzero(void *d, size_t n) { unsigned char *a = d; for (size_t i = 0; i < n; i++) a[i] = 0; }
void explicit_bzero(void *d, size_t n) { bzero(d, n); }
void *bsearch(const void *key, const void *base, size_t n, size_t size, int (*cmp)(const void *, const void *))
{
	size_t lo = 0, hi = n;
	while (lo < hi) { size_t m = lo + (hi - lo) / 2; const char *e = (const char *)base + m * size; int c = cmp(key, e); if (c == 0) return (void *)e; if (c < 0) hi = m; else lo = m + 1; }
	return NULL;
}
void qsort(void *base, size_t n, size_t size, int (*cmp)(const void *, const void *))
{
	char *b = base;
	for (size_t i = 1; i < n; i++) for (size_t k = i; k > 0 && cmp(b + (k - 1) * size, b + k * size) > 0; k--)
		for (size_t x = 0; x < size; x++) { char t = b[k * size + x]; b[k * size + x] = b[(k - 1) * size + x]; b[(k - 1) * size + x] = t; }
}

/* character classes of the C locale */
int isdigit(int c) { return (c >= '0') & (c <= '9'); }
int isupper(int c) { return (c >= 'A') & (c <= 'Z'); }
int islower(int c) { return (c >= 'a') & (c <= 'z'); }
int isalpha(int c) { return isupper(c) | islower(c); }
int isalnum(int c) { return isalpha(c) | isdigit(c); }
int isxdigit(int c) { return isdigit(c) | ((c >= 'a') & (c <= 'f')) | ((c >= 'A') & (c <= 'F')); }
int isspace(int c) { return (c == ' ') | ((c >= 9) & (c <= 13)); }
int isblank(int c) { return (c == ' ') | (c == 9); }
int isprint(int c) { return (c >= 32) & (c < 127); }
int isgraph(int c) { return (c > 32) & (c < 127); }
int iscntrl(int c) { return ((c >= 0) & (c < 32)) | (c == 127); }
int ispunct(int c) { return isgraph(c) & !isalnum(c); }
int isascii(int c) { return (c & ~127) == 0; }
/* the tables behind glibc's macros */
static unsigned short ctype_b[384]; static int ctype_lo[384], ctype_up[384];
static const unsigned short *ctype_bp; static const int *ctype_lop, *ctype_upp;
static void ctype_init(void)
{
	if (ctype_bp) return;
	for (int i = 0; i < 384; i++) {
		int c = i - 128;
		ctype_b[i] = (unsigned short)(isupper(c) * 0x100 | islower(c) * 0x200 | isalpha(c) * 0x400 | isdigit(c) * 0x800 | isxdigit(c) * 0x1000 | isspace(c) * 0x2000 | isprint(c) * 0x4000 | isgraph(c) * 0x8000 | isblank(c) * 1 | iscntrl(c) * 2 | ispunct(c) * 4 | isalnum(c) * 8);
		ctype_lo[i] = isupper(c) ? c + 32 : c < -1 ? c & 255 : c; ctype_up[i] = islower(c) ? c - 32 : c < -1 ? c & 255 : c;
	}
	ctype_bp = ctype_b + 128; ctype_lop = ctype_lo + 128; ctype_upp = ctype_up + 128;
}
const unsigned short **__ctype_b_loc(void) { ctype_init(); return &ctype_bp; }
const int **__ctype_tolower_loc(void) { ctype_init(); return &ctype_lop; }
const int **__ctype_toupper_loc(void) { ctype_init(); return &ctype_upp; }

/* floating point classes */
int __isinf(double x) { return x == __builtin_inf() ? 1 : x == -__builtin_inf() ? -1 : 0; }
int __isinff(float x) { return __isinf((double)x); }
int isinf(double x) { return __isinf(x); }
int __isnan(double x) { return x != x; }
int __isnanf(float x) { return x != x; }
int __finite(double x) { return x - x == 0; }
int __finitef(float x) { return x - x == 0; }
int finite(double x) { return x - x == 0; }
float fabsf(float x) { return x < 0 ? -x : x; }

/* strtod: decimal and special forms, resolved through the engine's tables.
 * Harnesses that use floats supply the value table (see env.h). */
double env_strtod(const char *s, char **end);
double strtod(const char *s, char **end) { return env_strtod(s, end); }
float strtof(const char *s, char **end) { return (float)env_strtod(s, end); }
