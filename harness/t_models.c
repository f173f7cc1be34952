/* Self-test of the engine: library models and instructions that the code under
 * test does not use at present.  Every path is replayed natively and must agree. */
#define _GNU_SOURCE
#include <string.h>
#include <strings.h>
#include <stdlib.h>
#include <ctype.h>
#include <math.h>
#include <inttypes.h>
#include "vse.h"
int harness_main(void);
static int cmp(const void *a, const void *b) { return *(const signed char *)a - *(const signed char *)b; }
int harness_main(void)
{
	char t[5] = "", d[32] = ""; unsigned w = vse_choose(6, "what");
	vse_symbolic(t, 3, "text");
	unsigned char c = (unsigned char)t[0];
	switch (w) {
	case 0:
		vse_observe(!!isdigit(c)); vse_observe(!!isspace(c)); vse_observe(!!isalpha(c)); vse_observe(!!isxdigit(c)); vse_observe(!!ispunct(c)); vse_observe(!!iscntrl(c)); vse_observe(!!isprint(c));
		vse_observe((unsigned)tolower(c)); vse_observe((unsigned)toupper(c));
		break;
	case 1: {
		unsigned x = 0; memcpy(&x, t, 3);
		vse_observe((unsigned)__builtin_popcount(x)); vse_observe(x ? (unsigned)__builtin_ctz(x) : 99); vse_observe(x ? (unsigned)__builtin_clz(x) : 99); vse_observe(x << 7 | x >> 25); vse_observe(__builtin_bswap32(x)); vse_observe((unsigned)__builtin_ffs((int)x));
		break; }
	case 2:
		vse_observe(strspn(t, "ab")); vse_observe(strcspn(t, "xy")); vse_observe(strpbrk(t, "x") ? (unsigned)(strpbrk(t, "x") - t) : 9); vse_observe(strstr(t, "ab") ? (unsigned)(strstr(t, "ab") - t) : 9);
		break;
	case 3:
		vse_observe((unsigned)(stpcpy(d, t) - d)); strncat(d, "abcdef", 3); vse_observe((unsigned char)d[4]); vse_observe(strlen(d)); vse_observe(memrchr(t, 'x', 3) ? (unsigned)((char *)memrchr(t, 'x', 3) - t) : 9);
		vse_observe((unsigned)(strchrnul(t, ':') - t)); vse_observe((unsigned)((char *)mempcpy(d, t, 2) - d));
		break;
	case 4:
		qsort(t, 3, 1, cmp); vse_check(t[0] <= t[1] && t[1] <= t[2], "sorted");
		vse_observe(bsearch("m", t, 3, 1, cmp) != NULL);
		break;
	case 5: {
		char *e; intmax_t v = strtoimax(t, &e, 10);
		vse_observe((uint64_t)v); vse_observe((unsigned)(e - t)); vse_observe((uint64_t)llabs(v)); vse_observe((uint64_t)atoll(t));
		vse_observe(!!isinf((double)v)); vse_observe(!!isfinite((double)v)); vse_observe(!!signbit((double)v)); vse_observe(!!isnan((double)v));
		break; }
	}
	vse_reach("done");
	return 0;
}
