/* Case insensitive comparison of any two NUL terminated byte strings.
 * LA, LB  maximum lengths in bytes      TWO 1: only 2-byte lead bytes (the letter tables)
 * PRE n: after up to n letters, of two bytes with PREU 1, in either case
 * ASCII 1: both strings ASCII     RAW 1: any bytes except two-byte letters (TWO) and most ASCII (ASCII) */
#include <string.h>
#include <stdlib.h>
#include "vse.h"
#include "utf8.h"
#include "fold_ref.h"
#ifndef LA
#define LA 3
#endif
#ifndef LB
#define LB 3
#endif
#ifndef TWO
#define TWO 0
#endif
#ifndef ASCII
#define ASCII 0
#endif
#ifndef RAW
#define RAW 0
#endif
#ifndef PRE
#define PRE 0
#endif
#ifndef PREU
#define PREU 0
#endif
static unsigned pre;
int harness_main(void);
#define BAD 0x200000u           /* a byte that cannot start a character */
#define REPL 0xfffdu
static unsigned low(unsigned c)
{
	unsigned r = c;
	for (unsigned i = 0; i < ARRLEN(ref_fold); i++) {
		unsigned in = (c >= ref_fold[i].a) & (c <= ref_fold[i].b) & (((c - ref_fold[i].a) & (unsigned)(ref_fold[i].step - 1)) == 0);
		r += in * (unsigned)(int)ref_fold[i].delta;
	}
	return r;
}
/* characters of a string; returns how many */
static unsigned chars(const uint8_t *s, unsigned *out)
{
	unsigned n = 0;
	while (*s) {
		unsigned b = *s, len, c;
		if (b < 0x80) { out[n++] = low(b); s++; continue; }
		if (b >= 0xc0 && b < 0xe0) { len = 2; c = b & 0x1f; }
		else if (b >= 0xe0 && b < 0xf0) { len = 3; c = b & 0x0f; }
		else if (b >= 0xf0 && b < 0xf8) { len = 4; c = b & 0x07; }
		else { out[n++] = BAD; s++; continue; }
		unsigned i;
		for (i = 1; i < len; i++) { if ((s[i] & 0xc0) != 0x80) break; c = c << 6 | (s[i] & 0x3f); }
		if (i < len) { out[n++] = REPL; s += i; continue; }
		if (c < (len == 2 ? 0x80u : len == 3 ? 0x800u : 0x10000u)) { out[n++] = REPL; s += len; continue; }
		out[n++] = low(c); s += len;
	}
	return n;
}
static uint8_t *text(unsigned max, unsigned *n, bool upper)
{
	uint8_t *p, *t;
	*n = vse_choose(max + 1, "len");
	t = p = malloc(pre * (PREU + 1) + *n + 1);
	for (unsigned i = 0; i < pre; i++) {
		uint8_t c = (uint8_t)(i * 5 % 23);
		if (PREU) { *p++ = 0xc3; *p++ = (uint8_t)(upper ? 0x80 + c % 20 : 0xa0 + c % 20); }
		else *p++ = (uint8_t)(upper ? 'A' + c : 'a' + c);
	}
	if (*n) vse_symbolic(p, *n, "bytes");
	for (unsigned i = 0; i < *n; i++) vse_assume(p[i] != 0);
	if (ASCII) for (unsigned i = 0; i < *n; i++) vse_assume(p[i] < 0x80);
	if (TWO) for (unsigned i = 0; i < *n; i++) vse_assume(i % 2 ? (p[i] & 0xc0) == 0x80 : (p[i] & 0xe0) == 0xc0 && p[i] < 0xce);
	if (RAW) for (unsigned i = 0; i < *n; i++) vse_assume((p[i] >= 0x80) & ((p[i] < 0xc0) | (p[i] >= 0xcb)) | (p[i] < 0x80) & (p[i] >= 'Y'));
	if (TWO && *n) p[0] = (uint8_t)vse_concretize(p[0]);
	p[*n] = 0;
	*n += pre * (PREU + 1);
	return t;
}
int harness_main(void)
{
	unsigned na, nb, ca[PRE + 8], cb[PRE + 8], ka, kb;
	uint8_t *a, *b;
	if (PRE) { static const unsigned n_[] = { 0, 6, 7, 8, 14, 15, 16, 30, 31, 32, 62, 63, 64, 126, 127, 128, 254, 255, 256, PRE }; pre = n_[vse_choose(ARRLEN(n_), "before")]; if (pre > PRE) vse_end(); }
	a = text(LA, &na, false); b = text(LB, &nb, PRE != 0);
	int r, q; bool eq;
	if (TWO && (na != LA || nb != LB)) vse_end();
	r = cyaml_utf8_casecmp(a, b);
	vse_observe(r == 0);
	ka = chars(a, ca); kb = chars(b, cb);
	eq = ka == kb;
	for (unsigned i = 0; i < ka && i < kb; i++) eq &= ca[i] == cb[i];
	vse_check((r == 0) == eq, "strings compare equal exactly if they are the same letters up to case");
	if (!TWO) {
		q = cyaml_utf8_casecmp(b, a);
		vse_check((q == 0) == (r == 0), "comparison does not depend on the order of its arguments");
		vse_check(cyaml_utf8_casecmp(a, a) == 0, "a string equals itself");
	}
	if (r == 0) { if (na) vse_reach("equal"); } else vse_reach("different");
	return 0;
}
