/* Native replay runtime: reads the solver's values from $VSE_INPUTS. */
#include "vse.h"
#include <errno.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <malloc.h>
static FILE *in;
static int trace;
int harness_main(void);
static int hexv(int c) { return c <= '9' ? c - '0' : c - 'a' + 10; }
void vse_symbolic(void *p, size_t n, const char *name)
{
	static char line[1 << 16];
	char *sp;
	if (!in || !fgets(line, sizeof line, in)) { memset(p, 0, n); fprintf(stderr, "REPLAY: inputs exhausted at %s\n", name); if (getenv("VSE_STRICT")) exit(97); return; }
	sp = strrchr(line, ' ');
	*sp++ = 0;
	if (strcmp(line, name)) { fprintf(stderr, "REPLAY: input mismatch: have %s want %s\n", line, name); exit(97); }
	for (size_t i = 0; i < n; i++) ((uint8_t *)p)[i] = (uint8_t)(hexv(sp[2 * i]) * 16 + hexv(sp[2 * i + 1]));
	if (trace) fprintf(stderr, "INPUT %s %s", name, sp);
}
void vse_assume(int c) { if (!c) { printf("REPLAY: assumption does not hold\n"); fflush(stdout); _Exit(96); } }
void vse_check(int c, const char *msg) { if (!c) { printf("CHECK FAILED: %s\n", msg); fflush(stdout); _Exit(99); } }
void vse_fail(const char *msg) { vse_check(0, msg); }
void vse_reach(const char *tag) { if (trace) fprintf(stderr, "REACH %s\n", tag); }
uint64_t vse_concretize(uint64_t v) { return v; }
void vse_observe(uint64_t v) { printf("%llx ", (unsigned long long)v); }
unsigned env_heap_live(void);
unsigned vse_heap_live(void) { return env_heap_live(); }
int vse_is_symbolic(uint64_t v) { (void)v; return 0; }
int vse_strtod(const char *s, double *out) { char *e; errno = 0; *out = strtod(s, &e); return (int)(e - s) + (errno == ERANGE ? 65536 : 0); }
void vse_end(void) { fflush(stdout); _Exit(0); }
void vse_debug(const char *m, uint64_t v) { if (trace) fprintf(stderr, "DBG %s %llx\n", m, (unsigned long long)v); }
void vse_format_check(const char *fmt, va_list ap)
{
	static char buf[1 << 16];
	va_list q;
	if (getenv("VSE_TRACEFMT")) { printf("FMT: %s\n", fmt); fflush(stdout); }
	va_copy(q, ap);
	for (const char *p = fmt; *p; p++) {
		int lng = 0, stars = 0;
		if (*p != '%') continue;
		for (p++; *p && strchr("-+ #0123456789.*", *p); p++) if (*p == '*') { stars++; (void)va_arg(q, int); }
		for (; *p && strchr("hlzjt", *p); p++) if (*p != 'h') lng = 1;
		if (!*p) break;
		if (*p == '%') continue;
		if (*p == 's') { const char *t = va_arg(q, const char *); if (!t) vse_fail("NULL is logged as a string"); if (!stars && strlen(t) > 1 << 20) abort(); }
		else if (strchr("eEfgG", *p)) (void)va_arg(q, double);
		else if (lng || *p == 'p') (void)va_arg(q, long);
		else (void)va_arg(q, int);
	}
	va_end(q);
	vsnprintf(buf, sizeof buf, fmt, ap);
}
int main(void)
{
	const char *f = getenv("VSE_INPUTS");
	trace = getenv("VSE_TRACE") != NULL;
	if (f) in = fopen(f, "r");
	harness_main();
	fflush(stdout);
	return 0;
}
