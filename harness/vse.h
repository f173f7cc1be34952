/* Interface between harnesses and the symbolic executor (engine/vse.cpp).
 * Under native replay the same functions are provided by native.c. */
#ifndef VSE_H
#define VSE_H
#include <stdint.h>
#include <stddef.h>
#include <stdbool.h>
#include <stdarg.h>
void vse_symbolic(void *p, size_t n, const char *name);
void vse_assume(int c);
void vse_check(int c, const char *msg);
void vse_fail(const char *msg);
void vse_reach(const char *tag);
uint64_t vse_concretize(uint64_t v);
void vse_observe(uint64_t v);
unsigned vse_heap_live(void);
size_t vse_obj_size(const void *p);
int vse_is_symbolic(uint64_t v);
/* fails unless the arguments fit the format and every string is readable */
void vse_format_check(const char *fmt, va_list ap);
/* converts a text that is not symbolic and gives the length used, plus 65536
 * if it is out of range; gives -1 for a symbolic text */
int vse_strtod(const char *s, double *out);
void vse_end(void);
void vse_debug(const char *m, uint64_t v);

static inline uint8_t vse_u8(const char *n) { uint8_t v; vse_symbolic(&v, sizeof v, n); return v; }
static inline uint16_t vse_u16(const char *n) { uint16_t v; vse_symbolic(&v, sizeof v, n); return v; }
static inline uint32_t vse_u32(const char *n) { uint32_t v; vse_symbolic(&v, sizeof v, n); return v; }
static inline uint64_t vse_u64(const char *n) { uint64_t v; vse_symbolic(&v, sizeof v, n); return v; }
static inline int64_t vse_i64(const char *n) { return (int64_t)vse_u64(n); }
/* symbolic choice of one of n alternatives; every alternative is explored */
static inline unsigned vse_choose(unsigned n, const char *name) {
	uint8_t v = vse_u8(name);
	vse_assume(v < n);
	return (unsigned)vse_concretize(v);
}
static inline bool vse_bool(const char *n) { return vse_choose(2, n); }
/* symbolic value in [0, n) without forking */
static inline unsigned vse_range(unsigned n, const char *name) {
	uint8_t v = vse_u8(name);
	vse_assume(v < n);
	return v;
}
#define ARRLEN(a) (sizeof(a) / sizeof((a)[0]))
#endif
