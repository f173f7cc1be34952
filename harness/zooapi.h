/* What a harness knows about a schema of the zoo. */
#ifndef ZOOAPI_H
#define ZOOAPI_H
#include <string.h>
#include "env.h"

/* categories of guarantees; a job asserts only those of its property (CATS) */
enum {
	C_MAP = 1 << 0, C_SEQ = 1 << 1, C_INT = 1 << 2, C_ENUM = 1 << 3, C_CB = 1 << 4,
	C_KEY = 1 << 5, C_DEF = 1 << 6, C_NULL = 1 << 7, C_IGN = 1 << 8, C_STR = 1 << 9,
	C_BOOL = 1 << 10, C_FLOAT = 1 << 11, C_ERR = 1 << 12, C_DOC = 1 << 13, C_ZERO = 1 << 14,
	C_NONE = 0, C_SAVE = 1 << 16, C_RT = 1 << 17, C_SFAIL = 1 << 18, C_COPY = 1 << 19, C_CFAIL = 1 << 20, C_FREE = 1 << 21, C_LFAIL = 1 << 22, C_FILE = 1 << 23,
	C_ALL = 0xffffff
};
#ifndef CATS
#define CATS C_ALL
#endif
/* assert c if the job decides category cat; otherwise leave the path */
#define CK(cat, c, msg) do { if ((CATS) & (cat)) vse_check((c), msg); else if (!(c)) vse_end(); } while (0)
/* the same where what follows makes sense even if it does not hold */
#define CK_(cat, c, msg) do { if ((CATS) & (cat)) vse_check((c), msg); } while (0)

/* record of validation callback invocations */
struct cb_rec { const cyaml_schema_value_t *schema; uint64_t u; double d; char txt[ENV_TXT]; const void *ptr; uint64_t count; bool ret; void *ctx; };
#define CB_MAX 24
static struct cb_rec cb_log[CB_MAX];
static unsigned cb_n, cb_pos;
static bool cb_replay;              /* callbacks decide as they did before */
static bool cb_symbolic;            /* callbacks decide nondeterministically */
static struct cb_rec *cb_new(void *ctx, const cyaml_schema_value_t *s)
{
	struct cb_rec *r;
	if (cb_n >= CB_MAX) vse_fail("harness: callback log too small");
	r = &cb_log[cb_n++];
	if (cb_replay) return r;
	memset(r, 0, sizeof *r);
	r->schema = s; r->ctx = ctx;
	r->ret = cb_symbolic ? vse_bool("cb") : true;
	return r;
}
static bool cb_int(void *ctx, const cyaml_schema_value_t *s, int64_t v) { struct cb_rec *r = cb_new(ctx, s); r->u = (uint64_t)v; return r->ret; }
static bool cb_uint(void *ctx, const cyaml_schema_value_t *s, uint64_t v) { struct cb_rec *r = cb_new(ctx, s); r->u = v; return r->ret; }
static bool cb_float(void *ctx, const cyaml_schema_value_t *s, double v) { struct cb_rec *r = cb_new(ctx, s); r->d = v; return r->ret; }
static bool cb_string(void *ctx, const cyaml_schema_value_t *s, const char *v) { struct cb_rec *r = cb_new(ctx, s); size_t n = vse_concretize(strlen(v)); if (n < ENV_TXT) memcpy(r->txt, v, n + 1); return r->ret; }
static bool cb_map(void *ctx, const cyaml_schema_value_t *s, const cyaml_data_t *v) { struct cb_rec *r = cb_new(ctx, s); r->ptr = v; r->u = s->data_size ? *(const uint8_t *)v : 0; return r->ret; }
static bool cb_seq(void *ctx, const cyaml_schema_value_t *s, const cyaml_data_t *v, size_t n) { struct cb_rec *r = cb_new(ctx, s); r->ptr = v; r->count = n; return r->ret; }

static inline bool is_seq(const cyaml_schema_value_t *s) { return s->type == CYAML_SEQUENCE || s->type == CYAML_SEQUENCE_FIXED; }
static inline bool has(const cyaml_schema_value_t *s, unsigned f) { return (s->flags & f) == f; }
static inline uint64_t rd(const uint8_t *p, unsigned n) { uint64_t v = 0; memcpy(&v, p, n); return v; }
static inline void wr(uint8_t *p, uint64_t v, unsigned n) { memcpy(p, &v, n); }
/* distance between two entries of a sequence */
static inline size_t stride(const cyaml_schema_value_t *s)
{
	const cyaml_schema_value_t *e = s->sequence.entry;
	if (e->flags & CYAML_FLAG_POINTER) return sizeof(void *);
	if (e->type == CYAML_SEQUENCE_FIXED) return stride(e) * e->sequence.max;
	return e->data_size;
}
#endif
