/* Calls inside calls, and calls after calls.
 *
 * NEST 1: one complete call (any of the kinds below) is made from inside another,
 *         at any allocation, message or validation callback of it
 * NEST 0: HIST calls one after the other, of any kinds
 *         REPEAT n: one kind of call n times, with alternating data
 * OUTER   restricts the (first) outer call to one kind
 * MUT     the client changes its schema in place between the calls (NEST 0 only)
 * LOGGED  1: messages are logged at debug level and are nesting points too */
#include "zooapi.h"
#ifndef NEST
#define NEST 1
#endif
#ifndef HIST
#define HIST 3
#endif
#ifndef LOGGED
#define LOGGED 0
#endif
#ifdef MUT
#define CONST
#else
#define CONST const
#endif
#define P_ CYAML_FLAG_POINTER
#define O_ CYAML_FLAG_OPTIONAL
struct zi { char *s; uint8_t *w; };
struct z { uint8_t u; int16_t i; uint8_t e; uint16_t fl; uint32_t bits; char *s; char es[4]; uint8_t b; float f; struct zi *m; struct zi em; uint16_t *q; unsigned q_n; struct zi **mq; uint8_t mq_n; uint8_t fx[2]; int64_t d; uint8_t lower, upper; };
static bool cbu(void *c, const cyaml_schema_value_t *s, uint64_t v);
static bool cbs(void *c, const cyaml_schema_value_t *s, const char *v);
static bool cbm(void *c, const cyaml_schema_value_t *s, const cyaml_data_t *v);
static bool cbq(void *c, const cyaml_schema_value_t *s, const cyaml_data_t *v, size_t n);
static CONST cyaml_strval_t strs[] = { { "red", 1 }, { "blue", 2 }, { "grey", 4 }, { "RED", 8 } };
static CONST cyaml_bitdef_t bits[] = { { "lo", 0, 3 }, { "hi", 4, 8 }, { "LO", 12, 3 } };
static const cyaml_schema_value_t s_u8 = { CYAML_VALUE_UINT(0, uint8_t) };
static CONST cyaml_schema_value_t s_u16 = { .type = CYAML_UINT, .data_size = 2, .unsigned_integer = { .validation_cb = cbu, .max = 60000 } };
static CONST cyaml_schema_field_t zi_f[] = {
	{ .key = "s", .data_offset = offsetof(struct zi, s), .value = { .type = CYAML_STRING, .flags = P_, .data_size = 1, .string = { .min = 0, .max = 9, .validation_cb = cbs } } },
	{ .key = "w", .data_offset = offsetof(struct zi, w), .value = { .type = CYAML_UINT, .flags = P_ | O_, .data_size = 1, .unsigned_integer = { .max = 255 } } },
	CYAML_FIELD_END };
static const cyaml_schema_value_t s_zi = { .type = CYAML_MAPPING, .flags = P_, .data_size = sizeof(struct zi), .mapping = { .fields = zi_f, .validation_cb = cbm } };
#define F(k, ...) { .key = #k, .data_offset = offsetof(struct z, k), .value = { __VA_ARGS__ } }
static CONST cyaml_schema_field_t z_f[] = {
	F(u, .type = CYAML_UINT, .data_size = 1, .unsigned_integer = { .validation_cb = cbu, .max = 255 }),
	F(i, .type = CYAML_INT, .data_size = 2),
	F(e, .type = CYAML_ENUM, .flags = CYAML_FLAG_STRICT, .data_size = 1, .enumeration = { .strings = strs, .count = 4 }),
	F(fl, .type = CYAML_FLAGS, .flags = O_ | CYAML_FLAG_STRICT, .data_size = 2, .enumeration = { .strings = strs, .count = 4 }),
	F(bits, .type = CYAML_BITFIELD, .flags = O_, .data_size = 4, .bitfield = { .bitdefs = bits, .count = 3 }),
	F(s, .type = CYAML_STRING, .flags = P_ | O_, .data_size = 1, .string = { .min = 0, .max = 9, .validation_cb = cbs }),
	F(es, .type = CYAML_STRING, .flags = O_, .data_size = 4, .string = { .min = 0, .max = 3 }),
	F(b, .type = CYAML_BOOL, .flags = O_, .data_size = 1),
	F(f, .type = CYAML_FLOAT, .flags = O_, .data_size = 4),
	F(m, .type = CYAML_MAPPING, .flags = P_ | O_, .data_size = sizeof(struct zi), .mapping = { .fields = zi_f, .validation_cb = cbm }),
	F(em, .type = CYAML_MAPPING, .flags = O_, .data_size = sizeof(struct zi), .mapping = { .fields = zi_f }),
	{ .key = "q", .data_offset = offsetof(struct z, q), .count_offset = offsetof(struct z, q_n), .count_size = 4, .value = { .type = CYAML_SEQUENCE, .flags = P_ | O_, .data_size = 2, .sequence = { .entry = &s_u16, .min = 0, .max = 5, .validation_cb = cbq } } },
	{ .key = "mq", .data_offset = offsetof(struct z, mq), .count_offset = offsetof(struct z, mq_n), .count_size = 1, .value = { .type = CYAML_SEQUENCE, .flags = P_ | O_, .data_size = 8, .sequence = { .entry = &s_zi, .min = 0, .max = 5 } } },
	F(fx, .type = CYAML_SEQUENCE_FIXED, .flags = O_, .data_size = 1, .sequence = { .entry = &s_u8, .min = 2, .max = 2 }),
	/* keys that differ in case only: the first one gets the value unless case matters */
	{ .key = "k", .data_offset = offsetof(struct z, lower), .value = { .type = CYAML_UINT, .flags = O_, .data_size = 1 } },
	{ .key = "K", .data_offset = offsetof(struct z, upper), .value = { .type = CYAML_UINT, .flags = O_, .data_size = 1 } },
	F(d, .type = CYAML_INT, .flags = O_, .data_size = 8, .integer = { .missing = -77 }),
	CYAML_FIELD_END };
static const cyaml_schema_value_t zoo_schema = { .type = CYAML_MAPPING, .flags = P_, .data_size = sizeof(struct z), .mapping = { .fields = z_f, .validation_cb = cbm } };
static const char *const zoo_keys[] = { "u" };
static const char *const zoo_vals[] = { "7" };
#include "gen.h"
#include "ref.h"
#include "refsave.h"

/* two sets of data, their documents, and a configuration for each */
static uint8_t w0 = 9, w1 = 31;
static struct zi a0 = { (char *)"aa", &w0 }, a1 = { (char *)"", NULL }, b0 = { (char *)"bbb", &w1 };
static struct zi *am[] = { &a0, &a1 }, *bm[] = { &b0 };
static uint16_t aq[] = { 5, 600 }, bq[] = { 59999, 1, 22 };
static struct z data[2] = {
	{ .u = 200, .i = -300, .e = 2, .fl = 13, .bits = 0x1075, .s = (char *)"text", .es = "abc", .b = 1, .f = 7, .m = &a0, .em = { (char *)"e", NULL }, .q = aq, .q_n = 2, .mq = am, .mq_n = 2, .fx = { 3, 4 }, .d = -77, .lower = 0, .upper = 5 },
	{ .u = 1, .i = 12345, .e = 1, .fl = 1, .bits = 0x36, .s = NULL, .es = "", .b = 0, .f = 12, .m = NULL, .em = { (char *)"other", &w1 }, .q = bq, .q_n = 3, .mq = bm, .mq_n = 1, .fx = { 255, 0 }, .d = 1234567890123, .lower = 6, .upper = 0 } };
static int ctxs[2];
static void client(unsigned v)      /* what the client's schema is for data v */
{
#ifdef MUT
	static const cyaml_schema_field_t end = CYAML_FIELD_END;
	static cyaml_schema_field_t all[ARRLEN(z_f)], zi[ARRLEN(zi_f)];
	static bool had;
	if (!had) { memcpy(all, z_f, sizeof all); memcpy(zi, zi_f, sizeof zi); }
	had = true;
	memcpy(z_f, all, sizeof all);
	memcpy(zi_f, zi, sizeof zi);
	if (v == 0) zi_f[1] = end;
	if (v == 0) z_f[ARRLEN(all) - 2] = end;      /* one field less */
	else { z_f[0] = all[1]; z_f[1] = all[0]; }
	z_f[11].value.sequence.max = v ? 5 : 2;
	z_f[12].key = v ? "mq" : "qm";
	z_f[3].value.enumeration.count = v ? 1 : 4;
	strs[0].val = v ? 3 : 1; strs[1].str = v ? "green" : "blue";
	bits[0].offset = v ? 16 : 0;
	s_u16.unsigned_integer.max = v ? 60000 : 600;
	zi_f[0].value.string.max = v ? 9 : 2;
	data[1].e = 3; data[1].fl = 3; data[1].bits = 0x60030;
#else
	(void)v;
#endif
}
static void script(unsigned v, bool bad)
{
	env_nscript = 0;
	sc_start();
#define T(t) sc_scalar(t)
#define KV(k, x) (T(k), T(x))
	sc_map();
	if (v == 0) {
		KV("u", "200"); KV("i", "-300"); KV("e", "blue");
		T("fl"); sc_seq(); T("red"); T("grey"); T("RED"); sc_seqend();
		T("bits"); sc_map(); KV("lo", "5"); KV("hi", "7"); KV("LO", "1"); sc_mapend();
		KV("s", "text"); KV("es", "abc"); KV("b", "yes"); KV("f", "7");
		T("m"); sc_map(); KV("s", "aa"); if (zi_f[1].key) KV("w", "9"); sc_mapend();
		T("em"); sc_map(); KV("s", "e"); sc_mapend();
		T("q"); sc_seq(); T("5"); T("600"); sc_seqend();
		T(z_f[12].key); sc_seq(); sc_map(); KV("s", "aa"); if (zi_f[1].key) KV("w", "9"); sc_mapend(); sc_map(); KV("s", ""); sc_mapend(); sc_seqend();
		T("fx"); sc_seq(); T("3"); if (!bad) T("4"); sc_seqend(); KV("K", "5");
	} else {
		KV("K", "6"); KV("D", "1234567890123"); KV("U", "1"); KV("I", "12345"); KV("E", "RED");
		T("fl"); sc_seq(); T("RED"); sc_seqend();
		T("Bits"); sc_map(); KV("LO", "6"); KV("HI", "3"); sc_mapend();
		KV("es", ""); KV("b", "no"); KV("f", "12"); T("unknown"); sc_seq(); T("x"); sc_seqend();
		T("Em"); sc_map(); KV("w", "31"); KV("S", "other"); sc_mapend();
		T("q"); sc_seq(); T("59999"); T("1"); T("22"); sc_seqend();
		T("mQ"); sc_seq(); sc_map(); KV("s", "bbb"); KV("w", "31"); sc_mapend(); sc_seqend();
		T("fx"); sc_seq(); T("255"); T(bad ? "256" : "0"); sc_seqend();
	}
	sc_mapend();
	sc_end();
}

/* ---- the hook ---------------------------------------------------------- */
static unsigned level, inner_kind, inner_v;     /* level 0: outside any call */
static bool may_nest, nested;
static void *cur[3];                            /* context of the running call, per level */
static void run(unsigned kind, unsigned v);
static void hook(void)
{
	struct env_state *st;
	if (!may_nest || nested || !vse_bool("nest")) return;
	nested = true;
	st = env_suspend();
	run(inner_kind, inner_v);
	env_resume(st);
	vse_reach("nested");
}
static void *mem(void *ctx, void *p, size_t n) { vse_check(ctx == cur[level], "the allocator gets the context of its call"); hook(); return env_mem(NULL, p, n); }
static void logger(cyaml_log_t l, void *ctx, const char *fmt, va_list ap) { (void)l; vse_check(ctx == cur[level], "the log function gets the context of its call"); hook(); vse_format_check(fmt, ap); }
static bool cb(void *ctx) { vse_check(ctx == cur[level], "validation callbacks get the context of their call"); hook(); return true; }
static bool cbu(void *c, const cyaml_schema_value_t *s, uint64_t v) { (void)s; (void)v; return cb(c); }
static bool cbs(void *c, const cyaml_schema_value_t *s, const char *v) { (void)s; (void)v; return cb(c); }
static bool cbm(void *c, const cyaml_schema_value_t *s, const cyaml_data_t *v) { (void)s; (void)v; return cb(c); }
static bool cbq(void *c, const cyaml_schema_value_t *s, const cyaml_data_t *v, size_t n) { (void)s; (void)v; (void)n; return cb(c); }

static void run(unsigned kind, unsigned v)
{
	static cyaml_config_t cfgs[3];      /* the client has one configuration per level and rewrites it */
#define cfg cfgs[level]
	struct z *d = NULL, *want = &data[v];
	cyaml_err_t err;
	client(v);
	level++;
	cur[level] = &ctxs[v];
	cfg = (cyaml_config_t){ .mem_fn = mem, .mem_ctx = &ctxs[v], .log_fn = LOGGED ? logger : NULL, .log_ctx = &ctxs[v], .log_level = LOGGED ? CYAML_LOG_DEBUG : CYAML_LOG_ERROR, .validation_ctx = &ctxs[v],
		.flags = v ? CYAML_CFG_CASE_INSENSITIVE | CYAML_CFG_IGNORE_UNKNOWN_KEYS | CYAML_CFG_STYLE_FLOW : CYAML_CFG_DOCUMENT_DELIM };
	switch (kind) {
	case 0: case 1:     /* load; 1: fails at the last field */
		script(v, kind == 1);
		env_next_event = env_script_event;
		err = cyaml_load_data((const uint8_t *)"", 0, &cfg, &zoo_schema, (cyaml_data_t **)&d, NULL);
		if (kind) { vse_check(err == (v ? CYAML_ERR_INVALID_VALUE : CYAML_ERR_SEQUENCE_ENTRIES_MIN) && d == NULL, "a failing load fails as it does on its own"); break; }
		vse_check(err == CYAML_OK, "a load succeeds as it does on its own");
		same_value(C_ALL, &zoo_schema, (uint8_t *)&want, (uint8_t *)&d, 0, true);
		vse_check(cyaml_free(&cfg, &zoo_schema, d, 0) == CYAML_OK, "loaded data is freed");
		break;
	case 2: {           /* save */
		char *out = NULL; size_t len = 0; bool eq = true;
		env_chunks = 20; env_chunk_max = 2; env_chunk_now = true;
		err = cyaml_save_data(&out, &len, &cfg, &zoo_schema, want, 0);
		vse_check(err == CYAML_OK, "a save succeeds as it does on its own");
		vse_check(ref_save(&cfg, &zoo_schema, (uint8_t *)want, 0, true) == CYAML_OK, "harness: reference of saving");
		vse_check(len == env_nwritten, "the buffer has the length of the output");
		for (unsigned i = 0; i < env_nwritten; i++) eq &= (unsigned char)out[i] == env_written[i];
		vse_check(eq, "the buffer is the output");
		if (out) cfg.mem_fn(cfg.mem_ctx, out, 0);
		break; }
	case 3:             /* copy */
		err = cyaml_copy(&cfg, &zoo_schema, want, 0, (cyaml_data_t **)&d);
		vse_check(err == CYAML_OK, "a copy succeeds as it does on its own");
		same_value(C_ALL, &zoo_schema, (uint8_t *)&want, (uint8_t *)&d, 0, true);
		vse_check(cyaml_free(&cfg, &zoo_schema, d, 0) == CYAML_OK, "copied data is freed");
		break;
	case 4:             /* a save that fails late */
		{ char *out = NULL; size_t len = 5; struct z bad = *want; struct zi *x[3] = { &b0, &a0, NULL };
		bad.mq = x; bad.mq_n = 3;
		err = cyaml_save_data(&out, &len, &cfg, &zoo_schema, &bad, 0);
		vse_check(err != CYAML_OK && out == NULL && len == 5, "a failing save fails as it does on its own");
		break; }
#ifdef MUT
	case 6:             /* a document of one small mapping */
		{ struct zi *e = NULL, *w = v ? &b0 : &a0;
		env_nscript = 0; sc_start(); sc_map(); KV("s", w->s); if (zi_f[1].key) KV("w", "31"); sc_mapend(); sc_end();
		env_next_event = env_script_event;
		err = cyaml_load_data((const uint8_t *)"", 0, &cfg, &s_zi, (cyaml_data_t **)&e, NULL);
		vse_check(err == CYAML_OK, "a load succeeds as it does on its own");
		same_value(C_ALL, &s_zi, (uint8_t *)&w, (uint8_t *)&e, 0, true);
		vse_check(cyaml_free(&cfg, &s_zi, e, 0) == CYAML_OK, "loaded data is freed");
		break; }
	case 7:
		{ struct zi *e = NULL, *w = v ? &b0 : &a0;
		err = cyaml_copy(&cfg, &s_zi, w, 0, (cyaml_data_t **)&e);
		vse_check(err == CYAML_OK, "a copy succeeds as it does on its own");
		same_value(C_ALL, &s_zi, (uint8_t *)&w, (uint8_t *)&e, 0, true);
		vse_check(cyaml_free(&cfg, &s_zi, e, 0) == CYAML_OK, "copied data is freed");
		break; }
	case 8:
		{ struct zi *w = v ? &b0 : &a0; char *out = NULL; size_t len = 0; bool eq = true;
		env_chunks = 2; env_chunk_max = 2; env_chunk_now = true;
		vse_check(cyaml_save_data(&out, &len, &cfg, &s_zi, w, 0) == CYAML_OK, "a save succeeds as it does on its own");
		vse_check(ref_save(&cfg, &s_zi, (uint8_t *)w, 0, true) == CYAML_OK, "harness: reference of saving");
		vse_check(len == env_nwritten, "the buffer has the length of the output");
		for (unsigned i = 0; i < env_nwritten; i++) eq &= (unsigned char)out[i] == env_written[i];
		vse_check(eq, "the buffer is the output");
		if (out) cfg.mem_fn(cfg.mem_ctx, out, 0);
		break; }
#define KINDS 9
#else
#define KINDS 6
#endif
	default:
		vse_check(!strcmp(cyaml_strerror(CYAML_OK), "Success") && strcmp(cyaml_strerror(CYAML_ERR_OOM), cyaml_strerror(CYAML_ERR_ALIAS)), "error texts stay the same");
	}
	env_check_clean("a call leaves nothing behind");
	level--;
#undef cfg
}
int harness_main(void)
{
#ifdef OUTER
	unsigned k = OUTER;
#else
	unsigned k = vse_choose(KINDS, "kind");
#endif
	unsigned v = vse_choose(2, "data");
#ifdef REPEAT
	run(k, v);
	for (unsigned i = 1; i < REPEAT; i++) { env_reset(); run(k, v ^= 1); }
	vse_reach("history");
#elif NEST
	inner_kind = vse_choose(6, "inner"); inner_v = vse_choose(2, "inner-data");
	may_nest = true;
	run(k, v);
	if (!nested) vse_reach("alone");
#else
	run(k, v);
	for (unsigned i = 1; i < HIST; i++) { env_reset(); k = vse_choose(KINDS, "kind"); v = vse_choose(2, "data"); run(k, v); }
	vse_reach("history");
#endif
	return 0;
}
