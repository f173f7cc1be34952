/* The library's entry points, with any combination of good and bad parameters.
 * OP 0 load 1 save 2 copy 3 free 4 cyaml_mem 5 strerror 6 cyaml_log
 * FILEAPI 1: cyaml_load_file / cyaml_save_file     FAULT 1: one failure anywhere */
#include "zooapi.h"
#include "gen.h"
#include <stdio.h>
#ifndef OP
#define OP 0
#endif
#ifndef FILEAPI
#define FILEAPI 0
#endif
#ifndef FAULT
#define FAULT 0
#endif
struct zi { uint8_t u; char *s; };
static bool cb_called;
static bool any_cb(void *c, const cyaml_schema_value_t *s, const cyaml_data_t *v) { (void)c; (void)s; (void)v; cb_called = true; return true; }
static const cyaml_schema_field_t z_f[] = { CYAML_FIELD_UINT("u", CYAML_FLAG_OPTIONAL, struct zi, u), CYAML_FIELD_STRING_PTR("s", CYAML_FLAG_POINTER | CYAML_FLAG_OPTIONAL, struct zi, s, 0, 9), CYAML_FIELD_END };
static const cyaml_schema_value_t ent = { CYAML_VALUE_UINT(CYAML_FLAG_DEFAULT, uint16_t) };
static const cyaml_schema_value_t schemas[] = {
	{ .type = CYAML_MAPPING, .flags = CYAML_FLAG_POINTER, .data_size = sizeof(struct zi), .mapping = { .fields = z_f, .validation_cb = any_cb } },
	{ .type = CYAML_SEQUENCE, .flags = CYAML_FLAG_POINTER, .data_size = 2, .sequence = { .entry = &ent, .min = 0, .max = 5 } },
	{ .type = CYAML_SEQUENCE_FIXED, .flags = CYAML_FLAG_POINTER, .data_size = 2, .sequence = { .entry = &ent, .min = 2, .max = 2 } },
	{ .type = CYAML_UINT, .flags = CYAML_FLAG_POINTER, .data_size = 2, .unsigned_integer = { .max = 0 } },
	{ .type = CYAML_MAPPING, .flags = CYAML_FLAG_DEFAULT, .data_size = sizeof(struct zi), .mapping = { .fields = z_f, .validation_cb = any_cb } },
	{ .type = CYAML_SEQUENCE, .flags = CYAML_FLAG_DEFAULT, .data_size = 2, .sequence = { .entry = &ent, .min = 0, .max = 5 } },
	{ .type = CYAML_UINT, .flags = CYAML_FLAG_DEFAULT, .data_size = 2 },
	{ .type = CYAML_SEQUENCE_FIXED, .flags = CYAML_FLAG_DEFAULT, .data_size = 2, .sequence = { .entry = &ent, .min = 2, .max = 2 } },
	{ .type = CYAML_UINT, .flags = CYAML_FLAG_POINTER_NULL, .data_size = 2 },
};
#ifdef LOG      /* decides about logging alone */
#undef vse_check
#define vse_check(c, m) ((void)(c))
#endif
static unsigned allowed;        /* errors that apply */
static bool lazy;               /* a bad source may be noticed late */
#define BAD(e) (allowed |= 1u << (e))

#ifdef PATHS
static char path[5001];
static void any_path(void)
{
	static const char *const p[] = { "some/path", "p", "-", "/", "~", " ", "a b.yaml", "\xc3\xa4\x01%s\\", "a.yaml.tmp", "%n" };
	static const unsigned n[] = { 14, 15, 16, 63, 64, 127, 128, 254, 255, 256, 257, 259, 260, 511, 512, 1023, 1024, 4094, 4095, 4096, 5000 };
	unsigned k = vse_choose(ARRLEN(p) + ARRLEN(n) + 1, "path");
	if (k < ARRLEN(p)) strcpy(path, p[k]);
	else if (k < ARRLEN(p) + ARRLEN(n)) { k = n[k - ARRLEN(p)]; for (unsigned i = 0; i < k; i++) path[i] = (char)('a' + i % 23); path[k] = 0; }
	else { vse_symbolic(path, 3, "path"); for (unsigned i = 0; i < 3; i++) vse_assume(path[i] != 0); path[3] = 0; }
}
#define PATH path
#else
#define any_path() ((void)0)
#define PATH "some/path"
#endif
#if OP <= 3
int harness_main(void)
{
	cyaml_config_t cfg = env_config(0), *pc = &cfg;
	const cyaml_schema_value_t *s = NULL;
	unsigned n = 77, live;
	cyaml_err_t err;
	bool seq = false, fixed = false, ptr = true, map = false, oom;
	static uint8_t sentinel;
	uint8_t *d = &sentinel;

	any_path();
	/* parameters */
	{ unsigned k = vse_choose(3, "config"); if (k == 1) { pc = NULL; BAD(CYAML_ERR_BAD_PARAM_NULL_CONFIG); } if (k == 2) { cfg.mem_fn = NULL; BAD(CYAML_ERR_BAD_CONFIG_NULL_MEMFN); } }
	{ unsigned k = vse_choose(ARRLEN(schemas) + 1, "schema");
	  if (k == ARRLEN(schemas)) BAD(CYAML_ERR_BAD_PARAM_NULL_SCHEMA); else { s = &schemas[k]; seq = s->type == CYAML_SEQUENCE; fixed = s->type == CYAML_SEQUENCE_FIXED; map = s->type == CYAML_MAPPING; ptr = s->flags & CYAML_FLAG_POINTER; } }
#if OP == 0
	unsigned *pn = vse_bool("seq_count") ? &n : NULL;
	cyaml_data_t **pd = vse_bool("data") ? (cyaml_data_t **)&d : NULL;
	if (s && seq != (pn != NULL)) BAD(CYAML_ERR_BAD_PARAM_SEQ_COUNT);
	if (!pd) BAD(CYAML_ERR_BAD_PARAM_NULL_DATA);
	if (s && !ptr) BAD(CYAML_ERR_TOP_LEVEL_NON_PTR);
	sc_start();
	if (!s || map) { sc_map(); sc_scalar("u"); sc_scalar("3"); sc_scalar("s"); sc_scalar("x"); sc_mapend(); }
	else if (seq || fixed) { sc_seq(); sc_scalar("5"); sc_scalar("6"); sc_seqend(); }
	else sc_scalar("9");
	sc_end();
	env_next_event = env_script_event;
	if (FAULT) { env_may_oom = env_may_oom_repeat = env_parse_may_fail = env_init_may_fail = true; if (FILEAPI) env_io_may_fail = true; }
	live = env_live;
	if (FILEAPI) err = cyaml_load_file(PATH, pc, s, pd, pn);
	else {
		static const uint8_t in[5] = "{u:3}";
		uint64_t in_len = vse_u64("length");   /* only libyaml looks at the buffer */
		err = cyaml_load_data(in, in_len, pc, s, pd, pn);
		if (!env_faults) vse_check((env_input == in) & (env_input_len == in_len) & !env_input_file, "exactly the given buffer is parsed");
		vse_check(env_fopens == 0, "no file is opened");
	}
#elif OP == 1
	struct zi zd = { 3, (char *)"x" }; uint16_t qd[2] = { 5, 6 };
	char *out = (char *)&sentinel; size_t len = 99;
	const void *data = vse_bool("data") ? map || !s ? (void *)&zd : (void *)qd : NULL;
	unsigned c = vse_bool("seq_count") ? 2 : 0;
	if (s && seq != (c != 0)) BAD(CYAML_ERR_BAD_PARAM_SEQ_COUNT);
	if (!data) BAD(CYAML_ERR_BAD_PARAM_NULL_DATA);
	if (s && !ptr) BAD(CYAML_ERR_TOP_LEVEL_NON_PTR);
	if (FAULT) { env_may_oom = env_may_oom_repeat = env_emit_may_fail = env_init_may_fail = true; if (FILEAPI) env_io_may_fail = true; }
	live = env_live;
	if (FILEAPI) err = cyaml_save_file(PATH, pc, s, data, c);
	else { env_chunks = 1; err = cyaml_save_data(&out, &len, pc, s, data, c); vse_check(env_fopens == 0, "no file is opened"); }
#elif OP == 2
	struct zi zd = { 3, (char *)"x" }; uint16_t qd[2] = { 5, 6 };
	struct zi zt; uint16_t qt[2];
	const void *data = vse_bool("data") ? map || !s ? (void *)&zd : (void *)qd : NULL;
	unsigned c = vse_bool("seq_count") ? 2 : 0;
	cyaml_data_t *target = NULL, **pt = &target, *before;
	{ unsigned k = vse_choose(3, "target"); if (k == 1) target = map || !s ? (void *)&zt : (void *)qt; if (k == 2) { pt = NULL; BAD(CYAML_ERR_BAD_PARAM_NULL_DATA); } }
	if (s && (seq || fixed) != (c != 0)) BAD(CYAML_ERR_BAD_PARAM_SEQ_COUNT);
	if (pt && s && ptr && target != NULL) BAD(CYAML_ERR_DATA_TARGET_NON_NULL);
	if (pt && s && !ptr && target == NULL) lazy = !allowed, BAD(CYAML_ERR_BAD_PARAM_NULL_DATA);
	/* a NULL source is only an error where the schema does not allow NULL */
	if (!data && s && ptr && !has(s, CYAML_FLAG_POINTER_NULL)) lazy |= !allowed, BAD(CYAML_ERR_BAD_PARAM_NULL_DATA);
	if (!data && (!s || !ptr)) vse_end();
	before = target;
	if (FAULT) env_may_oom = env_may_oom_repeat = true;
	live = env_live;
	err = cyaml_copy(pc, s, data, c, pt);
#else
	struct zi *zd = NULL; uint16_t *qd = NULL; void *data = NULL;
	unsigned c = 0;
	if (vse_bool("data") && s && ptr) {
		if (map) { zd = (struct zi *)gen_alloc(sizeof *zd); zd->u = 1; zd->s = (char *)gen_alloc(2); data = zd; }
		else { qd = (uint16_t *)gen_alloc(4); data = qd; }
	}
	if (data && seq) c = 2;
	if (!data && s && !ptr && !allowed) vse_end();   /* no allocation to name: a caller's bug */
	live = env_live;
	env_alloc_total = 0;
	err = cyaml_free(pc, s, data, c);
#endif
	vse_observe(err);
	env_check_no_libyaml("everything the library opened is released");
	vse_check(!cb_called || !allowed, "no callback is called when parameters are bad");
	oom = env_oom_hit;
	if (FAULT && env_faults && !(OP == 0 && env_close_failed)) {   /* closing a file that was read cannot lose anything */
		vse_check(err != CYAML_OK, "a failure is reported");
		vse_check((allowed & 1u << err) || (oom ? err == CYAML_ERR_OOM : err != CYAML_ERR_OOM), "the failure is reported with its own error code");
		if (env_fopens && !env_fcloses && !oom && !env_in_failed && !env_emit_failed) vse_check((allowed & 1u << err) || err == CYAML_ERR_FILE_OPEN || err == CYAML_ERR_LIBYAML_PARSER_INIT || err == CYAML_ERR_LIBYAML_EMITTER_INIT, "a file that cannot be opened is reported");
		vse_reach("fault");
	} else if (allowed) {
		vse_check(err != CYAML_OK && err <= 31 && (allowed & 1u << err), "a bad parameter is reported with its documented error");
		vse_check(env_alloc_total == 0 || lazy, "nothing is allocated when parameters are bad");
		vse_check(env_nout == 0 && env_nin == 0, "nothing is parsed or emitted when parameters are bad");
		vse_reach("refused");
	} else {
		vse_check(err == CYAML_OK, "good parameters are accepted");
		vse_reach("accepted");
	}
#if OP == 0 || OP == 1
	if (FILEAPI) {
		bool init_failed = err == CYAML_ERR_LIBYAML_PARSER_INIT || err == CYAML_ERR_LIBYAML_EMITTER_INIT;
		vse_check(env_fopens <= 1 && (env_fopens == 1 || err != CYAML_OK), "one file is opened");
		vse_check(env_files == 0, "the file is closed");
		if (env_fopens) {
			vse_check(!strcmp(env_fopen_path, PATH), "the given path is opened");
			vse_check(env_fopen_mode[0] == (OP ? 'w' : 'r') && env_fopen_mode[1] != '+', "the file is opened for reading or for writing");
			if (err == CYAML_OK) vse_check(OP ? env_output_file : env_input_file, "the file is what is read or written");
		}
		(void)init_failed;
	}
#endif
#if OP == 0
	if (err != CYAML_OK) {
		vse_check(d == &sentinel && n == 77, "a refused load writes nothing");
		vse_check(env_live == live, "a refused load leaks nothing");
	} else {
		vse_check(!seq || n == 2, "the count is returned");
		vse_check(d != NULL && d != &sentinel, "data is returned");
		if (map) vse_check(d[0] == 3, "the value is loaded"); else { uint16_t v; memcpy(&v, d, 2); vse_check(v == (seq || fixed ? 5 : 9), "the value is loaded"); }
		vse_check(cyaml_free(pc, s, d, pn ? n : 0) == CYAML_OK && env_live == 0, "the loaded data can be freed");
	}
#elif OP == 1
	if (err != CYAML_OK) {
		vse_check(out == (char *)&sentinel && len == 99, "a refused save writes nothing");
		vse_check(env_live == live, "a refused save leaks nothing");
	} else if (!FILEAPI) {
		vse_check(len == env_nwritten && out != (char *)&sentinel, "the buffer is returned");
		env_mem(NULL, out, 0);
		vse_check(env_live == 0, "the buffer is the only allocation");
	} else vse_check(env_live == 0, "saving to a file leaves no allocation");
#elif OP == 2
	if (err != CYAML_OK) {
		vse_check(target == before, "a refused copy does not touch the target");
		vse_check(env_live == live, "a refused copy leaks nothing");
	} else {
		vse_check(data == NULL ? target == NULL : target != NULL, "the copy is returned");
		if (ptr) { vse_check(cyaml_free(pc, s, target, c) == CYAML_OK && env_live == 0, "the copy can be freed"); }
		else { vse_check(target == before, "the caller's memory is used"); if (map) { vse_check(zt.u == 3 && zt.s != zd.s && zt.s[0] == 'x', "the copy is equal and deep"); } else if (seq || fixed) vse_check(qt[0] == 5 && qt[1] == 6, "the copy is equal"); else vse_check(qt[0] == 5, "the copy is equal"); }
	}
#else
	if (err != CYAML_OK) vse_check(env_live == (int)live, "a refused free does nothing");
	else vse_check(env_live == 0, "everything is freed");
#endif
	return 0;
}
#elif OP == 4
int harness_main(void)
{
	/* sizes are small so that the real allocator succeeds */
	unsigned a = vse_choose(6, "first"), b = vse_choose(6, "second");
	uint8_t *p = a ? (uint8_t *)cyaml_mem(NULL, NULL, a) : NULL, *q, in[6];
	vse_check((p != NULL) == (a != 0), "allocating gives memory");
	vse_symbolic(in, 6, "content");
	for (unsigned i = 0; i < a; i++) p[i] = in[i];
	if (vse_bool("ctx")) q = (uint8_t *)cyaml_mem(in, p, b); else q = (uint8_t *)cyaml_mem(NULL, p, b);
	if (b == 0) { vse_check(q == NULL, "size zero frees and returns NULL"); vse_reach("freed"); }
	else {
		bool eq = true;
		vse_check(q != NULL, "resizing gives memory");
		for (unsigned i = 0; i < b; i++) { if (i >= a) q[i] = 1; else eq &= q[i] == in[i]; }
		vse_check(eq, "resizing keeps the content");
		vse_check(cyaml_mem(NULL, q, 0) == NULL, "size zero frees and returns NULL");
		vse_reach("resized");
	}
	vse_check(cyaml_mem(NULL, NULL, 0) == NULL, "freeing NULL does nothing");
#ifndef VSE_NATIVE
	vse_check(vse_heap_live() == 0, "all memory is returned");
#endif
	return 0;
}
#elif OP == 5
int harness_main(void)
{
	int e = (int)vse_u32("code");
	const char *t = cyaml_strerror((cyaml_err_t)e), *u = cyaml_strerror(CYAML_ERR__COUNT);
	unsigned n;
	vse_check(t != NULL && t[0] != 0, "every value has a text");
	vse_check(cyaml_strerror((cyaml_err_t)e) == t || !strcmp(cyaml_strerror((cyaml_err_t)e), t), "the text is stable");
	if ((unsigned)e >= CYAML_ERR__COUNT) { vse_check(!strcmp(t, u), "values that are no error code have the text for those"); vse_reach("invalid"); vse_end(); }
	n = (unsigned)vse_concretize((unsigned)e);
	vse_check(strcmp(t, u), "an error code has a text of its own");
	for (unsigned k = 0; k < CYAML_ERR__COUNT; k++) if (k != n) vse_check(strcmp(t, cyaml_strerror((cyaml_err_t)k)), "error codes have different texts");
	if (n == 0) vse_check(!strcmp(t, "Success"), "success is called success");
	vse_reach("valid");
	return 0;
}
#else
#undef vse_check
#ifndef LONG
#define LONG 0
#endif
static void say(cyaml_log_t l, const char *fmt, ...) { va_list ap; va_start(ap, fmt); cyaml_log(l, NULL, fmt, ap); va_end(ap); }
int harness_main(void)
{
	static const char *const tag[] = { "DEBUG", "INFO", "NOTICE", "WARNING", "ERROR" };
	unsigned l = vse_choose(5, "level"), v = vse_choose(3, "arg");
#if LONG
	static const unsigned n_[] = { 60, 61, 62, 63, 64, 127, 128, 231, 232, 233, 255, 256, 257, 1023, 1024, 1025, 4095, 4096, 4097, LONG };
	static char big[LONG + 1], full[LONG + 80]; unsigned n = n_[vse_choose(ARRLEN(n_), "length")];
	memset(big, 'x', n); big[n] = 0; env_text_len = 0;
	if (v == 2) { say((cyaml_log_t)l, "%.*s\n", (int)n, big); snprintf(full, sizeof full, "libcyaml: %7.7s: %s\n", tag[l], big); }
	else { say((cyaml_log_t)l, v ? "%s\n" : "<%s> %u\n", big, n); snprintf(full, sizeof full, v ? "libcyaml: %7.7s: %s\n" : "libcyaml: %7.7s: <%s> %u\n", tag[l], big, n); }
	vse_observe(env_text_len);
	vse_check(!env_text_not_stderr, "messages go to standard error");
	vse_check(!strcmp(env_text, full), "a long message is complete");
	vse_reach("logged");
	return 0;
#endif
	char want[80];
	env_text_len = 0;
	say((cyaml_log_t)l, "%s %u\n", v == 0 ? "a" : v == 1 ? "" : "%s", v * 1000);
	snprintf(want, sizeof want, "libcyaml: %7.7s: %s %u\n", tag[l], v == 0 ? "a" : v == 1 ? "" : "%s", v * 1000);
	vse_observe(env_text_len);
	vse_check(!env_text_not_stderr, "messages go to standard error");
	vse_check(!strcmp(env_text, want), "a message is the level and the formatted text");
	vse_reach("logged");
	return 0;
}
#endif
