#define ENV_NO_REDIRECT
#include <errno.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "env.h"

struct env_ev env_in[ENV_MAXEV];
int env_nin;
bool env_in_done, env_in_failed;
bool (*env_next_event)(struct env_ev *e) = env_gen_event;
struct env_gen env_gen;
struct env_ev env_script[ENV_MAXEV];
int env_nscript;
static int script_pos;
struct env_out env_out[ENV_MAXEV];
int env_nout;
bool env_emit_failed;
bool env_close_failed, env_open_failed;
bool env_may_oom, env_may_oom_repeat, env_parse_may_fail, env_init_may_fail, env_emit_may_fail, env_io_may_fail;
bool env_oom_hit, env_null_problem;
unsigned env_faults, env_fault_queries, env_fault_at;
bool env_fault_replay;
int env_live, env_parsers, env_emitters, env_files;
unsigned env_mem_calls, env_fopens, env_fcloses, env_logs;
size_t env_alloc_total;
char env_fopen_mode[4];
const char *env_fopen_path;
unsigned env_chunks, env_chunk_max = ENV_CHUNK;
unsigned env_chunk_big; bool env_chunk_now;
unsigned char env_written[ENV_WRITTEN];
unsigned env_nwritten;
bool env_record_events = true;
bool env_forget;
void (*env_emit_hook)(const yaml_event_t *e);

static char file_obj[4];
const unsigned char *env_input; size_t env_input_len; bool env_input_file, env_output_file;
static int lib_live; /* live allocations owned by libyaml objects */

#ifdef VSE_NATIVE
/* byte-exact object sizes for the allocator model */
#define NTAB 4096
static struct { void *p; size_t n; } tab[NTAB];
static size_t tab_size(const void *p) { for (int i = 0; i < NTAB; i++) if (tab[i].p == p) return tab[i].n; return 0; }
static void tab_add(void *p, size_t n) { for (int i = 0; i < NTAB; i++) if (!tab[i].p) { tab[i].p = p; tab[i].n = n; return; } }
static void tab_del(void *p) { for (int i = 0; i < NTAB; i++) if (tab[i].p == p) { tab[i].p = NULL; return; } }
static void fill(void *p, size_t n) { const char *f = getenv("VSE_FILL"); if (f) memset(p, atoi(f), n); }
unsigned env_heap_live(void) { return (unsigned)(env_live + lib_live); }
#else
static size_t tab_size(const void *p) { return vse_obj_size(p); }
static void tab_add(void *p, size_t n) { (void)p; (void)n; }
static void tab_del(void *p) { (void)p; }
static void fill(void *p, size_t n) { (void)p; (void)n; }
#endif

static void *lib_alloc(size_t n) { void *p = malloc(n ? n : 1); lib_live++; return p; }
static void lib_free(void *p) { if (p) lib_live--; free(p); }

static bool fault(const char *name)
{
	if (env_faults) return false;       /* one fault per run */
	env_fault_queries++;
	if (env_fault_replay) { if (env_fault_queries != env_fault_at) return false; env_faults++; return true; }
	if (vse_bool(name)) { env_faults++; env_fault_at = env_fault_queries; return true; }
	return false;
}

/* ---- client allocator ---------------------------------------------------- */
void *env_mem(void *ctx, void *ptr, size_t size)
{
	size_t old, n;
	char *q;
	(void)ctx;
	env_mem_calls++;
	if (size == 0) {
		if (ptr != NULL) { env_live--; tab_del(ptr); }
		free(ptr);
		return NULL;
	}
	if (env_may_oom_repeat && env_oom_hit) return NULL;
	if (env_may_oom && fault("oom")) { env_oom_hit = true; return NULL; }
	size = (size_t)vse_concretize(size);
	env_alloc_total += size;
	q = malloc(size);
#ifdef VSE_NATIVE
	if (q == NULL) abort();
#endif
	errno = ERANGE;
	fill(q, size);
	tab_add(q, size);
	env_live++;
	if (ptr != NULL) {
		old = tab_size(ptr);
		n = old < size ? old : size;
		memcpy(q, ptr, n);
		tab_del(ptr);
		free(ptr);
		env_live--;
	}
	return q;
}

#ifdef LOG
static cyaml_log_t log_min;
#endif
void (*env_log_hook)(cyaml_log_t level, void *ctx, const char *fmt, va_list args);
void env_log(cyaml_log_t level, void *ctx, const char *fmt, va_list args)
{
	env_logs++;
#ifdef LOG
	vse_check(level >= log_min, "only messages at or above the configured level are logged");
	vse_check(level <= CYAML_LOG_ERROR, "messages have a documented level");
	vse_check(ctx == (void *)&log_min, "the log function gets the configured context");
#endif
	if (env_log_hook) env_log_hook(level, ctx, fmt, args);
	vse_format_check(fmt, args);
	errno = env_logs & 1 ? 0 : ERANGE;      /* a log function may well leave its own */
}

const cyaml_config_t env_cfg = { .mem_fn = env_mem, .log_level = CYAML_LOG_ERROR };
cyaml_config_t env_config(cyaml_cfg_flags_t flags)
{
	errno = ERANGE;         /* whatever the client did before */
	cyaml_config_t c = { .mem_fn = env_mem, .log_level = CYAML_LOG_ERROR, .flags = flags };
#ifdef LOG
	/* LOG 1: debug  2: any level  3: any level, or no log function */
	log_min = LOG == 1 ? CYAML_LOG_DEBUG : (cyaml_log_t)(CYAML_LOG_DEBUG + vse_choose(5, "log-level"));
	c.log_level = log_min;
	c.log_ctx = &log_min;
	c.log_fn = LOG == 3 && vse_bool("no-log") ? NULL : env_log;
	env_null_problem = vse_bool("no-reason");
#endif
	return c;
}

void env_check_clean(const char *msg)
{
	vse_check(env_live == 0, msg);
	env_check_no_libyaml(msg);
}
void env_check_no_libyaml(const char *msg)
{
#if defined LOG || defined LOGGED
	vse_check(env_text_len == 0, "nothing is printed but by the log function");
#endif
	vse_check(lib_live == 0, msg);
	vse_check(env_parsers == 0, msg);
	vse_check(env_emitters == 0, msg);
	vse_check(env_files == 0, msg);
}
/* starts a further, independent run */
void env_reset(void)
{
	env_nin = 0; env_in_done = env_in_failed = false;
	env_nout = 0; env_emit_failed = false;
	script_pos = 0;
	env_nwritten = 0;
	env_fopens = env_fcloses = 0;
}

/* a second run of the same call, with the same events and the same fault */
void env_again(bool events)
{
	if (events) { env_nscript = env_nin; for (int i = 0; i < env_nin; i++) env_script[i] = env_in[i]; env_next_event = env_script_event; }
	env_reset();
	env_fault_replay = true; env_fault_queries = 0;
	env_faults = 0; env_oom_hit = env_close_failed = env_open_failed = false;
	env_mem_calls = 0; env_alloc_total = 0;
}

/* ---- nested runs ------------------------------------------------------------ */
static yaml_write_handler_t *wh; static void *wh_data;
#define STATE(X) X(env_in) X(env_nin) X(env_in_done) X(env_in_failed) X(env_next_event) X(env_script) X(env_nscript) X(script_pos) X(env_out) X(env_nout) X(env_emit_failed) \
	X(env_may_oom) X(env_may_oom_repeat) X(env_parse_may_fail) X(env_init_may_fail) X(env_emit_may_fail) X(env_io_may_fail) X(env_oom_hit) X(env_close_failed) X(env_open_failed) X(env_faults) X(env_live) \
	X(env_parsers) X(env_emitters) X(env_files) X(env_fopens) X(env_fcloses) X(env_fopen_mode) X(env_fopen_path) X(env_chunks) X(env_chunk_max) X(env_chunk_now) X(env_written) X(env_nwritten) X(lib_live) X(wh) X(wh_data) X(env_record_events)
struct env_state {
#define X(v) __typeof__(v) v##_;
	STATE(X)
#undef X
};
struct env_state *env_suspend(void)
{
	struct env_state *st = malloc(sizeof *st);
#define X(v) memcpy(&st->v##_, &v, sizeof v);
	STATE(X)
#undef X
	env_reset();
	env_close_failed = env_open_failed = env_may_oom = env_may_oom_repeat = env_parse_may_fail = env_init_may_fail = env_emit_may_fail = env_io_may_fail = env_oom_hit = false;
	env_faults = 0; env_nscript = 0; env_chunks = 0;
	env_live = env_parsers = env_emitters = env_files = lib_live = 0;
	env_next_event = env_script_event;
	return st;
}
void env_resume(struct env_state *st)
{
#define X(v) memcpy(&v, &st->v##_, sizeof v);
	STATE(X)
#undef X
	free(st);
}

/* ---- document generators ------------------------------------------------- */
void env_set_text(struct env_ev *e, const char *s)
{
	unsigned i = 0;
	for (; s[i]; i++) e->txt[i] = s[i];
	e->txt[i] = 0;
	e->len = i;
}
void env_text_symbolic(struct env_ev *e, unsigned maxlen)
{
	vse_symbolic(e->txt, maxlen, "txt");
	for (unsigned i = 0; i < maxlen; i++) vse_assume((unsigned char)e->txt[i] < 0x80);
	e->txt[maxlen] = 0;
	e->len = maxlen;
}

static struct { unsigned st, depth, used, docs; uint8_t stk[16]; bool defined[8]; } g;

static void gen_value(struct env_ev *e, bool key)
{
	/* alternatives, in a fixed order */
	unsigned kinds[5], n = 0, k;
	unsigned d = g.depth;
	unsigned left = env_gen.max_events - g.used;    /* events still allowed */
	unsigned closing = 0;
	/* events needed to close everything that is open (a pending mapping value counts) */
	for (unsigned i = 0; i < d; i++) closing += 1 + (g.stk[i] == 2 ? (i == d - 1 ? 0 : 0) : 0);
	bool in_seq = d && g.stk[d - 1] == 3;
	if (key) {
		if (left >= closing + 2) kinds[n++] = YAML_SCALAR_EVENT;
		kinds[n++] = YAML_MAPPING_END_EVENT;
	} else {
		if (in_seq) kinds[n++] = YAML_SEQUENCE_END_EVENT;
		if (left >= closing + 1) {
			if (env_gen.allow_scalar) kinds[n++] = YAML_SCALAR_EVENT;
			if (env_gen.anchors) kinds[n++] = YAML_ALIAS_EVENT;
		}
		if (left >= closing + 2 && d < env_gen.max_depth) {
			if (env_gen.allow_seq) kinds[n++] = YAML_SEQUENCE_START_EVENT;
			if (env_gen.allow_map) kinds[n++] = YAML_MAPPING_START_EVENT;
		}
	}
	if (n == 0) { vse_assume(0); }
	k = n > 1 ? vse_choose(n, "kind") : 0;
	e->type = (yaml_event_type_t)kinds[k];
	g.used++;
	switch (e->type) {
	case YAML_SCALAR_EVENT:
		if (env_gen.text) env_gen.text(e, key, d); else env_text_symbolic(e, env_gen.txt_len);
		break;
	case YAML_ALIAS_EVENT: {
		unsigned a = vse_choose(env_gen.anchors, "alias");
		e->txt[0] = (char)('a' + a); e->txt[1] = 0; e->len = 1;
		break;
	}
	default: break;
	}
	if (env_gen.anchors && !key && (e->type == YAML_SCALAR_EVENT || e->type == YAML_SEQUENCE_START_EVENT || e->type == YAML_MAPPING_START_EVENT)) {
		unsigned a = vse_choose(env_gen.anchors + 1, "anchor");
		if (a) e->anchor = (unsigned short)('a' + a - 1);
	}
	/* update the grammar state */
	if (e->type == YAML_MAPPING_END_EVENT || e->type == YAML_SEQUENCE_END_EVENT) {
		g.depth--;
	} else {
		if (d && g.stk[d - 1] == 1) g.stk[d - 1] = 2;
		else if (d && g.stk[d - 1] == 2) g.stk[d - 1] = 1;
		if (e->type == YAML_MAPPING_START_EVENT) g.stk[g.depth++] = 1;
		if (e->type == YAML_SEQUENCE_START_EVENT) g.stk[g.depth++] = 3;
	}
}

bool env_gen_event(struct env_ev *e)
{
	switch (g.st) {
	case 0: e->type = YAML_STREAM_START_EVENT; g.st = 1; if (!env_gen.docs) env_gen.docs = 1; break;
	case 1:
		if (g.docs == env_gen.docs || ((g.docs || env_gen.empty_stream) && vse_bool("stream-end"))) { e->type = YAML_STREAM_END_EVENT; g.st = 9; break; }
		e->type = YAML_DOCUMENT_START_EVENT; g.st = 2; g.used = 0; g.docs++;
		break;
	case 2: {
		bool key = g.depth && g.stk[g.depth - 1] == 1;
		gen_value(e, key);
		if (g.depth == 0) g.st = 3;
		break;
	}
	case 3: e->type = YAML_DOCUMENT_END_EVENT; g.st = 1; break;
	default: e->type = YAML_NO_EVENT; break; /* after stream end libyaml reports no event */
	}
	return true;
}

bool env_script_event(struct env_ev *e)
{
	if (script_pos >= env_nscript) { e->type = YAML_NO_EVENT; return true; }
	*e = env_script[script_pos++];
	return true;
}
struct env_ev *sc_type(yaml_event_type_t t)
{
	struct env_ev *e = &env_script[env_nscript++];
	memset(e, 0, sizeof *e);
	e->type = t;
	return e;
}
void sc_start(void) { env_nscript = 0; sc_type(YAML_STREAM_START_EVENT); sc_type(YAML_DOCUMENT_START_EVENT); }
void sc_end(void) { sc_type(YAML_DOCUMENT_END_EVENT); sc_type(YAML_STREAM_END_EVENT); }
struct env_ev *sc_scalar(const char *s) { struct env_ev *e = sc_type(YAML_SCALAR_EVENT); env_set_text(e, s); return e; }
struct env_ev *sc_sym(unsigned maxlen) { struct env_ev *e = sc_type(YAML_SCALAR_EVENT); env_text_symbolic(e, maxlen); return e; }
struct env_ev *sc_alias(unsigned name) { struct env_ev *e = sc_type(YAML_ALIAS_EVENT); e->txt[0] = (char)name; e->len = 1; e->anchor = (unsigned short)name; return e; }

/* ---- libyaml: parser ------------------------------------------------------ */
int yaml_parser_initialize(yaml_parser_t *p)
{
	memset(p, 0, sizeof *p);
	if (env_init_may_fail && fault("parser-init")) return 0;
	p->raw_buffer.start = lib_alloc(1);
	env_parsers++;
	return 1;
}
void yaml_parser_delete(yaml_parser_t *p)
{
	vse_check(p->raw_buffer.start != NULL, "parser deleted exactly once, after initialisation");
	lib_free(p->raw_buffer.start);
	memset(p, 0, sizeof *p);
	env_parsers--;
}
void yaml_parser_set_input_string(yaml_parser_t *p, const unsigned char *in, size_t n) { vse_check(p->raw_buffer.start != NULL, "parser initialised before use"); env_input = in; env_input_len = n; env_input_file = false; }
void yaml_parser_set_input_file(yaml_parser_t *p, FILE *f) { vse_check(p->raw_buffer.start != NULL, "parser initialised before use"); vse_check(f == (FILE *)(void *)file_obj && env_files == 1, "parser given the open file"); env_input_file = true; }

unsigned env_anchor_pad;
static yaml_char_t *dupn(const char *s, unsigned n) { char *q = lib_alloc(n + 1); for (unsigned i = 0; i <= n; i++) q[i] = s[i]; return (yaml_char_t *)q; }
/* the anchor of a character: names that are prefixes of one another or differ in case */
static yaml_char_t *anchor_name(unsigned a)
{
	static const char *const rest[4] = { "", "x", "xy", "X" };
	char b[4] = { (char)('0' + a / 4), 0 }, *q; unsigned n;
	if (!a) return NULL;
	strcpy(b + 1, rest[a % 4]); n = (unsigned)strlen(b);
	if (!env_anchor_pad) return dupn(b, n);
	q = lib_alloc(env_anchor_pad + n + 1);
	memset(q, 'p', env_anchor_pad); memcpy(q + env_anchor_pad, b, n + 1);
	return (yaml_char_t *)q;
}

int yaml_parser_parse(yaml_parser_t *p, yaml_event_t *e)
{
	struct env_ev *x;
	vse_check(p->raw_buffer.start != NULL, "parser used only between initialisation and deletion");
	errno = ERANGE;         /* as any library call may leave it */
	memset(e, 0, sizeof *e);
	if (env_in_failed || env_in_done) { e->type = YAML_NO_EVENT; return env_in_failed ? 0 : 1; }
	if (env_parse_may_fail && fault("parse-fail")) { env_in_failed = true; p->error = YAML_PARSER_ERROR; p->problem = env_null_problem ? NULL : "problem"; return 0; }
	if (!env_forget && env_nin >= ENV_MAXEV) vse_fail("harness: event buffer too small");
	x = &env_in[env_forget ? 0 : env_nin];
	memset(x, 0, sizeof *x);
	if (!env_next_event(x)) { env_in_failed = true; p->error = YAML_PARSER_ERROR; p->problem = env_null_problem ? NULL : "problem"; return 0; }
	e->type = x->type;
	e->start_mark.line = (size_t)env_nin; e->start_mark.column = 0;
	switch (x->type) {
	case YAML_SCALAR_EVENT:
		e->data.scalar.value = dupn(x->txt, x->len);
		e->data.scalar.length = strlen(x->txt);
		e->data.scalar.anchor = anchor_name(x->anchor);
		e->data.scalar.style = x->style;
		e->data.scalar.plain_implicit = 1;
		break;
	case YAML_ALIAS_EVENT: e->data.alias.anchor = anchor_name(x->anchor ? x->anchor : (unsigned char)x->txt[0]); break;
	case YAML_SEQUENCE_START_EVENT: e->data.sequence_start.anchor = anchor_name(x->anchor); break;
	case YAML_MAPPING_START_EVENT: e->data.mapping_start.anchor = anchor_name(x->anchor); break;
	case YAML_STREAM_END_EVENT: env_in_done = true; break;
	default: break;
	}
	env_nin++;
	return 1;
}

void yaml_event_delete(yaml_event_t *e)
{
	vse_check(e != NULL, "event pointer");
	switch (e->type) {
	case YAML_SCALAR_EVENT: lib_free(e->data.scalar.anchor); lib_free(e->data.scalar.tag); lib_free(e->data.scalar.value); break;
	case YAML_ALIAS_EVENT: lib_free(e->data.alias.anchor); break;
	case YAML_SEQUENCE_START_EVENT: lib_free(e->data.sequence_start.anchor); lib_free(e->data.sequence_start.tag); break;
	case YAML_MAPPING_START_EVENT: lib_free(e->data.mapping_start.anchor); lib_free(e->data.mapping_start.tag); break;
	default: break;
	}
	memset(e, 0, sizeof *e);
}

/* ---- libyaml: emitter ----------------------------------------------------- */
int yaml_emitter_initialize(yaml_emitter_t *m)
{
	memset(m, 0, sizeof *m);
	if (env_init_may_fail && fault("emitter-init")) return 0;
	m->buffer.start = lib_alloc(1);
	env_emitters++;
	wh = NULL;
	return 1;
}
void yaml_emitter_delete(yaml_emitter_t *m)
{
	vse_check(m->buffer.start != NULL, "emitter deleted exactly once, after initialisation");
	lib_free(m->buffer.start);
	memset(m, 0, sizeof *m);
	env_emitters--;
}
void yaml_emitter_set_output(yaml_emitter_t *m, yaml_write_handler_t *h, void *d) { vse_check(m->buffer.start != NULL, "emitter initialised before use"); wh = h; wh_data = d; }
void yaml_emitter_set_output_file(yaml_emitter_t *m, FILE *f) { vse_check(m->buffer.start != NULL, "emitter initialised before use"); vse_check(f == (FILE *)(void *)file_obj && env_files == 1, "emitter given the open file"); wh = NULL; env_output_file = true; }
void yaml_emitter_set_encoding(yaml_emitter_t *m, yaml_encoding_t e) { (void)m; (void)e; }
void yaml_emitter_set_unicode(yaml_emitter_t *m, int u) { (void)m; (void)u; }
void yaml_emitter_set_width(yaml_emitter_t *m, int u) { (void)m; (void)u; }
void yaml_emitter_set_indent(yaml_emitter_t *m, int u) { (void)m; (void)u; }

static int push_chunk(yaml_emitter_t *m)
{
	unsigned char *c;
	unsigned n;
	if (!wh || !env_chunks) return 1;
	env_chunks--;
	if (env_chunk_big) {
		/* long runs of output, symbolic at both ends */
		static const unsigned big[] = { 1, 4095, 4096, 4097, 8192, 9000, 16384 };
		n = env_chunk_big > 1 && env_chunks ? 16384 : big[vse_choose(sizeof big / sizeof *big, "chunk-size")];
		c = lib_alloc(n);
		for (unsigned i = 0; i < n; i++) c[i] = (unsigned char)(i * 7 + env_chunks);
		vse_symbolic(c, n < 4 ? n : 4, "chunk");
		if (n > 8) vse_symbolic(c + n - 4, 4, "chunk");
	} else {
		n = env_chunk_now ? env_chunk_max : vse_choose(env_chunk_max, "chunk-len") + 1;
		c = lib_alloc(n);
		vse_symbolic(c, n, "chunk");
	}
	if (!wh(wh_data, c, n)) { lib_free(c); m->error = YAML_WRITER_ERROR; m->problem = "write error"; return 0; }
	if (env_nwritten + n > sizeof env_written) vse_fail("harness: written buffer too small");
	for (unsigned i = 0; i < n; i++) env_written[env_nwritten++] = c[i];
	lib_free(c);
	return 1;
}

int yaml_emitter_emit(yaml_emitter_t *m, yaml_event_t *e)
{
	struct env_out *o;
	int ok = 1;
	vse_check(m->buffer.start != NULL, "emitter used only between initialisation and deletion");
	if (env_emit_may_fail && fault("emit-fail")) { m->error = YAML_EMITTER_ERROR; m->problem = env_null_problem ? NULL : "problem"; env_emit_failed = true; ok = 0; }
	else if (env_emit_hook) env_emit_hook(e);
	else if (env_record_events) {
		vse_check(!env_emit_failed, "no event is emitted after a failure");
		if (env_nout >= ENV_MAXEV) vse_fail("harness: output buffer too small");
		o = &env_out[env_nout++];
		memset(o, 0, sizeof *o);
		o->type = e->type;
		switch (e->type) {
		case YAML_SCALAR_EVENT:
			vse_check(e->data.scalar.length + 1 < ENV_TXT, "harness: emitted text too long");
			o->len = (unsigned)e->data.scalar.length;
			for (unsigned i = 0; i < o->len; i++) o->txt[i] = (char)e->data.scalar.value[i];
			o->style = e->data.scalar.style;
			o->implicit = e->data.scalar.plain_implicit; o->quoted_implicit = e->data.scalar.quoted_implicit;
			o->has_tag = e->data.scalar.tag != NULL; o->has_anchor = e->data.scalar.anchor != NULL;
			if (o->has_tag) strncpy(o->tag, (char *)e->data.scalar.tag, sizeof o->tag - 1);
			break;
		case YAML_SEQUENCE_START_EVENT: o->style = e->data.sequence_start.style; o->implicit = e->data.sequence_start.implicit; o->has_anchor = e->data.sequence_start.anchor != NULL; o->has_tag = e->data.sequence_start.tag != NULL; break;
		case YAML_MAPPING_START_EVENT: o->style = e->data.mapping_start.style; o->implicit = e->data.mapping_start.implicit; o->has_anchor = e->data.mapping_start.anchor != NULL; o->has_tag = e->data.mapping_start.tag != NULL; break;
		case YAML_DOCUMENT_START_EVENT: o->implicit = e->data.document_start.implicit; break;
		case YAML_DOCUMENT_END_EVENT: o->implicit = e->data.document_end.implicit; break;
		default: break;
		}
	}
	yaml_event_delete(e); /* the emitter owns the event, also on failure */
	if (ok && wh && env_chunks && (env_chunk_now || vse_bool("chunk-now"))) ok = push_chunk(m);
	return ok;
}
int yaml_emitter_flush(yaml_emitter_t *m)
{
	vse_check(m->buffer.start != NULL, "emitter used only between initialisation and deletion");
	if (env_emit_may_fail && fault("flush-fail")) { m->error = YAML_WRITER_ERROR; m->problem = env_null_problem ? NULL : "problem"; env_emit_failed = true; return 0; }
	while (env_chunks && wh) if (!push_chunk(m)) return 0;
	return 1;
}
int yaml_emitter_close(yaml_emitter_t *m) { (void)m; return 1; }
int yaml_emitter_open(yaml_emitter_t *m) { (void)m; return 1; }

#define INIT(e, t) do { memset(e, 0, sizeof *e); if (env_emit_may_fail && fault("event-init")) { env_emit_failed = true; return 0; } e->type = t; } while (0)
static yaml_char_t *dupz(const yaml_char_t *s) { return s ? dupn((const char *)s, (unsigned)vse_concretize(strlen((const char *)s))) : NULL; }
int yaml_stream_start_event_initialize(yaml_event_t *e, yaml_encoding_t enc) { INIT(e, YAML_STREAM_START_EVENT); e->data.stream_start.encoding = enc; return 1; }
int yaml_stream_end_event_initialize(yaml_event_t *e) { INIT(e, YAML_STREAM_END_EVENT); return 1; }
int yaml_document_start_event_initialize(yaml_event_t *e, yaml_version_directive_t *v, yaml_tag_directive_t *s, yaml_tag_directive_t *t, int imp) { (void)v; (void)s; (void)t; INIT(e, YAML_DOCUMENT_START_EVENT); e->data.document_start.implicit = imp; return 1; }
int yaml_document_end_event_initialize(yaml_event_t *e, int imp) { INIT(e, YAML_DOCUMENT_END_EVENT); e->data.document_end.implicit = imp; return 1; }
int yaml_alias_event_initialize(yaml_event_t *e, const yaml_char_t *a) { INIT(e, YAML_ALIAS_EVENT); e->data.alias.anchor = dupz(a); return 1; }
int yaml_scalar_event_initialize(yaml_event_t *e, const yaml_char_t *a, const yaml_char_t *t, const yaml_char_t *v, int len, int pi, int qi, yaml_scalar_style_t st)
{
	INIT(e, YAML_SCALAR_EVENT);
	if (len < 0) len = (int)strlen((const char *)v);
	len = (int)vse_concretize((uint64_t)(unsigned)len);
	e->data.scalar.anchor = dupz(a); e->data.scalar.tag = dupz(t);
	char *q = lib_alloc((size_t)len + 1);
	for (int i = 0; i < len; i++) q[i] = (char)v[i];
	q[len] = 0;
	e->data.scalar.value = (yaml_char_t *)q; e->data.scalar.length = (size_t)len;
	e->data.scalar.plain_implicit = pi; e->data.scalar.quoted_implicit = qi; e->data.scalar.style = st;
	return 1;
}
int yaml_sequence_start_event_initialize(yaml_event_t *e, const yaml_char_t *a, const yaml_char_t *t, int imp, yaml_sequence_style_t st) { INIT(e, YAML_SEQUENCE_START_EVENT); e->data.sequence_start.anchor = dupz(a); e->data.sequence_start.tag = dupz(t); e->data.sequence_start.implicit = imp; e->data.sequence_start.style = st; return 1; }
int yaml_sequence_end_event_initialize(yaml_event_t *e) { INIT(e, YAML_SEQUENCE_END_EVENT); return 1; }
int yaml_mapping_start_event_initialize(yaml_event_t *e, const yaml_char_t *a, const yaml_char_t *t, int imp, yaml_mapping_style_t st) { INIT(e, YAML_MAPPING_START_EVENT); e->data.mapping_start.anchor = dupz(a); e->data.mapping_start.tag = dupz(t); e->data.mapping_start.implicit = imp; e->data.mapping_start.style = st; return 1; }
int yaml_mapping_end_event_initialize(yaml_event_t *e) { INIT(e, YAML_MAPPING_END_EVENT); return 1; }

/* ---- stdio ----------------------------------------------------------------- */
FILE *env_fopen(const char *path, const char *mode)
{
	env_fopens++;
	{ static char copy[5100]; size_t n = strlen(path); if (n >= sizeof copy) vse_fail("harness: path too long"); memcpy(copy, path, n + 1); env_fopen_path = copy; }
	env_fopen_mode[0] = mode[0]; env_fopen_mode[1] = mode[0] ? mode[1] : 0; env_fopen_mode[2] = 0;
	if (env_io_may_fail && fault("fopen-fail")) { env_open_failed = true; return NULL; }
	env_files++;
	return (FILE *)(void *)file_obj;
}
int env_fclose(FILE *f)
{
	vse_check(f == (FILE *)(void *)file_obj, "fclose of the file that was opened");
	vse_check(env_files == 1, "file closed exactly once");
	env_files--;
	env_fcloses++;
	if (env_io_may_fail && fault("fclose-fail")) { env_close_failed = true; return EOF; }
	return 0;
}
static int put_text(FILE *f, const char *s, size_t n);
size_t env_fwrite(const void *p, size_t s, size_t n, FILE *f) { if (f != (FILE *)(void *)file_obj) put_text(f, p, s * n); return n; }
int env_fflush(FILE *f) { if (f == (FILE *)(void *)file_obj && env_io_may_fail && fault("fclose-fail")) { env_close_failed = true; return EOF; } return 0; }
int env_ferror(FILE *f) { (void)f; return 0; }
char env_text[ENV_TEXT]; unsigned env_text_len; bool env_text_not_stderr;
int env_vfprintf(FILE *f, const char *fmt, va_list ap)
{
	int n;
	if (f != stderr) env_text_not_stderr = true;
	n = vsnprintf(env_text + env_text_len, sizeof env_text - env_text_len, fmt, ap);
	if (n > 0) env_text_len += (unsigned)n;
	if (env_text_len >= sizeof env_text) vse_fail("harness: text buffer too small");
	return n;
}
int env_fprintf(FILE *f, const char *fmt, ...) { va_list ap; int n; va_start(ap, fmt); n = env_vfprintf(f, fmt, ap); va_end(ap); return n; }
static int put_text(FILE *f, const char *s, size_t n)
{
	if (f != stderr) env_text_not_stderr = true;
	if (env_text_len + n >= sizeof env_text) vse_fail("harness: text buffer too small");
	memcpy(env_text + env_text_len, s, n); env_text_len += (unsigned)n; env_text[env_text_len] = 0;
	return 1;
}
int env_fputs(const char *s, FILE *f) { return put_text(f, s, strlen(s)); }
int env_puts(const char *s) { put_text(stdout, s, strlen(s)); return put_text(stdout, "\n", 1); }
int env_vprintf(const char *fmt, va_list ap) { return env_vfprintf(stdout, fmt, ap); }
int env_printf(const char *fmt, ...) { va_list ap; int n; va_start(ap, fmt); n = env_vfprintf(stdout, fmt, ap); va_end(ap); return n; }
void env_perror(const char *s) { put_text(stderr, s, strlen(s)); put_text(stderr, ": error\n", 8); }
int env_remove(const char *path) { (void)path; vse_fail("no file is removed or renamed"); return 0; }
int env_rename(const char *a, const char *b) { (void)b; return env_remove(a); }
char *env_getenv(const char *name) { static char v[2]; (void)name; if (vse_bool("getenv")) return NULL; v[0] = '1'; return v; }
long env_any(void *p) { long v = vse_bool("environment") ? 1 : 0; if (p) memcpy(p, &v, sizeof v); return v; }
int env_fputc(int c, FILE *f) { char b = (char)c; put_text(f, &b, 1); return c; }

/* ---- strtod ----------------------------------------------------------------- */
double (*env_strtod_model)(const char *s, char **end); /* for harnesses about floats */
double env_strtod(const char *s, char **end)
{
	const char *p = s; double v = 0; int neg = 0, any = 0, n;
	if (env_strtod_model) return env_strtod_model(s, end);
	n = vse_strtod(s, &v);
	if (n >= 0) {
		if (n >= 65536) errno = ERANGE;
		if (end) *end = (char *)s + n % 65536;
		return v;
	}
	v = 0; /* symbolic text: decimal integers only */
	if (*p == '-') { neg = 1; p++; } else if (*p == '+') p++;
	while (*p >= '0' && *p <= '9') { v = v * 10 + (*p - '0'); p++; any = 1; }
	if (end) *end = (char *)(any ? p : s);
	return neg ? -v : v;
}
