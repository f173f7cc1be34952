/* One value of TYPE, any data size 0..9, embedded or allocated, inside a
 * mapping with guard bytes around it; schema parameters are symbolic.
 *
 * MODE 0 load the text(s) TEXT   1 save (RT 1: and load again)   3 missing field
 * TEXT 0 decimals around every size's limits   2 hex numbers around every size's limits
 *      3 TLEN free bytes   4 around the 64-bit limits   5 white space, signs, prefixes   6 names
 *      7 up to 300 zeros, nines or blanks before the last bytes   8 words for false with a letter more or less
 * NENT entries of a flags sequence or bitfield mapping */
#include "zooapi.h"
#include "gen.h"
#include <stdio.h>
#include <errno.h>
#define REF_FLOAT 1
#include "ref.h"
#include "refsave.h"
#ifndef MODE
#define MODE 0
#endif
#ifndef TEXT
#define TEXT 0
#endif
#ifndef TLEN
#define TLEN 3
#endif
#ifndef NENT
#define NENT 2
#endif
#ifndef SIZES
#define SIZES 10        /* data sizes 0..SIZES-1 */
#endif
#ifndef RT
#define RT 0
#endif
#ifndef STYLES
#define STYLES 0
#endif
#ifndef VFLAGS
#define VFLAGS 0
#endif
#ifndef CFG
#define CFG 0
#endif

/* ---- strtod: any value, any range error, any amount of text consumed ------ */
static double fl_v[2]; static bool fl_range[2], fl_all[2]; static unsigned fl_n;
static double any_strtod(const char *s, char **end)
{
	unsigned n = (unsigned)strlen(s);
	if (fl_n == 0) {
		uint64_t b = vse_u64("double");
		memcpy(&fl_v[0], &b, 8);
		fl_all[0] = n > 0 && vse_bool("whole");
		fl_range[0] = vse_bool("erange");
		fl_n = 1;
	}
	if (fl_range[0]) errno = ERANGE;
	if (end) *end = (char *)s + (fl_all[0] ? n : n / 2);
	return fl_v[0];
}
static bool ref_float_text(const char *t, double *v, bool *range)
{
	if (!env_strtod_model) { int n = vse_strtod(t, v); *range = n >= 65536; return n > 0 && t[n % 65536] == 0; }
	*v = fl_v[0]; *range = fl_range[0];
	return fl_all[0];
}

struct holder { uint8_t g0[8]; uint8_t v[16]; uint8_t g1[8]; }; /* no padding */
static cyaml_strval_t names[4] = { { "a", 1 }, { "Ab", 2 }, { "aB", 4 }, { "7", 8 } };
static cyaml_bitdef_t bits[2] = { { "l", 0, 4 }, { "H", 4, 4 } };
static cyaml_schema_field_t fld[4];
static cyaml_schema_value_t top;
static int vctx;
#define GUARD "72340172838076673" /* 0x0101010101010101 */

static void put(struct env_ev *e, const char *b) { env_set_text(e, b); }
static void text(void)
{
	struct env_ev *e = sc_type(YAML_SCALAR_EVENT);
	char b[ENV_TXT];
	switch (TEXT) {
	case 0: {
		static const char *const pre[] = { "12", "-12", "25", "-25", "3276", "-3276", "6553", "-6553", "1", "838860", "-838860", "1677721", "214748364", "-214748364", "429496729", "-429496729", "54975581388", "109951162777", "-14073748835532", "28147497671065", "3602879701896396", "-3602879701896396", "7205759403792793" };
		unsigned n;
		put(e, pre[vse_choose(ARRLEN(pre), "prefix")]);
		n = e->len;
		vse_symbolic(e->txt + n, TLEN - 1, "txt"); e->txt[n + TLEN - 1] = 0; e->len = n + TLEN - 1;
		for (unsigned i = 0; i < TLEN - 1; i++) vse_assume((e->txt[n + i] == 0) | ((e->txt[n + i] >= '0') & (e->txt[n + i] <= '9')));
		return;
	}
	case 2: {
		static const char *const pre[] = { "0x", "-0x", "0X7f", "-0x80", "0xff", "0x10", "0x7ffff", "-0x80000", "0xfffff", "0x7fffffff", "-0x80000000", "0xffffffff", "0x100000000", "0x7fffffffffffff", "0xffffffffffffff", "-0x80000000000000", "0x100000000000000" };
		unsigned n, k = TLEN - 1;
		put(e, pre[vse_choose(ARRLEN(pre), "prefix")]);
		n = e->len;
		vse_symbolic(e->txt + n, k, "txt"); e->txt[n + k] = 0; e->len = n + k;
		for (unsigned i = n; i < n + k; i++) vse_assume(((e->txt[i] >= '0') & (e->txt[i] <= '9')) | ((e->txt[i] >= 'a') & (e->txt[i] <= 'f')));
		return;
	}
	case 3: {
		vse_symbolic(b, TLEN, "txt"); b[TLEN] = 0;
		memcpy(e->txt, b, TLEN + 1); e->len = TLEN;
		return;
	}
	case 4: {
		static const char *const pre[] = { "92233720368547758", "-92233720368547758", "184467440737095516", "-184467440737095516", "0xffffffffffffffe", "0x7ffffffffffffff", "-0x80000000000000", "0177777777777777777777", "077777777777777777777", "00000000000000000000000000" };
		unsigned n;
		put(e, pre[vse_choose(ARRLEN(pre), "prefix")]);
		n = e->len;
		vse_symbolic(e->txt + n, 2, "txt"); e->txt[n + 2] = 0; e->len = n + 2;
		return;
	}
	case 5: {
		static const char *const pre[] = { "+", "-", " ", "\t-", "0", "0x", "0X", "-0x", "- ", "--", "+-", "0b", "\n \v\f\r+" };
		static const char *const suf[] = { "", " ", "u", ".0", "\n" };
		unsigned v = vse_u8("num");
		char d[8];
		strcpy(b, pre[vse_choose(ARRLEN(pre), "prefix")]);
		sprintf(d, "%u", v);
		strcat(b, d);
		strcat(b, suf[vse_choose(ARRLEN(suf), "suffix")]);
		break;
	}
	case 7: {
		static const char *const pre[] = { "", "-", "0x", "-0x", "0" };
		static const unsigned n_[] = { 18, 19, 20, 21, 22, 23, 24, 25, 30, 31, 32, 33, 62, 63, 64, 65, 127, 128, 129, 253, 254, 255, 256, 257, 300 };
		unsigned n, k = n_[(TYPE == CYAML_INT || TYPE == CYAML_UINT) ? vse_choose(ARRLEN(n_), "length") : 2 + 11 * vse_choose(3, "length")], fill = vse_choose(3, "fill");
		if (fill == 1) { memset(e->txt, ' ', k); n = k; strcpy(e->txt + n, pre[vse_choose(4, "prefix")]); n += (unsigned)strlen(e->txt + n); }
		else { strcpy(e->txt, pre[vse_choose(5, "prefix")]); n = (unsigned)strlen(e->txt); memset(e->txt + n, fill ? '9' : '0', k); n += k; }
		strcpy(e->txt + n, "1"); n++;
		vse_symbolic(e->txt + n, 1, "txt"); e->txt[n + 1] = 0; e->len = n + (e->txt[n] != 0);
		return;
	}
	case 8: {
		static const char *const w[] = { "false", "no", "off", "disable", "0", "true", "yes", "on", "enable", "1" };
		const char *c = w[vse_choose(ARRLEN(w), "word")]; unsigned n = (unsigned)strlen(c), at = vse_choose(n + 1, "where"), how = vse_choose(3, "how"), cs = vse_choose(4, "case");
		/* a byte inserted, replaced or, at the end, left out; letters in lower, upper or mixed case */
		char x; vse_symbolic(&x, 1, "byte"); vse_assume(x != 0);
		unsigned k = 0;
		for (unsigned i = 0; i <= n; i++) {
			if (i == at && how < 2) b[k++] = x;
			if (i < n && (i != at || how == 0)) b[k++] = (cs == 1 || (cs == 2 && !i) || (cs == 3 && i % 2)) && c[i] >= 'a' ? (char)(c[i] - 32) : c[i];
		}
		b[k] = 0;
		memcpy(e->txt, b, k + 1); e->len = k;
		return;
	}
	default: {
		static const char *const w[] = { "a", "Ab", "aB", "AB", "7", "8", "l", "H", "h", "" };
		strcpy(b, w[vse_choose(ARRLEN(w), "name")]);
		break;
	}
	}
	put(e, b);
}
static void name(void)
{
	static const char *const w[] = { "l", "H", "h" };
	sc_scalar(w[vse_choose(ARRLEN(w), "bitname")]);
}
static void value(void)
{
	unsigned n;
	switch (TYPE) {
	case CYAML_FLAGS:
		sc_seq();
		n = vse_choose(NENT + 1, "entries");
		for (unsigned i = 0; i < n; i++) {
			if (TEXT == 6 && i == 0 && vse_choose(8, "odd") == 0) { sc_map(); sc_mapend(); }
			text();
		}
		sc_seqend();
		break;
	case CYAML_BITFIELD:
		sc_map();
		n = vse_choose(NENT + 1, "entries");
		for (unsigned i = 0; i < n; i++) {
			name();
			if (i == 0 && vse_choose(6, "odd") == 0) { sc_seq(); sc_seqend(); } else text();
		}
		sc_mapend();
		break;
	default: text(); break;
	}
}

int harness_main(void)
{
	if (MODE != 1) env_strtod_model = any_strtod;
	cyaml_config_t cfg = env_config(CFG);
	cyaml_schema_value_t *s = &fld[0].value;
	bool ptr;
	cyaml_err_t err, want;
	uint8_t *d = NULL;
	unsigned size;

	cfg.validation_ctx = &vctx;
#ifdef SIZE
	size = SIZE;
#elif defined(SOMESIZES)
	{ static const unsigned z[] = { 1, 2, 4, 8, 7, 9, 0, 3 }; size = z[vse_choose(SOMESIZES, "size")]; }
#else
	size = vse_choose(SIZES, "size");
#endif
	ptr = vse_bool("ptr");
	if (ptr && size == 0) vse_end();
	fld[0].key = "v"; fld[0].data_offset = offsetof(struct holder, v);
	s->type = TYPE; s->data_size = size;
	s->flags = (ptr ? CYAML_FLAG_POINTER : 0) | (VFLAGS) | (MODE == 3 ? CYAML_FLAG_OPTIONAL : 0);
#ifdef STRICT
	if (vse_bool("strict")) s->flags |= CYAML_FLAG_STRICT;
#endif
#ifdef CASES
	{ static const unsigned c[] = { 0, CYAML_FLAG_CASE_SENSITIVE, CYAML_FLAG_CASE_INSENSITIVE, CYAML_FLAG_CASE_SENSITIVE | CYAML_FLAG_CASE_INSENSITIVE };
	  s->flags |= c[vse_choose(4, "case")]; if (vse_bool("cfg-ci")) cfg.flags |= CYAML_CFG_CASE_INSENSITIVE; }
#endif
#if MODE != 1
	/* numbers right before and after the value, loaded before it */
	for (int i = 1; i < 3; i++) { fld[i].key = i == 1 ? "f" : "g"; fld[i].value.type = CYAML_UINT; fld[i].value.data_size = 8; }
	fld[1].data_offset = offsetof(struct holder, v) - 8; fld[2].data_offset = offsetof(struct holder, v) + (ptr ? 8 : size);
#endif
	top.type = CYAML_MAPPING; top.flags = CYAML_FLAG_POINTER; top.data_size = sizeof(struct holder); top.mapping.fields = fld;
#ifdef WITH_CB
	cb_symbolic = true;
#endif
	switch (TYPE) {
	case CYAML_INT:
#ifdef LIMITS
		s->integer.min = vse_i64("min"); s->integer.max = vse_i64("max");
#endif
#ifdef WITH_CB
		s->integer.validation_cb = cb_int;
#endif
		if (MODE == 3) s->integer.missing = vse_i64("missing");
		break;
	case CYAML_UINT:
#ifdef LIMITS
		s->unsigned_integer.min = vse_u64("min"); s->unsigned_integer.max = vse_u64("max");
#endif
#ifdef WITH_CB
		s->unsigned_integer.validation_cb = cb_uint;
#endif
		if (MODE == 3) s->unsigned_integer.missing = vse_u64("missing");
		break;
	case CYAML_ENUM: case CYAML_FLAGS:
		s->enumeration.strings = names; s->enumeration.count = RT ? 3 : 4;
#ifdef SYMVALS
		for (unsigned i = 0; i < SYMVALS; i++) names[i].val = vse_i64("val");
#endif
#ifdef WITH_CB
		s->enumeration.validation_cb = cb_int;
#endif
		if (MODE == 3) s->enumeration.missing = vse_i64("missing");
		break;
	case CYAML_BITFIELD:
		s->bitfield.bitdefs = bits; s->bitfield.count = 2;
#ifdef SYMVALS
#if MODE == 1
		{ static const uint8_t b[][2] = { { 0, 0 }, { 0, 1 }, { 0, 8 }, { 0, 64 }, { 7, 1 }, { 7, 2 }, { 8, 8 }, { 31, 1 }, { 31, 2 }, { 60, 4 }, { 60, 5 }, { 63, 1 }, { 64, 1 }, { 1, 63 }, { 16, 32 }, { 255, 2 } };
		  for (unsigned i = 0; i < SYMVALS; i++) { unsigned k = vse_choose(ARRLEN(b), "bitdef"); bits[i].offset = b[k][0]; bits[i].bits = b[k][1]; } }
#else
		for (unsigned i = 0; i < SYMVALS; i++) { bits[i].offset = vse_u8("offset"); bits[i].bits = vse_u8("bits"); }
#endif
#endif
#ifdef WITH_CB
		s->bitfield.validation_cb = cb_uint;
#endif
		if (MODE == 3) s->bitfield.missing = vse_u64("missing");
		break;
	case CYAML_BOOL: if (MODE == 3) s->boolean.missing = vse_bool("missing"); break;
	case CYAML_FLOAT:
#ifdef WITH_CB
		s->floating_point.validation_cb = cb_float;
#endif
		if (MODE == 3) {
			static const double m[] = { 0.0, 1.5, -1e300, 1e-300, 3e38, 1e39, 0.1 };
			s->floating_point.missing = m[vse_choose(ARRLEN(m), "missing")];
			if (s->flags & CYAML_FLAG_STRICT) vse_end();
		}
		break;
	case CYAML_STRING:
		s->string.min = vse_u32("min"); s->string.max = vse_u32("max");
		if (!ptr) { if (size == 0) vse_end(); vse_assume(s->string.max < size); }
		else if (size != 1) vse_end();
#ifdef WITH_CB
		s->string.validation_cb = cb_string;
#endif
		break;
	default: break;
	}
#if MODE == 1
	{
		int live;
		char *out = NULL; size_t len = 0;
		struct holder *h;
		uint8_t *p;
#if STYLES
		/* every single flag, and some pairs */
		static const uint8_t sts[] = { 0, 1, 2, 4, 8, 16, 3, 6, 12, 24, 31, 9, 17 };
		unsigned st = sts[vse_choose(ARRLEN(sts), "style")];
		if (st & 1) s->flags |= CYAML_FLAG_SCALAR_PLAIN;
		if (st & 2) s->flags |= CYAML_FLAG_SCALAR_FOLDED;
		if (st & 4) s->flags |= CYAML_FLAG_SCALAR_LITERAL;
		if (st & 8) s->flags |= CYAML_FLAG_SCALAR_QUOTE_SINGLE;
		if (st & 16) s->flags |= CYAML_FLAG_SCALAR_QUOTE_DOUBLE;
		st = vse_choose(16, "block");
		if (st & 1) s->flags |= CYAML_FLAG_BLOCK;
		if (st & 2) s->flags |= CYAML_FLAG_FLOW;
		if (st & 4) cfg.flags |= CYAML_CFG_STYLE_BLOCK;
		if (st & 8) cfg.flags |= CYAML_CFG_STYLE_FLOW;
		if (vse_bool("delim")) cfg.flags |= CYAML_CFG_DOCUMENT_DELIM;
#endif
		h = (struct holder *)gen_alloc(sizeof *h);
		if (ptr) { p = gen_alloc(size); memcpy(h->v, &p, sizeof p); } else p = h->v;
		if (TYPE == CYAML_FLOAT) {
			if (size == 4) { float x = (float)gen_floats[vse_choose(ARRLEN(gen_floats), "float")]; memcpy(p, &x, 4); if (RT && (s->flags & CYAML_FLAG_STRICT) && x - x != 0) vse_end(); /* strict: out of range */ }
			if (size == 8) { double x = gen_doubles[vse_choose(ARRLEN(gen_doubles), "double")]; memcpy(p, &x, 8); }
		} else if (TYPE == CYAML_STRING) {
			vse_symbolic(p, size - 1, "str"); p[size - 1] = 0;
		} else vse_symbolic(p, size, "val");
		if (TYPE == CYAML_BOOL && RT) vse_assume(rd(p, size < 8 ? size : 8) <= 1);
		if (TYPE == CYAML_BITFIELD && RT) {
			/* bits that belong to no name are not saved */
			uint64_t m = 0;
			for (unsigned i = 0; i < 2; i++) { vse_assume((bits[i].bits > 0) & (bits[i].bits + bits[i].offset <= 8 * size)); m |= (bits[i].bits >= 64 ? ~0ull : (1ull << bits[i].bits) - 1) << bits[i].offset; }
			vse_assume((rd(p, size < 8 ? size : 8) & ~m) == 0);
		}
		gen_snapshot();
		live = env_live;
		err = cyaml_save_data(&out, &len, &cfg, &top, h, 0);
		vse_observe(err);
		gen_check_unmodified("saving does not modify the client's data");
		want = !((CATS) & C_SAVE) ? err : ref_save(&cfg, &top, (uint8_t *)h, 0, err == CYAML_OK);
		CK(C_SAVE, err == want, want == CYAML_OK ? "data that fits the schema is saved" : "the documented error is reported");
		CK(C_SAVE, env_live == live, "saving leaves no allocation behind");
		if (err == CYAML_OK) vse_reach("saved"); else vse_reach("rejected");
#if RT
		if (err == CYAML_OK) {
			uint8_t *d1 = (uint8_t *)h;
			env_nscript = 0;
			for (int i = 0; i < env_nout; i++) { struct env_ev *e = sc_type(env_out[i].type); memcpy(e->txt, env_out[i].txt, ENV_TXT); e->len = env_out[i].len; }
			env_reset();
			env_next_event = env_script_event;
			err = cyaml_load_data((const uint8_t *)"", 0, &cfg, &top, (cyaml_data_t **)&d, NULL);
			CK(C_RT, err == CYAML_OK, "what was saved can be loaded again");
			same_value(C_RT, &top, (uint8_t *)&d1, (uint8_t *)&d, 0, true);
			vse_reach("roundtrip");
		}
#endif
		return 0;
	}
#endif
	sc_start();
	sc_map();
	sc_scalar("f"); sc_scalar(GUARD); sc_scalar("g"); sc_scalar(GUARD);
#if MODE == 3
#else
	sc_scalar("v");
	value();
#endif
	sc_mapend();
	sc_end();
	env_next_event = env_script_event;
	err = cyaml_load_data((const uint8_t *)"", 0, &cfg, &top, (cyaml_data_t **)&d, NULL);
	vse_observe(err);
#ifdef LOGCMP
	{   /* the same load without logging */
		uint8_t *d2 = NULL; unsigned calls = env_mem_calls; size_t total = env_alloc_total; cyaml_err_t err2; int nin = env_nin, was = env_live;
		cyaml_config_t c2 = cfg;
		c2.log_fn = NULL; c2.log_ctx = NULL; c2.log_level = CYAML_LOG_ERROR;
		env_again(true); cb_replay = true; cb_n = 0;
		err2 = cyaml_load_data((const uint8_t *)"", 0, &c2, &top, (cyaml_data_t **)&d2, NULL);
		vse_check(err == err2, "logging does not change the result");
		vse_check((d == NULL) == (d2 == NULL), "logging does not change what is returned");
		vse_check(calls == env_mem_calls && total == env_alloc_total && env_live == 2 * was, "logging does not change the allocations");
		vse_check(nin == env_nin, "logging does not change how much is read");
		if (err == CYAML_OK) same_value(C_ALL, &top, (uint8_t *)&d, (uint8_t *)&d2, 0, true);
		vse_reach(err == CYAML_OK ? "stored" : "rejected");
		vse_end();
	}
#endif
	if (err == CYAML_OK) {
		struct holder *h = (struct holder *)d;
		uint8_t acc = 0; unsigned n = ptr ? 8 : size;
		for (unsigned i = 0; i < sizeof *h; i++) if (i < 8 || i >= 8 + n) acc |= (uint8_t)(((uint8_t *)h)[i] ^ (i < 8 || i < 16 + n));
		CK(C_INT | C_ENUM | C_STR | C_BOOL | C_FLOAT | C_DEF, acc == 0, "nothing is written outside the value's own bytes");
	}
	{
		uint64_t n = 0;
		want = ref_load(&cfg, &top, err, &d, &n);
		if (err == CYAML_OK) CK(ref_cat, want == CYAML_OK, "the loader rejects what the schema does not allow");
		else if (want == CYAML_OK) CK(CATS, false, "a value that fits the schema is accepted");
		else CK(ref_cat, err == want, "the documented error is reported");
	}
	if (err == CYAML_OK) {
		struct holder *h = (struct holder *)d;
		vse_observe(rd(ptr ? *(uint8_t **)h->v ? *(uint8_t **)h->v : h->g0 : h->v, size == 0 ? 0 : size > 8 ? 8 : ptr && !*(uint8_t **)h->v ? 8 : size));
		cyaml_free(&cfg, &top, d, 0);
		vse_reach("stored");
	} else vse_reach("rejected");
	CK(C_LFAIL | C_FREE, env_live == 0, "nothing is leaked");
	return 0;
}
