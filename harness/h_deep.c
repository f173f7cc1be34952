/* Long and deep values, beyond what the document generators reach.
 * MODE 11, 12  documents of long sequences of a fixed length
 *      13 a sequence of D anchored entries, used again
 * MODE 0  mappings nested D deep: loaded, saved, copied, freed
 *      1  an ignored value of any kind nested D deep, between values that are not
 *      2  mappings nested D deep, every one anchored; any of them used again
 *      3  D anchored scalars, any of them redefined, any of them used again
 *      4  sequence of D mappings with allocated members
 *      5  mapping of FIELDS required fields, any one missing, repeated or wrong
 *      6  strings of D bytes
 *      7  tables of D names: enum, flags and bitfield values, any name
 *      8  large entries, and values far into a structure
 *      9  sequences of D entries: loaded, saved, copied, freed
 *      10 sequences of D entries of a fixed length inside others
 *      14 names and anchors of up to D bytes that differ in their last one
 *      15 defaults of D bytes or entries
 * FAULT 1: one allocation or parser failure while loading */
#include "zooapi.h"
#ifndef MODE
#define MODE 0
#endif
#ifndef D
#define D 20
#endif
#ifndef FAULT
#define FAULT 0
#endif
#ifndef CFG
#define CFG 0
#endif
#define P_ CYAML_FLAG_POINTER
#define O_ CYAML_FLAG_OPTIONAL
#define ZFLAGS 0
struct node { uint8_t v; struct node *next; char *s; uint8_t *q; uint16_t q_n; };
static const cyaml_schema_value_t q_e = { .type = CYAML_UINT, .flags = 0, .data_size = 1, .unsigned_integer = { .max = 255 } };
static const cyaml_schema_field_t node_f[] = { CYAML_FIELD_UINT("v", CYAML_FLAG_DEFAULT, struct node, v), CYAML_FIELD_MAPPING_PTR("n", P_ | O_, struct node, next, node_f), CYAML_FIELD_STRING_PTR("s", P_ | O_, struct node, s, 0, 9), CYAML_FIELD_SEQUENCE_COUNT("q", P_ | O_, struct node, q, q_n, &q_e, 0, 9), CYAML_FIELD_END };
#if MODE == 0
static const cyaml_schema_value_t zoo_schema = { .type = CYAML_MAPPING, .flags = P_, .data_size = sizeof(struct node), .mapping = { .fields = node_f } };
#elif MODE == 1
struct z { uint8_t a, b; };
static const cyaml_schema_field_t z_f[] = { CYAML_FIELD_UINT("a", CYAML_FLAG_DEFAULT, struct z, a), CYAML_FIELD_IGNORE("x", O_), CYAML_FIELD_UINT("b", CYAML_FLAG_DEFAULT, struct z, b), CYAML_FIELD_END };
static const cyaml_schema_value_t zoo_schema = { .type = CYAML_MAPPING, .flags = P_, .data_size = sizeof(struct z), .mapping = { .fields = z_f } };
#elif MODE == 2
static const cyaml_schema_value_t z_e = { .type = CYAML_MAPPING, .flags = P_, .data_size = sizeof(struct node), .mapping = { .fields = node_f } };
static const cyaml_schema_value_t zoo_schema = { .type = CYAML_SEQUENCE, .flags = P_, .data_size = sizeof(void *), .sequence = { .entry = &z_e, .min = 0, .max = 9 } };
#elif MODE == 3
static const cyaml_schema_value_t z_e = { .type = CYAML_UINT, .flags = 0, .data_size = 1, .unsigned_integer = { .max = 255 } };
static const cyaml_schema_value_t zoo_schema = { .type = CYAML_SEQUENCE, .flags = P_, .data_size = 1, .sequence = { .entry = &z_e, .min = 0, .max = CYAML_UNLIMITED } };
#elif MODE == 4
static const cyaml_schema_value_t z_e = { .type = CYAML_MAPPING, .flags = 0, .data_size = sizeof(struct node), .mapping = { .fields = node_f } };
static const cyaml_schema_value_t zoo_schema = { .type = CYAML_SEQUENCE, .flags = P_, .data_size = sizeof(struct node), .sequence = { .entry = &z_e, .min = 0, .max = CYAML_UNLIMITED } };
#elif MODE == 5
#ifndef FIELDS
#define FIELDS 70
#endif
struct z { uint8_t v[FIELDS]; };
static char names[FIELDS][4];
static cyaml_schema_field_t z_f[FIELDS + 1];
static const cyaml_schema_value_t zoo_schema = { .type = CYAML_MAPPING, .flags = P_, .data_size = sizeof(struct z), .mapping = { .fields = z_f } };
#elif MODE == 7
struct z { uint16_t e; uint32_t f, b; };
static char names[D][4];
static cyaml_strval_t z_ev[D], z_fv[D];
static cyaml_bitdef_t z_b[D];
static const cyaml_schema_field_t z_f[] = { { .key = "e", .value = { .type = CYAML_ENUM, .data_size = 2, .enumeration = { .strings = z_ev, .count = D } }, .data_offset = offsetof(struct z, e) }, { .key = "f", .value = { .type = CYAML_FLAGS, .data_size = 4, .enumeration = { .strings = z_fv, .count = D } }, .data_offset = offsetof(struct z, f) }, { .key = "b", .value = { .type = CYAML_BITFIELD, .data_size = 4, .bitfield = { .bitdefs = z_b, .count = D } }, .data_offset = offsetof(struct z, b) }, CYAML_FIELD_END };
static const cyaml_schema_value_t zoo_schema = { .type = CYAML_MAPPING, .flags = P_, .data_size = sizeof(struct z), .mapping = { .fields = z_f } };
#elif MODE == 8
#ifndef EPAD
#define EPAD 300
#endif
struct ent { uint8_t pad[EPAD]; char *s; uint8_t v; uint8_t *q; uint8_t pad2[EPAD]; uint16_t q_n; };
struct z { uint8_t pad[D]; struct ent *p; struct ent e[3], f[2], m[2][2]; uint8_t pad3[D]; unsigned p_n, e_n, m_n; uint8_t last; };
static const cyaml_schema_field_t e_f[] = { CYAML_FIELD_UINT("v", CYAML_FLAG_DEFAULT, struct ent, v), CYAML_FIELD_STRING_PTR("s", P_ | O_, struct ent, s, 0, 9), CYAML_FIELD_SEQUENCE_COUNT("q", P_ | O_, struct ent, q, q_n, &q_e, 0, 9), CYAML_FIELD_END };
static const cyaml_schema_value_t z_e = { .type = CYAML_MAPPING, .flags = 0, .data_size = sizeof(struct ent), .mapping = { .fields = e_f } };
static const cyaml_schema_value_t z_m = { .type = CYAML_SEQUENCE_FIXED, .flags = 0, .data_size = sizeof(struct ent), .sequence = { .entry = &z_e, .min = 2, .max = 2 } };
static const cyaml_schema_field_t z_f[] = { CYAML_FIELD_SEQUENCE_COUNT("p", P_ | O_, struct z, p, p_n, &z_e, 0, 9), CYAML_FIELD_SEQUENCE_COUNT("e", O_, struct z, e, e_n, &z_e, 0, 3), CYAML_FIELD_SEQUENCE_FIXED("f", CYAML_FLAG_DEFAULT, struct z, f, &z_e, 2), CYAML_FIELD_SEQUENCE_COUNT("m", CYAML_FLAG_DEFAULT, struct z, m, m_n, &z_m, 0, 2), CYAML_FIELD_UINT("last", CYAML_FLAG_DEFAULT, struct z, last), CYAML_FIELD_END };
static const cyaml_schema_value_t zoo_schema = { .type = CYAML_MAPPING, .flags = P_, .data_size = sizeof(struct z), .mapping = { .fields = z_f } };
#elif MODE == 9
struct z { uint8_t e[D], last; unsigned e_n; };
static cyaml_schema_field_t z_f[] = { CYAML_FIELD_SEQUENCE_COUNT("e", CYAML_FLAG_DEFAULT, struct z, e, e_n, &q_e, 0, D), CYAML_FIELD_UINT("last", CYAML_FLAG_DEFAULT, struct z, last), CYAML_FIELD_END };
static const cyaml_schema_value_t zoo_schema = { .type = CYAML_MAPPING, .flags = P_, .data_size = sizeof(struct z), .mapping = { .fields = z_f } };
static const cyaml_schema_value_t s_e = { .type = CYAML_STRING, .flags = P_, .data_size = 1, .string = { .max = 9 } };
static const cyaml_schema_value_t s_schema = { .type = CYAML_SEQUENCE, .flags = P_, .data_size = sizeof(char *), .sequence = { .entry = &s_e, .min = 0, .max = CYAML_UNLIMITED } };
static unsigned many, pos, outs; static uint64_t mix;
static uint8_t at(unsigned i) { return (uint8_t)((i * 7) ^ (i >> 8)); }
#elif MODE == 10
struct z { uint8_t g[2][D]; char **p; uint8_t last; uint16_t g_n; };
static const cyaml_schema_value_t z_g = { .type = CYAML_SEQUENCE_FIXED, .flags = 0, .data_size = 1, .sequence = { .entry = &q_e, .min = D, .max = D } };
static const cyaml_schema_value_t z_s = { .type = CYAML_STRING, .flags = P_, .data_size = 1, .string = { .max = 9 } };
static const cyaml_schema_field_t z_f[] = { CYAML_FIELD_SEQUENCE_COUNT("g", CYAML_FLAG_DEFAULT, struct z, g, g_n, &z_g, 0, 2), CYAML_FIELD_SEQUENCE_FIXED("p", P_, struct z, p, &z_s, D), CYAML_FIELD_UINT("last", CYAML_FLAG_DEFAULT, struct z, last), CYAML_FIELD_END };
static const cyaml_schema_value_t zoo_schema = { .type = CYAML_MAPPING, .flags = P_, .data_size = sizeof(struct z), .mapping = { .fields = z_f } };
#elif MODE == 11 || MODE == 12   /* the whole document: sequences of a fixed length, in a sequence or in one of a fixed length */
static const cyaml_schema_value_t z_g = { .type = CYAML_SEQUENCE_FIXED, .flags = 0, .data_size = 1, .sequence = { .entry = &q_e, .min = D, .max = D } };
static const cyaml_schema_value_t zoo_schema = { .type = MODE == 11 ? CYAML_SEQUENCE : CYAML_SEQUENCE_FIXED, .flags = P_, .data_size = D, .sequence = { .entry = &z_g, .min = MODE == 11 ? 0 : 3, .max = 3 } };
#elif MODE == 13   /* a long anchored sequence, used again */
struct z { uint8_t *p, *q, *r, last; unsigned p_n, q_n, r_n; };
static const cyaml_schema_field_t z_f[] = { CYAML_FIELD_SEQUENCE_COUNT("p", P_, struct z, p, p_n, &q_e, 0, CYAML_UNLIMITED), CYAML_FIELD_SEQUENCE_COUNT("q", P_, struct z, q, q_n, &q_e, 0, CYAML_UNLIMITED), CYAML_FIELD_SEQUENCE_COUNT("r", P_, struct z, r, r_n, &q_e, 0, CYAML_UNLIMITED), CYAML_FIELD_UINT("last", CYAML_FLAG_DEFAULT, struct z, last), CYAML_FIELD_END };
static const cyaml_schema_value_t zoo_schema = { .type = CYAML_MAPPING, .flags = P_, .data_size = sizeof(struct z), .mapping = { .fields = z_f } };
#elif MODE == 14
#define NL (D + 2)
struct z { uint8_t u, a, b, last; uint16_t e, f, bf; uint8_t *q; uint16_t q_n; };
static char nm[4][2][NL];       /* [what][which] */
static char up[2][NL];
static cyaml_strval_t z_ev[3], z_fv[3];
static cyaml_bitdef_t z_b[3];
static const cyaml_schema_field_t z_f[] = { CYAML_FIELD_UINT(nm[0][0], O_, struct z, a), CYAML_FIELD_UINT(nm[0][1], O_, struct z, b), CYAML_FIELD_UINT("u", O_, struct z, u),
	{ .key = "e", .value = { .type = CYAML_ENUM, .flags = O_ | CYAML_FLAG_STRICT, .data_size = 2, .enumeration = { .strings = z_ev, .count = 3 } }, .data_offset = offsetof(struct z, e) },
	{ .key = "f", .value = { .type = CYAML_FLAGS, .flags = O_ | CYAML_FLAG_STRICT, .data_size = 2, .enumeration = { .strings = z_fv, .count = 3 } }, .data_offset = offsetof(struct z, f) },
	{ .key = "b", .value = { .type = CYAML_BITFIELD, .flags = O_, .data_size = 2, .bitfield = { .bitdefs = z_b, .count = 3 } }, .data_offset = offsetof(struct z, bf) },
	CYAML_FIELD_SEQUENCE_COUNT("q", P_ | O_, struct z, q, q_n, &q_e, 0, 9), CYAML_FIELD_UINT("last", O_, struct z, last), CYAML_FIELD_END };
static const cyaml_schema_value_t zoo_schema = { .type = CYAML_MAPPING, .flags = P_, .data_size = sizeof(struct z), .mapping = { .fields = z_f } };
#elif MODE == 15
struct z { char *s; char e[D + 2]; uint8_t *q, f[D]; struct node *m; char **t; uint16_t q_n, t_n; uint8_t last; };
static char text[D + 1];
static uint8_t numbers[D];
static char *texts[D];
static struct node z_m;
static const cyaml_schema_value_t s_e = { .type = CYAML_STRING, .flags = P_, .data_size = 1, .string = { .max = 9 } };
static cyaml_schema_field_t z_f[] = { CYAML_FIELD_STRING_PTR("s", P_ | O_, struct z, s, 0, D), CYAML_FIELD_STRING("e", O_, struct z, e, 0), CYAML_FIELD_SEQUENCE_COUNT("q", P_ | O_, struct z, q, q_n, &q_e, 0, CYAML_UNLIMITED), CYAML_FIELD_SEQUENCE_FIXED("f", O_, struct z, f, &q_e, D), CYAML_FIELD_MAPPING_PTR("m", P_ | O_, struct z, m, node_f), CYAML_FIELD_SEQUENCE_COUNT("t", P_ | O_, struct z, t, t_n, &s_e, 0, CYAML_UNLIMITED), CYAML_FIELD_UINT("last", CYAML_FLAG_DEFAULT, struct z, last), CYAML_FIELD_END };
static const cyaml_schema_value_t zoo_schema = { .type = CYAML_MAPPING, .flags = P_, .data_size = sizeof(struct z), .mapping = { .fields = z_f } };
#elif MODE == 6
struct z { char *s; char e[D + 2]; };
static const cyaml_schema_field_t z_f[] = { CYAML_FIELD_STRING_PTR("s", P_, struct z, s, 1, D), CYAML_FIELD_STRING("e", CYAML_FLAG_DEFAULT, struct z, e, 1), CYAML_FIELD_END };
static const cyaml_schema_value_t zoo_schema = { .type = CYAML_MAPPING, .flags = P_, .data_size = sizeof(struct z), .mapping = { .fields = z_f } };
#endif
static const char *const zoo_keys[] = { "u" };
static const char *const zoo_vals[] = { "7" };
#include "gen.h"
#include "ref.h"
#include "refsave.h"

static const char *num(unsigned n) { n %= 256; static char b[4]; unsigned i = 0; if (n > 99) b[i++] = (char)('0' + n / 100); if (n > 9) b[i++] = (char)('0' + n / 10 % 10); b[i++] = (char)('0' + n % 10); b[i] = 0; return b; }
static unsigned name(unsigned n) { return 48 + n; }        /* anchors, see anchor_name() */
#define T(t) sc_scalar(t)
/* a number from 1 to max: the small ones, and those next to a power of two or to the end */
static unsigned much(unsigned max)
{
	static unsigned pick[64]; unsigned n = 0;
	for (unsigned i = 1; i <= max; i++) if (i <= 6 || i + 1 >= max || !(i & (i - 1)) || !((i + 1) & i) || (i > 2 && !((i - 1) & (i - 2)))) pick[n++] = i;
	return pick[vse_choose(n, "much")];
}

/* one of n: any of a few, or those next to a power of two or to the end */
static unsigned some(unsigned n)
{
	static const unsigned edge[] = { 0, 1, 127, 128, 255, 256 }; unsigned k;
	if (n <= 40) return vse_choose(n, "some");
	k = vse_choose(ARRLEN(edge) + 2, "some");
	return k < ARRLEN(edge) && edge[k] < n ? edge[k] : n - 1 - (k & 1);
}

enum { LV = MODE == 13 ? C_DOC : MODE == 15 ? C_DEF : MODE == 0 || MODE == 5 ? C_MAP : MODE == 1 ? C_IGN : MODE == 4 || MODE >= 8 ? C_SEQ : MODE == 6 ? C_STR : MODE == 7 ? C_ENUM : C_DOC };
#if MODE == 14
static struct env_ev *long_name(const char *n) { struct env_ev *e = T(""); unsigned k = (unsigned)strlen(n); memcpy(e->txt, n, k + 1); e->len = k; return e; }
#endif
static unsigned n_top; static cyaml_config_t cfg;
static bool is_sq;
static cyaml_err_t load(uint8_t **d)
{
	cyaml_err_t err;
	env_next_event = env_script_event;
	if (FAULT) { env_may_oom = env_may_oom_repeat = env_parse_may_fail = env_init_may_fail = true; }
	n_top = 77;
	err = cyaml_load_data((const uint8_t *)"", 0, &cfg, &zoo_schema, (cyaml_data_t **)d, is_sq ? &n_top : NULL);
	env_may_oom = env_may_oom_repeat = env_parse_may_fail = env_init_may_fail = false;
	vse_observe(err);
	if ((CATS) & C_LFAIL) env_check_no_libyaml("no parser or event of libyaml is left behind");
	if (err != CYAML_OK) {
		CK(C_LFAIL, *d == NULL && n_top == 77, "a failed load does not touch the caller's variables");
		CK(C_LFAIL, env_live == 0, "a failed load leaks nothing");
	}
	if (env_faults) {
		CK(C_LFAIL, err == (env_oom_hit ? CYAML_ERR_OOM : env_in_failed ? CYAML_ERR_LIBYAML_PARSER : CYAML_ERR_LIBYAML_PARSER_INIT), "a failure is reported with its error code");
		vse_reach("fault");
		vse_end();
	}
	return err;
}
/* saves, copies, loads what was saved, and frees everything */
static void use(uint8_t *d)
{
	uint8_t *c = NULL, *r = NULL;
	unsigned n = is_sq ? n_top : 0, n2 = 77, nc = zoo_schema.type == CYAML_SEQUENCE_FIXED ? zoo_schema.sequence.max : n;
	int live = env_live;
	char *out = NULL; size_t len = 0; cyaml_err_t saved;
	if (!is_sq || n) {
		env_nout = 0;
		saved = cyaml_save_data(&out, &len, &cfg, &zoo_schema, d, n);
		CK(C_SAVE | C_RT, saved == CYAML_OK, "the data is saved");
		if (out) env_mem(NULL, out, 0);
		CK(C_SAVE, env_live == live, "saving leaves nothing behind");
		if ((CATS) & C_SAVE) CK(C_SAVE, ref_save(&cfg, &zoo_schema, d, n, true) == CYAML_OK, "harness: reference of saving");
		CK(C_COPY, cyaml_copy(&cfg, &zoo_schema, d, nc, (cyaml_data_t **)&c) == CYAML_OK, "the data is copied");
		same_value(C_COPY, &zoo_schema, (uint8_t *)&d, (uint8_t *)&c, n, true);
		if ((CATS) & (C_COPY | C_FREE)) {   /* into memory of the caller */
			cyaml_schema_value_t flat = zoo_schema; int before = env_live; uint8_t *b, *to;
			size_t sz = is_sq ? stride(&flat) * n : flat.type == CYAML_SEQUENCE_FIXED ? stride(&flat) * flat.sequence.max : flat.data_size;
			flat.flags &= ~(unsigned)CYAML_FLAG_POINTER_NULL_STR;
			b = to = malloc(sz); memset(b, 0xa5, sz);
			CK(C_COPY, cyaml_copy(&cfg, &flat, d, nc, (cyaml_data_t **)&to) == CYAML_OK && to == b, "the data is copied to the caller's memory");
			same_value(C_COPY, &flat, d, b, n, true);
			CK(C_FREE, cyaml_free(&cfg, &flat, b, n) == CYAML_OK && env_live == before, "what the caller's memory refers to is freed");
			free(b);
		}
		env_nscript = 0;
		for (int i = 0; i < env_nout; i++) { struct env_ev *e = sc_type(env_out[i].type); memcpy(e->txt, env_out[i].txt, ENV_TXT); e->len = env_out[i].len; }
		env_reset();
		CK(C_RT, cyaml_load_data((const uint8_t *)"", 0, &cfg, &zoo_schema, (cyaml_data_t **)&r, is_sq ? &n2 : NULL) == CYAML_OK, "what was saved is loaded again");
		if (is_sq) CK(C_RT, n2 == n, "the count survives");
		same_value(C_RT, &zoo_schema, (uint8_t *)&d, (uint8_t *)&r, n, true);
		CK(C_FREE, cyaml_free(&cfg, &zoo_schema, r, n) == CYAML_OK, "reloaded data is freed");
		CK(C_FREE, cyaml_free(&cfg, &zoo_schema, c, n) == CYAML_OK, "copied data is freed");
		CK(C_FREE, env_live == live, "the copies are freed completely");
	}
	CK(C_FREE, cyaml_free(&cfg, &zoo_schema, d, n) == CYAML_OK && env_live == 0, "everything is freed");
	if ((CATS) & (C_SAVE | C_LFAIL)) env_check_no_libyaml("nothing is left behind");
	vse_reach("used");
}
#if MODE == 9
static bool many_events(struct env_ev *e)
{
	unsigned i = pos++;
	static const yaml_event_type_t head[] = { YAML_STREAM_START_EVENT, YAML_DOCUMENT_START_EVENT, YAML_MAPPING_START_EVENT, YAML_SCALAR_EVENT, YAML_SEQUENCE_START_EVENT }, tail[] = { YAML_SEQUENCE_END_EVENT, YAML_SCALAR_EVENT, YAML_SCALAR_EVENT, YAML_MAPPING_END_EVENT, YAML_DOCUMENT_END_EVENT, YAML_STREAM_END_EVENT };
	e->type = i < 5 ? head[i] : i < 5 + many ? YAML_SCALAR_EVENT : tail[i - 5 - many];
	if (e->type == YAML_SCALAR_EVENT) env_set_text(e, i == 3 ? "e" : i < 5 + many ? num(at(i - 5)) : i == 6 + many ? "last" : "77");
	return true;
}
static uint64_t hash(uint64_t m, const char *s) { for (; *s; s++) m = (m << 5 | m >> 59) ^ (uint8_t)*s; return (m << 5 | m >> 59) ^ 1; }
static void count_emitted(const yaml_event_t *e) { if (e->type == YAML_SCALAR_EVENT) { outs++; mix = hash(mix, (const char *)e->data.scalar.value); } }
#endif
int harness_main(void)
{
	uint8_t *d = NULL;
	cfg = env_config((CFG));
	is_sq = zoo_schema.type == CYAML_SEQUENCE;
	sc_start();
#if MODE == 0
#define SQ(i) (T("q"), sc_seq(), T(num(i)), T(num(i + 1)), sc_seqend())
	unsigned n = much(D); bool first = vse_bool("value-first"); unsigned more = vse_choose(4, "more"); bool strs = more == 1, sqs = more > 1;	/* strings, or sequences after or before the next level */
	for (unsigned i = 0; i < n; i++) { sc_map(); if (first) { T("v"); T(num(i)); } if (more == 3) SQ(i); if (i + 1 < n) T("n"); }
	for (unsigned i = n; i-- > 0;) { if (!first) { T("v"); T(num(i)); } if (more == 2) SQ(i); if (strs) { T("s"); T(num(i)); } sc_mapend(); }
	sc_end();
	CK(LV, load(&d) == CYAML_OK, "a deep document is loaded");
	struct node *p = (struct node *)d;
	for (unsigned i = 0; i < n; i++, p = p->next) { CK(LV, p != NULL && p->v == (uint8_t)i, "every level has its value"); CK(LV, strs ? p->s != NULL && !strcmp(p->s, num(i)) : p->s == NULL, "every level has its string"); CK(LV, sqs ? p->q_n == 2 && p->q[0] == (uint8_t)i && p->q[1] == (uint8_t)(i + 1) : p->q == NULL && p->q_n == 0, "every level has its sequence"); }
	CK(LV, p == NULL, "the last level ends the list");
	use(d);
#elif MODE == 1
	unsigned n = much(D + 1) - 1, kind = vse_choose(4, "kind"); bool wide = vse_bool("wide"); bool unk = (CFG) & CYAML_CFG_IGNORE_UNKNOWN_KEYS && vse_bool("unknown");
	sc_map(); T("a"); T("1");
	T(unk ? "zz" : "x");
	for (unsigned i = 0; i < n; i++) {
		if (kind == 0 || (kind == 2 && i % 2) || (kind == 3 && i % 2 == 0)) { sc_map(); if (wide) { T("b"); T("9"); } T("a"); } else { sc_seq(); if (wide) T("a"); }
	}
	T("deep");
	for (unsigned i = n; i-- > 0;) {
		if (kind == 0 || (kind == 2 && i % 2) || (kind == 3 && i % 2 == 0)) { if (wide) { T("x"); T("7"); } sc_mapend(); } else { if (wide) { sc_seq(); sc_seqend(); sc_map(); sc_mapend(); } sc_seqend(); }
	}
#undef LONGER
#define LONGER(n_) do { for (unsigned i_ = 0; i_ < (n_); i_++) { T("e"); if (kind) { sc_map(); sc_mapend(); } } } while (0)
	if (!n) { unsigned w = some(D); env_nscript--; if (kind % 2) { sc_map(); for (unsigned i = 0; i < w; i++) { T("b"); T("e"); } sc_mapend(); } else { sc_seq(); LONGER(w); sc_seqend(); } }
	T("b"); T("2"); sc_mapend(); sc_end();
	CK(LV, load(&d) == CYAML_OK, "a deep ignored value is skipped");
	CK(LV, ((struct z *)d)->a == 1 && ((struct z *)d)->b == 2, "the values around it are loaded");
	use(d);
#elif MODE == 2
#ifdef SPARSE
	static const unsigned deep[] = { 127, 128, 254, 255, 256, 257, D };
	unsigned n = deep[vse_choose(ARRLEN(deep), "much")]; bool first = vse_bool("value-first");
	/* anchors at three levels only */
	const unsigned at[3] = { 0, n / 2, n - 1 };
	unsigned k = at[vse_choose(3, "again")], k2 = at[vse_choose(3, "again")];
#define ANCHORED(i) ((i) == 0 || (i) == n / 2 || (i) == n - 1)
#else
	unsigned n = much(D); bool first = vse_bool("value-first");
	unsigned k = vse_choose(n, "again"), k2 = vse_choose(n, "again");
#define ANCHORED(i) true
#endif
	sc_seq();
	for (unsigned i = 0; i < n; i++) { struct env_ev *m = sc_map(); if (ANCHORED(i)) m->anchor = name(i); if (first) { T("v"); T(num(i)); } if (i + 1 < n) T("n"); }
	for (unsigned i = n; i-- > 0;) { if (!first) { T("v"); T(num(i)); } sc_mapend(); }
	sc_alias(name(k)); sc_map(); T("v"); T("200"); T("n"); sc_alias(name(k2)); sc_mapend();
	sc_seqend(); sc_end();
	CK(LV, load(&d) == CYAML_OK, "a document with nested anchors is loaded");
	CK(LV, n_top == 3, "the aliases are entries");
	for (unsigned e = 0; e < 3; e++) {
		struct node *p = ((struct node **)d)[e]; unsigned i = e == 0 ? 0 : e == 1 ? k : k2;
		if (e == 2) { CK(LV, p && p->v == 200, "values around an alias are loaded"); p = p->next; }
		for (; i < n; i++, p = p->next) CK(LV, p != NULL && p->v == (uint8_t)i, "an alias gives the anchored value, at every level");
		CK(LV, p == NULL, "an alias gives no more than the anchored value");
	}
	use(d);
#elif MODE == 3
	static const unsigned wide[] = { 255, 256, 257, D };
	unsigned n = D > 40 ? wide[vse_choose(ARRLEN(wide), "much")] : much(D), re, k;
	re = some(n + 1); k = some(n);
	sc_seq();
	for (unsigned i = 0; i < n; i++) T(num(i))->anchor = name(i);
	if (re < n) T("222")->anchor = name(re);
	sc_alias(name(k)); sc_alias(name(n - 1)); sc_seqend(); sc_end();
	CK(LV, load(&d) == CYAML_OK, "a document with many anchors is loaded");
	CK(LV, n_top == n + 2 + (re < n), "the aliases are entries");
	for (unsigned i = 0; i < n; i++) CK(LV, d[i] == i % 256, "anchored values are loaded");
	CK(LV, d[n_top - 2] == (k == re ? 222 : k % 256), "an alias gives the latest value with its anchor");
	CK(LV, d[n_top - 1] == (n - 1 == re ? 222 : (n - 1) % 256), "an alias gives the latest value with its anchor");
	use(d);
#elif MODE == 4
	unsigned n = much(D + 1) - 1, odd = vse_choose(3, "strings");
	sc_seq();
	for (unsigned i = 0; i < n; i++) { sc_map(); T("v"); T(num(i)); if (odd == 1 || (odd == 2 && i % 3 == 0)) { T("s"); T(num(i)); } sc_mapend(); }
	sc_seqend(); sc_end();
	CK(LV, load(&d) == CYAML_OK && n_top == n, "a long sequence is loaded");
	for (unsigned i = 0; i < n; i++) { struct node *p = (struct node *)d + i; CK(LV, p->v == (uint8_t)i && p->next == NULL && (p->s != NULL) == (odd == 1 || (odd == 2 && i % 3 == 0)), "entries are loaded in order"); }
	use(d);
#elif MODE == 5
	unsigned what = vse_choose(4, "what"), k = FIELDS > 100 ? much(FIELDS) - 1 : vse_choose(FIELDS, "which"), rot = vse_choose(3, "order"), val = 0;
	for (unsigned i = 0; i < FIELDS; i++) {
		names[i][0] = (char)('A' + i / 10); names[i][1] = (char)('0' + i % 10);
		z_f[i] = (cyaml_schema_field_t){ .key = names[i], .data_offset = i, .value = { .type = CYAML_UINT, .flags = i % 3 == 2 ? O_ : 0, .data_size = 1, .unsigned_integer = { .max = 255, .missing = 99 } } };
	}
	/* what 0: all there  1: field k missing  2: field k twice  3: field k is not a number */
	if (what == 0 && k) vse_end();
	sc_map();
	for (unsigned j = 0; j < FIELDS; j++) {
		unsigned i = rot == 0 ? j : rot == 1 ? FIELDS - 1 - j : (j * 3 + 1) % FIELDS;
		if (what == 1 && i == k) continue;
		T(names[i]); T(what == 3 && i == k ? "x" : num((i + 1) % 251));
		if (what == 2 && i == k) { T(names[i]); T("250"); }
	}
	sc_mapend(); sc_end();
	cyaml_err_t err = load(&d);
	if (what == 3) { CK(LV, err == CYAML_ERR_INVALID_VALUE, "a wrong value is reported"); vse_reach("wrong"); }
	else if (what == 2) { CK(LV, err == CYAML_ERR_UNEXPECTED_EVENT, "a repeated field is refused"); vse_reach("repeated"); }
	else if (what == 1 && k % 3 != 2) { CK(LV, err == CYAML_ERR_MAPPING_FIELD_MISSING, "a missing required field is reported"); vse_reach("missing"); }
	else {
		CK(LV, err == CYAML_OK, "a mapping that has its required fields is loaded");
		for (unsigned i = 0; i < FIELDS; i++) { val = (i + 1) % 251; if (i == k && what == 1) val = 99; CK(LV, d[i] == val, "every field has its own value"); }
		use(d);
	}
#elif MODE == 6
	static const unsigned lens[] = { 1, 2, 15, 16, 17, D - 1, D, D + 1, D + 2 }, huge[][2] = { { 65536, 3 }, { 65537, 65537 }, { D, 65535 }, { D + 1, 1 }, { 1, D + 2 }, { 5, D + 1 } };
	unsigned k_ = D < 65536 ? 0 : vse_choose(ARRLEN(huge), "len"), a = D >= 65536 ? huge[k_][0] : lens[vse_choose(ARRLEN(lens), "len")], b = D >= 65536 ? huge[k_][1] : lens[vse_choose(ARRLEN(lens), "len")];
	sc_map();
	for (unsigned k = 0; k < 2; k++) {
		struct env_ev *e; unsigned n = k ? b : a;
		T(k ? "e" : "s"); e = T("");
		for (unsigned i = 0; i < n; i++) e->txt[i] = (char)('a' + i % 26);
		vse_symbolic(e->txt + n - 1, 1, "last"); vse_assume(e->txt[n - 1] != 0);
		e->txt[n] = 0; e->len = n;
	}
	struct env_ev *ea = &env_script[env_nscript - 3], *eb = &env_script[env_nscript - 1];
	sc_mapend(); sc_end();
	cyaml_err_t err = load(&d);
	if (a > D || b > D + 1) { CK(LV, err == CYAML_ERR_STRING_LENGTH_MAX, "a string that is too long is refused"); vse_reach("toolong"); vse_end(); }
	CK(LV, err == CYAML_OK, "strings that fit are loaded");
	struct z *z = (struct z *)d;
	for (unsigned i = 0; i <= a; i++) CK(LV, z->s[i] == ea->txt[i], "an allocated string is the text");
	for (unsigned i = 0; i <= b; i++) CK(LV, z->e[i] == eb->txt[i], "an embedded string is the text");
	use(d);
#elif MODE == 7
	unsigned k = much(D) - 1, j = much(D) - 1;
	for (unsigned i = 0; i < D; i++) {
		names[i][0] = (char)('A' + i / 10); names[i][1] = (char)('0' + i % 10);
		z_ev[i].str = z_fv[i].str = z_b[i].name = names[i];
		z_ev[i].val = 1000 + i; z_fv[i].val = (int64_t)(1ull << (i + i / 32) % 32); z_b[i].offset = (i + i / 16) % 16 * 2; z_b[i].bits = 2;
	}
	sc_map(); T("e"); T(names[k]); T("f"); sc_seq(); T(names[j]); T(names[k]); sc_seqend(); T("b"); sc_map(); T(names[k]); T("3"); T(names[j]); T("3"); sc_mapend(); sc_mapend(); sc_end();
	CK(LV, load(&d) == CYAML_OK, "every name of a long table is known");
	struct z *z = (struct z *)d;
	CK(LV, z->e == 1000 + k, "every name of a long table gives its own value");
	CK(LV, z->f == (1u << (k + k / 32) % 32 | 1u << (j + j / 32) % 32), "every name of a long table gives its own flag");
	CK(LV, z->b == (3u << (k + k / 16) % 16 * 2 | 3u << (j + j / 16) % 16 * 2), "every name of a long table gives its own bits");
	use(d);
#elif MODE == 14
	static const unsigned n_[] = { 1, 7, 8, 15, 16, 31, 32, 33, 63, 64, 65, 127, 128, 129, 254, 255, 256, 257, D };
	enum { KEY, EN, FL, BI, AN };
	unsigned n = n_[vse_choose(ARRLEN(n_), "length")], what = vse_choose(5, "what"), k = vse_choose(4, "which"); bool ci = what != AN && vse_bool("insensitive"), dup = vse_bool("both");
	const unsigned cat = what == KEY ? C_MAP | C_KEY : what == AN ? C_DOC : C_ENUM;
	if (ci) cfg.flags |= CYAML_CFG_CASE_INSENSITIVE;
	for (unsigned w = 0; w < 4; w++) for (unsigned i = 0; i < 2; i++) { unsigned l = w == what ? n : 1; memset(nm[w][i], 'n', l - 1); nm[w][i][l - 1] = (char)('x' + i); nm[w][i][l] = 0; }
	for (unsigned i = 0; i < 2; i++) { memset(up[i], ci ? 'N' : 'n', n - 1); up[i][n - 1] = (char)((ci ? 'X' : 'x') + i); up[i][n] = 0; }
	for (unsigned i = 0; i < 3; i++) { z_ev[i].str = i < 2 ? nm[1][i] : "none"; z_fv[i].str = i < 2 ? nm[2][i] : "none"; z_b[i].name = i < 2 ? nm[3][i] : "none"; z_ev[i].val = 5 + i; if (i == 2) z_ev[i].val = 0; z_fv[i].val = 1 << i; z_b[i].offset = 2 * i; z_b[i].bits = 2; }
	/* k 0, 1: a name  2: one that is a byte longer  3: one that is a byte shorter */
	static char odd[NL + 1]; memcpy(odd, up[0], n + 1);
	if (k == 2) { odd[n] = 'q'; odd[n + 1] = 0; } else if (k == 3) odd[n - 1] = 0; else memcpy(odd, up[k], n + 1);
	if (k == 3 && n == 1) vse_end();
	sc_map(); T("u"); T("1");
	switch (what) {
	case KEY: if (dup) { long_name(up[k == 1 ? 0 : 1]); T("8"); } long_name(odd); T("9"); break;
	case EN: T("e"); long_name(odd); break;
	case FL: T("f"); sc_seq(); if (dup) long_name(up[k == 1 ? 0 : 1]); long_name(odd); sc_seqend(); break;
	case BI: T("b"); sc_map(); if (dup) { long_name(up[k == 1 ? 0 : 1]); T("2"); } long_name(odd); T("3"); sc_mapend(); break;
	case AN: env_anchor_pad = n;    /* anchors 49 and 50 have the same length or one more, 53 another last byte */
		T("q"); sc_seq(); T("11")->anchor = 49; T("12")->anchor = 50; T("13")->anchor = 48; T("14")->anchor = 53; if (dup) T("15")->anchor = 49; sc_seqend(); T("last"); sc_alias(k == 2 ? 50 : k == 3 ? 57 : 49 + 4 * k); break;
	}
	sc_mapend(); sc_end();
	cyaml_err_t err = load(&d), want = k < 2 || (what == AN && k == 2) ? CYAML_OK : what == KEY ? CYAML_ERR_INVALID_KEY : what == AN ? CYAML_ERR_INVALID_ALIAS : CYAML_ERR_INVALID_VALUE;
	CK(cat, err == want, want == CYAML_OK ? "a long name is known" : "a long name that is not one of them is refused");
	if (err != CYAML_OK) { vse_reach("refused"); vse_end(); }
	struct z *z = (struct z *)d; bool x = k == 0 || dup, y = k == 1 || dup;
	CK(C_MAP, z->u == 1, "other fields are loaded");
	CK(C_MAP | C_KEY, what != KEY || (z->a == (k == 0 ? 9 : dup ? 8 : 0) && z->b == (k == 1 ? 9 : dup ? 8 : 0)), "a value belongs to the key with its name");
	CK(C_ENUM, what != EN || z->e == 5 + k, "a long name gives its value");
	CK(C_ENUM, what != FL || z->f == (x | y << 1), "a long name gives its flag");
	CK(C_ENUM, what != BI || z->bf == ((k == 0 ? 3 : dup ? 2 : 0) | (k == 1 ? 3 : dup ? 2 : 0) << 2), "a long name gives its bits");
	CK(C_DOC, what != AN || (z->q_n == 4 + dup && z->last == (k == 2 ? 12 : k == 1 ? 14 : dup ? 15 : 11)), "a long anchor name gives its own value");
	if (ci) vse_end();
	use(d);
#elif MODE == 15
	static const unsigned n_[] = { 0, 1, 127, 128, 255, 256, 257, D };
	unsigned n = n_[vse_choose(ARRLEN(n_), "length")], what = vse_choose(7, "what"); uint8_t acc = 0;
	for (unsigned i = 0; i < n; i++) { text[i] = (char)('a' + i % 26); }
	for (unsigned i = 0; i < D; i++) { numbers[i] = (uint8_t)(i * 3 ^ i >> 8); texts[i] = malloc(4); strcpy(texts[i], num(i)); }
	z_m.v = 7; z_m.s = text; z_m.q = numbers; z_m.q_n = (uint16_t)(n > 9 ? 9 : n);
	if (what == 4 && n > 9) vse_end();
	if (what == 0) z_f[0].value.string.missing = text;
	if (what == 1) z_f[1].value.string.missing = text;
	if (what == 2) { z_f[2].value.sequence.missing = numbers; z_f[2].value.sequence.missing_count = n; }
	if (what == 3) z_f[3].value.sequence.missing = numbers;
	if (what == 4) z_f[4].value.mapping.missing = &z_m;
	if (what == 5) { z_f[5].value.sequence.missing = texts; z_f[5].value.sequence.missing_count = n; }
	sc_map(); T("last"); T("77"); sc_mapend(); sc_end();
	CK(LV, load(&d) == CYAML_OK, "a mapping without its optional fields is loaded");
	struct z *z = (struct z *)d;
	CK(LV, z->last == 77, "fields that occur are loaded");
	CK(LV, what == 0 ? z->s != NULL && z->s != text && !strcmp(z->s, text) : z->s == NULL, "a long default string is complete");
	CK(LV, what == 1 ? !strcmp(z->e, text) : z->e[0] == 0, "a long default string is complete");
	CK(LV, what == 2 ? z->q_n == n && (z->q != NULL || n == 0) && z->q != numbers : z->q_n == 0 && z->q == NULL, "a long default sequence has all its entries");
	if (what == 2) for (unsigned i = 0; i < n; i++) acc |= z->q[i] ^ numbers[i];
	for (unsigned i = 0; i < D; i++) acc |= z->f[i] ^ (what == 3 ? numbers[i] : 0);
	CK(LV, acc == 0, "every default entry has its value");
	CK(LV, what == 4 ? z->m != NULL && z->m->v == 7 && z->m->s != text && !strcmp(z->m->s, text) && z->m->q_n == n && (n == 0 || z->m->q != numbers) : z->m == NULL, "a default mapping is complete");
	CK(LV, what == 5 ? z->t_n == n && (z->t != NULL || n == 0) && z->t != texts : z->t_n == 0 && z->t == NULL, "a long default sequence has all its entries");
	if (what == 5) for (unsigned i = 0; i < n; i++) CK(LV, z->t[i] != texts[i] && !strcmp(z->t[i], texts[i]), "every default entry has its value");
	for (unsigned i = 0; i < D; i++) free(texts[i]);
	use(d);
#elif MODE == 8
	unsigned np = vse_choose(3, "p"), ne = vse_choose(4, "e"), nm = vse_choose(3, "m"), kind = vse_choose(3, "strings"), c = 0;
#define ENT (sc_map(), T("v"), T(num(++c)), (kind > 0 ? (T("s"), T(num(c))) : NULL), (kind > 1 ? (T("q"), sc_seq(), T(num(c)), T("9"), sc_seqend()) : NULL), sc_mapend())
	sc_map(); T("p"); sc_seq(); for (unsigned i = 0; i < np; i++) ENT; sc_seqend();
	T("e"); sc_seq(); for (unsigned i = 0; i < ne; i++) ENT; sc_seqend();
	T("f"); sc_seq(); ENT; ENT; sc_seqend();
	T("m"); sc_seq(); for (unsigned i = 0; i < nm; i++) { sc_seq(); ENT; ENT; sc_seqend(); } sc_seqend();
	T("last"); T("77"); sc_mapend(); sc_end();
	CK(LV, load(&d) == CYAML_OK, "large entries are loaded");
	struct z *z = (struct z *)d; uint8_t acc = 0;
	CK(LV, z->last == 77 && z->p_n == np && z->e_n == ne && z->m_n == nm, "values far into a structure are loaded");
	c = 0;
	for (unsigned i = 0; i < np + ne + 2 + 2 * nm; i++) {
		struct ent *x = i < np ? z->p + i : i < np + ne ? z->e + (i - np) : i < np + ne + 2 ? z->f + (i - np - ne) : &z->m[0][0] + (i - np - ne - 2);
		c++;
		CK(LV, x->v == c && (kind > 0 ? x->s != NULL && !strcmp(x->s, num(c)) : x->s == NULL) && (kind > 1 ? x->q_n == 2 && x->q[0] == c && x->q[1] == 9 : x->q == NULL && x->q_n == 0), "every entry has its own values");
		for (unsigned b = 0; b < EPAD; b++) acc |= x->pad[b] | x->pad2[b];
	}
	for (unsigned b = 0; b < D; b++) acc |= z->pad[b] | z->pad3[b];
	CK(LV, acc == 0, "nothing else is written");
	use(d);
#elif MODE == 10
	unsigned ng = vse_choose(3, "entries");
	sc_map(); T("g"); sc_seq(); for (unsigned i = 0; i < ng; i++) { sc_seq(); for (unsigned k = 0; k < D; k++) T(num(i + k * 3)); sc_seqend(); } sc_seqend();
	T("p"); sc_seq(); for (unsigned k = 0; k < D; k++) T(num(k)); sc_seqend();
	T("last"); T("77"); sc_mapend(); sc_end();
	CK(LV, load(&d) == CYAML_OK, "long sequences of a fixed length are loaded");
	struct z *z = (struct z *)d; uint8_t acc = 0;
	CK(LV, z->g_n == ng && z->last == 77, "all entries are loaded");
	for (unsigned i = 0; i < 2; i++) for (unsigned k = 0; k < D; k++) acc |= z->g[i][k] ^ (i < ng ? (uint8_t)(i + k * 3) : 0);
	CK(LV, acc == 0, "every entry has its value");
	for (unsigned k = 0; k < D; k++) CK(LV, z->p[k] != NULL && !strcmp(z->p[k], num(k)), "every entry has its value");
	use(d);
#elif MODE == 11 || MODE == 12
	unsigned n = MODE == 11 ? 1 + vse_choose(3, "entries") : 3; uint8_t acc = 0;
	sc_seq(); for (unsigned i = 0; i < n; i++) { sc_seq(); for (unsigned k = 0; k < D; k++) T(num(i + k * 3)); sc_seqend(); } sc_seqend(); sc_end();
	CK(LV, load(&d) == CYAML_OK, "long sequences of a fixed length are loaded");
	for (unsigned i = 0; i < n; i++) for (unsigned k = 0; k < D; k++) acc |= d[i * D + k] ^ (uint8_t)(i + k * 3);
	CK(LV, acc == 0 && (MODE == 12 || n_top == n), "every entry has its value");
	use(d);
#elif MODE == 13
	unsigned n = much(D + 1) - 1; uint8_t acc = 0;
	sc_map(); T("p"); sc_seq()->anchor = name(1); for (unsigned i = 0; i < n; i++) { struct env_ev *e = T(num(i * 3)); if (i == n / 2) e->anchor = name(3); } sc_seqend();
	T("q"); sc_alias(name(1)); T("last"); if (n) sc_alias(name(3)); else T("0"); T("r"); sc_alias(name(1)); sc_mapend(); sc_end();
	CK(LV, load(&d) == CYAML_OK, "a long anchored value is loaded");
	struct z *z = (struct z *)d;
	CK(LV, z->p_n == n && z->q_n == n && z->r_n == n && z->last == (uint8_t)(n / 2 * 3), "an alias gives the whole anchored value");
	for (unsigned i = 0; i < n; i++) acc |= (z->p[i] ^ (uint8_t)(i * 3)) | (z->q[i] ^ (uint8_t)(i * 3)) | (z->r[i] ^ (uint8_t)(i * 3));
	CK(LV, acc == 0, "an alias gives the whole anchored value");
	use(d);
#elif MODE == 9
	static const unsigned n_[] = { 0, 1, 255, 256, 257, 65535, 65536, 65537, D, D + 1 };
	uint8_t *c = NULL; char *out = NULL; size_t len = 0; bool two; int live;
	many = n_[vse_choose(ARRLEN(n_), "entries")]; two = many < 300;
	if (many >= 65535 && many < D && vse_bool("short count")) z_f[0].count_size = 2;
	env_forget = true; env_emit_hook = count_emitted;
	env_next_event = many_events;
	cyaml_err_t err = cyaml_load_data((const uint8_t *)"", 0, &cfg, &zoo_schema, (cyaml_data_t **)&d, NULL);
	vse_observe(err);
	if (many > D || (z_f[0].count_size == 2 && many > 65535)) {
		CK(LV, err == CYAML_ERR_SEQUENCE_ENTRIES_MAX && d == NULL && env_live == 0, "more entries than the limit or the count allow are refused");
		vse_reach("toomany"); vse_end();
	}
	CK(LV, err == CYAML_OK, "a long sequence is loaded");
	struct z *z = (struct z *)d; uint8_t acc = 0;
	CK(LV, z->e_n == many && z->last == 77, "all entries are loaded");
	for (unsigned i = 0; i < D; i++) acc |= z->e[i] ^ (i < many ? at(i) : 0);
	CK(LV, acc == 0, "every entry has its value");
	live = env_live; outs = 0; mix = 0;
	CK(C_SAVE | C_RT, cyaml_save_data(&out, &len, &cfg, &zoo_schema, d, 0) == CYAML_OK, "a long sequence is saved");
	if (out) env_mem(NULL, out, 0);
	CK(C_SAVE | C_RT, outs == many + 3, "every entry is saved");
	{ uint64_t m = 0; m = hash(m, "e"); for (unsigned i = 0; i < many; i++) m = hash(m, num(at(i))); m = hash(m, "last"); m = hash(m, "77"); CK(C_SAVE | C_RT, m == mix, "every entry is saved with its value"); }
	CK(C_COPY, cyaml_copy(&cfg, &zoo_schema, d, 0, (cyaml_data_t **)&c) == CYAML_OK, "a long sequence is copied");
	if ((CATS) & C_COPY) { struct z *y = (struct z *)c; acc = 0; for (unsigned i = 0; i < D; i++) acc |= z->e[i] ^ y->e[i]; CK(C_COPY, acc == 0 && y->e_n == many && y->last == 77, "every entry is copied"); }
	CK(C_FREE, cyaml_free(&cfg, &zoo_schema, c, 0) == CYAML_OK && cyaml_free(&cfg, &zoo_schema, d, 0) == CYAML_OK && env_live == 0, "everything is freed");
	/* as many allocated entries */
	if (two) {
		char **v = env_mem(NULL, NULL, (many + 1) * sizeof *v), **w = NULL;
		for (unsigned i = 0; i < many; i++) { v[i] = env_mem(NULL, NULL, 4); strcpy(v[i], num(i)); }
		live = env_live; outs = 0; mix = 0; out = NULL;
		CK(C_SAVE | C_RT, !many || cyaml_save_data(&out, &len, &cfg, &s_schema, v, many) == CYAML_OK, "a long sequence is saved");
		if (out) env_mem(NULL, out, 0);
		uint64_t m = 0; for (unsigned i = 0; i < many; i++) m = hash(m, num(i)); CK(C_SAVE | C_RT, m == mix, "every entry is saved with its value");
		if (many) {
			CK(C_COPY, cyaml_copy(&cfg, &s_schema, v, many, (cyaml_data_t **)&w) == CYAML_OK, "a long sequence is copied");
			CK(C_COPY, env_live == live + (int)many + 1, "every entry is copied");
			for (unsigned i = 0; i < many; i++) CK(C_COPY, w[i] != v[i] && !strcmp(w[i], num(i)), "every entry is copied with its value");
			CK(C_FREE, cyaml_free(&cfg, &s_schema, w, many) == CYAML_OK && env_live == live, "every entry is freed");
		}
		CK(C_FREE, cyaml_free(&cfg, &s_schema, v, many) == CYAML_OK && env_live == 0, "every entry is freed");
	}
	vse_reach("used");
#endif
	return 0;
}
