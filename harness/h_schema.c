/* Schemas the library cannot honour.  OP 0 load 1 save 2 copy 3 load without the field
 * KIND 0 data size of a number   1 unknown type   3 fixed sequence with unequal limits
 *      4 counted sequence in a sequence   5 bit fields outside their value
 * PLACE 0 field of a mapping   1 entry of a sequence   2 the document itself
 * FAULT 1: one failure anywhere */
#include "zooapi.h"
#include "gen.h"
#ifndef OP
#define OP 0
#endif
#ifndef KIND
#define KIND 0
#endif
#ifndef PLACE
#define PLACE 0
#endif
#ifndef FAULT
#define FAULT 0
#endif
struct h { char *p; uint8_t count[8]; uint8_t v[32]; uint8_t g[8]; };
static cyaml_schema_field_t fld[3];
static cyaml_schema_value_t top, *v, ent = { CYAML_VALUE_UINT(CYAML_FLAG_DEFAULT, uint8_t) }, inner, seqv;
static cyaml_strval_t names[1] = { { "a", 1 } };
static cyaml_bitdef_t bits[2] = { { "b", 0, 4 }, { "c", 4, 4 } };
static uint8_t deflt[2] = { 5, 6 };
static bool ptr;
static unsigned pick;           /* the bit field the document names */
static uint64_t bitnum;
static bool may_default;

static void content(void)
{
	switch (v->type) {
	case CYAML_INT: case CYAML_UINT: case CYAML_FLOAT: sc_scalar("1"); break;
	case CYAML_BOOL: sc_scalar("true"); break;
	case CYAML_ENUM: sc_scalar("a"); break;
	case CYAML_FLAGS: sc_seq(); sc_scalar("a"); sc_seqend(); break;
	case CYAML_BITFIELD: sc_map(); sc_scalar(pick ? "c" : "b"); sc_scalar("1"); sc_mapend(); break;
	case CYAML_SEQUENCE: case CYAML_SEQUENCE_FIXED:
		sc_seq();
		if (KIND == 4) { sc_seq(); sc_scalar("1"); sc_seqend(); } else { sc_scalar("1"); sc_scalar("2"); }
		sc_seqend(); break;
	default:
		switch (vse_choose(3, "content")) {
		case 0: sc_scalar("1"); break;
		case 1: sc_seq(); sc_scalar("1"); sc_seqend(); break;
		case 2: sc_map(); sc_scalar("1"); sc_scalar("1"); sc_mapend(); break;
		}
	}
}
/* the error the schema deserves */
static cyaml_err_t verdict(void)
{
	switch (KIND) {
	case 0:
		if (OP == 2) return CYAML_OK;     /* bytes are copied, whatever they are */
		if (v->type == CYAML_FLOAT) return v->data_size == 4 || v->data_size == 8 ? CYAML_OK : CYAML_ERR_INVALID_DATA_SIZE;
		return v->data_size == 0 || v->data_size > 8 ? CYAML_ERR_INVALID_DATA_SIZE : CYAML_OK;
	case 1: return CYAML_ERR_BAD_TYPE_IN_SCHEMA;
	case 3: return v->sequence.min != v->sequence.max ? CYAML_ERR_SEQUENCE_FIXED_COUNT : CYAML_OK;
	case 4: return CYAML_ERR_SEQUENCE_IN_SEQUENCE;
	default: {
		bool bad[2];
		for (unsigned i = 0; i < 2; i++) bad[i] = bits[i].bits == 0 || (unsigned)bits[i].bits + bits[i].offset > 8 * v->data_size;
		if (OP == 1) return bad[0] || bad[1] ? CYAML_ERR_BAD_BITVAL_IN_SCHEMA : CYAML_OK;
		if (OP != 0) return CYAML_OK;
		/* definitions after the one that is named need not be looked at */
		return bad[0] || (pick && bad[1]) ? CYAML_ERR_BAD_BITVAL_IN_SCHEMA : CYAML_OK;
	}
	}
}
int harness_main(void)
{
	cyaml_config_t cfg = env_config(0);
	static uint8_t sentinel;
	uint8_t *d = &sentinel;
	cyaml_err_t err, want;
	unsigned n = 77;
	int live;
	bool may = false;

	v = PLACE == 0 ? &fld[1].value : PLACE == 1 ? &ent : &top;
	memset(v, 0, sizeof *v);
	ptr = PLACE == 2 || (OP != 3 && vse_bool("pointer"));
	v->flags = ptr ? CYAML_FLAG_POINTER : CYAML_FLAG_DEFAULT;
	if (OP == 3) v->flags |= CYAML_FLAG_OPTIONAL;
	v->data_size = 4;
	switch (KIND) {
	case 0: {
		static const cyaml_type_e t[] = { CYAML_INT, CYAML_UINT, CYAML_BOOL, CYAML_ENUM, CYAML_FLAGS, CYAML_BITFIELD, CYAML_FLOAT };
		v->type = t[vse_choose(ARRLEN(t), "type")];
		v->data_size = vse_u32("size");
		/* something is allocated: not nothing, and not gigabytes */
		if (ptr || PLACE == 1 || OP == 2) vse_assume(v->data_size > 0 && v->data_size <= 12);
		if (v->type == CYAML_ENUM || v->type == CYAML_FLAGS) { v->enumeration.strings = names; v->enumeration.count = 1; }
		if (OP == 3 && vse_bool("default")) {
			may_default = true;
			switch (v->type) {
			case CYAML_INT: v->integer.missing = -3; break;
			case CYAML_UINT: v->unsigned_integer.missing = 3; break;
			case CYAML_BOOL: v->boolean.missing = true; break;
			case CYAML_FLOAT: v->floating_point.missing = 2; break;
			case CYAML_BITFIELD: v->bitfield.missing = 3; break;
			default: v->enumeration.missing = 1; break;
			}
		}
		if (v->type == CYAML_BITFIELD) { v->bitfield.bitdefs = bits; v->bitfield.count = 1; }
		break;
	}
	case 1: { uint32_t t = vse_u32("type"); vse_assume(t >= CYAML__TYPE_COUNT); v->type = (cyaml_type_e)t; break; }
	case 3:
		v->type = CYAML_SEQUENCE_FIXED; v->data_size = 1;
		inner = (cyaml_schema_value_t){ CYAML_VALUE_UINT(CYAML_FLAG_DEFAULT, uint8_t) };
		v->sequence.entry = &inner;
		v->sequence.min = vse_u32("min"); v->sequence.max = vse_u32("max");
		vse_assume(v->sequence.min != v->sequence.max || v->sequence.max == 2);
		vse_assume(v->sequence.max <= 4);       /* there is room for max entries */
		if (ptr || PLACE == 1 || OP == 3) vse_assume(v->sequence.max > 0);
		if (OP == 3 && vse_bool("default")) v->sequence.missing = deflt;
		break;
	case 4:
		v->type = vse_bool("fixed") ? CYAML_SEQUENCE_FIXED : CYAML_SEQUENCE;
		if (PLACE == 1) v->type = CYAML_SEQUENCE_FIXED;
		inner = (cyaml_schema_value_t){ CYAML_VALUE_UINT(CYAML_FLAG_DEFAULT, uint8_t) };
		seqv.type = CYAML_SEQUENCE; seqv.data_size = 1; seqv.sequence.entry = &inner; seqv.sequence.max = 3;
		seqv.flags = vse_bool("inner pointer") ? CYAML_FLAG_POINTER : CYAML_FLAG_DEFAULT;
		v->sequence.entry = &seqv;
		v->data_size = seqv.flags ? sizeof(void *) : 1;
		v->sequence.min = v->type == CYAML_SEQUENCE ? 0 : 1; v->sequence.max = 1;
		break;
	case 5:
		v->type = CYAML_BITFIELD; v->data_size = 1 + vse_choose(8, "size");
		for (unsigned i = 0; i < 2; i++) { bits[i].offset = vse_u8("offset"); bits[i].bits = vse_u8("bits"); }
		v->bitfield.bitdefs = bits; v->bitfield.count = 2;
		pick = vse_bool("which");
		break;
	}
	fld[0] = (cyaml_schema_field_t){ .key = "p", .value = { .type = CYAML_STRING, .flags = CYAML_FLAG_POINTER, .string = { .max = 5 } } };
	fld[1].key = "v"; fld[1].data_offset = offsetof(struct h, v); fld[1].count_offset = offsetof(struct h, count); fld[1].count_size = 8;
	if (PLACE == 0) { top.type = CYAML_MAPPING; top.flags = CYAML_FLAG_POINTER; top.data_size = sizeof(struct h); top.mapping.fields = fld; }
	if (PLACE == 1) {
		top.type = CYAML_SEQUENCE; top.flags = CYAML_FLAG_POINTER; top.sequence.entry = &ent; top.sequence.max = 5;
		top.data_size = ptr ? sizeof(void *) : KIND == 3 || KIND == 4 ? v->data_size * v->sequence.max : v->data_size;
	}
	want = verdict();
	bool counted = top.type == CYAML_SEQUENCE;
#if OP == 0 || OP == 3
	sc_start();
	if (PLACE == 0) { sc_map(); sc_scalar("p"); sc_scalar("x"); }
	if (PLACE == 1) sc_seq();
	if (OP == 0) { if (PLACE == 0) sc_scalar("v"); content(); }
	if (PLACE == 0) sc_mapend();
	if (PLACE == 1) sc_seqend();
	sc_end();
	env_next_event = env_script_event;
	if (FAULT) env_may_oom = env_may_oom_repeat = env_parse_may_fail = env_init_may_fail = true;
	if (OP == 3) may = (KIND == 3 && v->sequence.missing == NULL) || (KIND == 0 && !may_default) || KIND == 4; /* nothing to do for a missing value */
	live = env_live;
	err = cyaml_load_data((const uint8_t *)"?", 1, &cfg, &top, (cyaml_data_t **)&d, counted ? &n : NULL);
	vse_observe(err);
	if (env_faults) { vse_check(err != CYAML_OK, "a failure is reported"); vse_reach("fault"); }
	else if (may) vse_check(err == CYAML_OK, "a value that is missing and has no default needs nothing");
	else vse_check(err == want, want ? "the bad schema is reported with its own error" : "a good schema is accepted");
	if (err != CYAML_OK) {
		vse_check(d == &sentinel && n == 77, "a failed load leaves the client's variables alone");
		vse_check(env_live == live, "nothing is leaked");
		vse_reach("refused");
	} else {
		if (OP == 0) {
			uint8_t *x = PLACE == 0 ? ((struct h *)d)->v : d;
			if (ptr && PLACE != 2) memcpy(&x, x, sizeof x);
			unsigned sz = KIND == 3 ? 2 : v->data_size;
			uint8_t exp[8] = { 1 };
			if (KIND == 3) exp[1] = 2;
			if (v->type == CYAML_FLOAT) { float f = 1; double g = 1; if (sz == 4) memcpy(exp, &f, 4); else memcpy(exp, &g, 8); }
			if (KIND == 5) { uint64_t b = 1ull << (bits[pick].offset & 63); memcpy(exp, &b, 8); }
			vse_check(sz <= 8 && !memcmp(x, exp, sz), "the value is stored");
			if (PLACE == 0 && !ptr) for (unsigned i = sz; i < 32 + 8; i++) vse_check(((struct h *)d)->v[i] == 0, "nothing else is written");
		}
		cyaml_free(&cfg, &top, d, counted ? n : 0);
		vse_check(env_live == live, "everything loaded is freed");
		vse_reach("accepted");
	}
#else
	/* client data */
	uint8_t *x, *data = NULL; unsigned c = counted ? 1 : 0;
	size_t sz = KIND == 3 ? 4 : KIND == 4 ? 8 : KIND == 0 && PLACE != 0 ? v->data_size : 16;
	if (PLACE == 0) {
		data = gen_alloc(sizeof(struct h)); x = ((struct h *)data)->v; ((struct h *)data)->p = (char *)gen_alloc(2); ((struct h *)data)->p[0] = 'x';
		((struct h *)data)->count[0] = 1;
		if (ptr) { uint8_t *q = gen_alloc(16); memcpy(x, &q, sizeof q); x = q; }
	} else if (PLACE == 1) {
		
		if (ptr) { uint8_t *q = gen_alloc(16); data = gen_alloc(sizeof q); memcpy(data, &q, sizeof q); x = q; }
		else x = data = gen_alloc(sz);
	} else x = data = gen_alloc(sz);
	if (KIND == 3) { x[0] = 1; x[1] = 2; }
	vse_check(sz <= 32, "harness: room for the value");
	if (KIND == 4 && seqv.flags) { uint8_t *q = gen_alloc(1); memcpy(x, &q, sizeof q); }
	if (KIND == 5) { bitnum = vse_bool("number") ? ~0ull : 0; memcpy(x, &bitnum, 8); }
	gen_snapshot();
	if (FAULT) env_may_oom = env_may_oom_repeat = env_init_may_fail = env_emit_may_fail = true;
	live = env_live;
#if OP == 1
	char *out = (char *)&sentinel; size_t len = 99;
	env_chunks = KIND == 1;
	err = cyaml_save_data(&out, &len, &cfg, &top, data, c);
	vse_observe(err);
	if (err != CYAML_OK) vse_check(out == (char *)&sentinel && len == 99, "a failed save leaves the client's variables alone");
	else { env_may_oom = false; cfg.mem_fn(cfg.mem_ctx, out, 0); }
#else
	(void)d;
	cyaml_data_t *cp = NULL;
	err = cyaml_copy(&cfg, &top, data, PLACE == 2 && top.type == CYAML_SEQUENCE_FIXED ? 2 : c, &cp);
	vse_observe(err);
	if (err != CYAML_OK) vse_check(cp == NULL, "a failed copy leaves the client's variables alone");
	else { env_may_oom = false; cyaml_free(&cfg, &top, cp, c); }
#endif
	if (env_faults) { vse_check(err != CYAML_OK, "a failure is reported"); vse_reach("fault"); }
	else vse_check(err == want, want ? "the bad schema is reported with its own error" : "a good schema is accepted");
	vse_check(env_live == live, "nothing is leaked");
	gen_check_unmodified("the client's data is not modified");
	if (err != CYAML_OK) vse_reach("refused"); else vse_reach("accepted");
#endif
	env_check_no_libyaml("everything the library opened is released");
	return 0;
}
