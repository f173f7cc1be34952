/* Sequence counts: any limits, any size of the count member, entry counts up
 * to and beyond what the count member can hold.
 *
 * OP 0 load   1 save   2 copy   3 load, top level
 * ENTS  number of entries tried (0..ENTS-1), or
 * BIG   1: 253..257 entries   CSIZES  sizes of the count member (0..CSIZES-1)
 * KIND  0 allocated, scalar entries  1 embedded array  2 fixed, allocated
 *       3 allocated, string entries  4 fixed, embedded  5 allocated, nullable */
#define RX_MAX 300
#include "zooapi.h"
#include "gen.h"
#include "ref.h"
#include "refsave.h"
#ifndef OP
#define OP 0
#endif
#ifndef ENTS
#define ENTS 5
#endif
#ifndef BIG
#define BIG 0
#endif
#ifndef CSIZES
#define CSIZES 10
#endif
#ifndef KIND
#define KIND 0
#endif
#ifndef FAULT
#define FAULT 0
#endif
#if KIND == 3
typedef char *ent;
#else
typedef uint16_t ent;
#endif
#define CAP 3
#define GUARD "72340172838076673" /* 0x0101010101010101 */
struct holder { uint8_t g0[4]; ent *p; ent e[CAP]; uint8_t g1[8]; uint8_t count[8]; uint8_t g2[16]; };
static cyaml_schema_value_t entry, top, tops;
static cyaml_schema_field_t fld[4];
static int vctx;

int harness_main(void)
{
	cyaml_config_t cfg = env_config(0);
	cyaml_schema_value_t *s = OP == 3 ? &tops : &fld[0].value;
	bool fixed = KIND == 2 || KIND == 4, ptr = !(KIND == 1 || KIND == 4);
	unsigned n, cs = 4, count = 0;
	cyaml_err_t err, want;
	uint8_t *d = NULL;

	cfg.validation_ctx = &vctx;
	if (!fixed && OP != 3) { cs = vse_choose(CSIZES, "count-size"); }
	s->type = fixed ? CYAML_SEQUENCE_FIXED : CYAML_SEQUENCE;
	s->flags = ptr ? (KIND == 5 ? CYAML_FLAG_POINTER_NULL_STR : CYAML_FLAG_POINTER) : 0;
	s->data_size = sizeof(ent);
	s->sequence.entry = &entry;
	if (BIG) { n = 253 + vse_choose(5, "entries"); s->sequence.min = 0; s->sequence.max = CYAML_UNLIMITED; }
	else {
		n = vse_choose(ENTS, "entries");
		s->sequence.min = vse_u32("min"); s->sequence.max = vse_u32("max");
		if (!ptr) vse_assume(s->sequence.max <= CAP);
		if (fixed && OP) { vse_assume(s->sequence.max == s->sequence.min); }
	}
	if (KIND == 2) vse_assume(s->sequence.max <= 6);
	if (vse_bool("cb")) { cb_symbolic = true; s->sequence.validation_cb = cb_seq; }
#if KIND == 3
	entry.type = CYAML_STRING; entry.flags = CYAML_FLAG_POINTER; entry.data_size = 1; entry.string.max = 4;
#else
	entry.type = CYAML_UINT; entry.data_size = sizeof(ent);
#endif
	fld[0].key = "q"; fld[0].data_offset = ptr ? offsetof(struct holder, p) : offsetof(struct holder, e);
	fld[0].count_offset = offsetof(struct holder, count); fld[0].count_size = (uint8_t)cs;
#if OP == 0
	/* numbers right before and after the count member, loaded before it */
	for (int i = 1; i < 3; i++) { fld[i].key = i == 1 ? "f" : "g"; fld[i].value.type = CYAML_UINT; fld[i].value.data_size = 8; }
	fld[1].data_offset = offsetof(struct holder, g1); fld[2].data_offset = offsetof(struct holder, count) + (fixed ? 0 : cs);
#endif
	top.type = CYAML_MAPPING; top.flags = CYAML_FLAG_POINTER; top.data_size = sizeof(struct holder); top.mapping.fields = fld;

#if OP == 0 || OP == 3
	const cyaml_schema_value_t *sch = OP == 3 ? &tops : &top;
	sc_start();
	if (OP != 3) { sc_map(); sc_scalar("f"); sc_scalar(GUARD); sc_scalar("g"); sc_scalar(GUARD); sc_scalar("q"); }
	sc_seq();
	for (unsigned i = 0; i < n; i++) sc_scalar(KIND == 3 ? "s" : i & 1 ? "12" : "300");
	sc_seqend();
	if (OP != 3) sc_mapend();
	sc_end();
	env_next_event = env_script_event;
	if (FAULT) env_may_oom = env_may_oom_repeat = env_parse_may_fail = true;
	err = cyaml_load_data((const uint8_t *)"", 0, &cfg, sch, (cyaml_data_t **)&d, OP == 3 ? &count : NULL);
	vse_observe(err);
	if (err == CYAML_OK && OP != 3) {
		struct holder *h = (struct holder *)d;
		uint8_t acc = 0;
		for (unsigned i = 0; i < 4; i++) acc |= h->g0[i];
		for (unsigned i = 0; i < 8; i++) acc |= h->g1[i] ^ 1;
		for (unsigned i = fixed ? 0 : cs; i < 24; i++) acc |= h->count[i] ^ (i < 8 + (fixed ? 0 : cs));
		CK(C_SEQ, acc == 0, "nothing is written outside the sequence and its count");
	}
	if (env_oom_hit) CK(C_LFAIL, err == CYAML_ERR_OOM, "an allocation failure is reported as out of memory");
	else {
		uint64_t rn = 0;
		want = ref_load(&cfg, sch, err, &d, &rn);
		if (err == CYAML_OK) CK(ref_cat, want == CYAML_OK, "the loader rejects what the schema does not allow");
		else if (want == CYAML_OK) CK(CATS, false, "a sequence that fits the schema is accepted");
		else CK(ref_cat, err == want, "the documented error is reported");
		if (err == CYAML_OK && OP == 3) CK(C_SEQ, count == n, "the top level count is the number of entries");
	}
	if (err == CYAML_OK) {
		cyaml_free(&cfg, sch, d, count);
		vse_reach("stored");
	} else { CK(C_LFAIL, d == NULL && count == 0, "a failed load returns nothing"); vse_reach("rejected"); }
	CK(C_LFAIL | C_FREE, env_live == 0, "nothing is leaked");
#else
	/* data with a count member of any size */
	struct holder *h;
	ent *e = NULL;
	int live;
	if (cs < 1) vse_end();
	h = (struct holder *)gen_alloc(sizeof *h);
	if (fixed) { n = vse_choose(CAP, "fixed") + 1; s->sequence.min = s->sequence.max = n; }
	if (!ptr) { if (n > CAP) vse_end(); e = h->e; }
	else if (n) { e = (ent *)gen_alloc(n * sizeof(ent)); h->p = e; }
	for (unsigned i = 0; i < n; i++) {
#if KIND == 3
		e[i] = (char *)gen_alloc(2); e[i][0] = 'a' + i;
#else
		vse_symbolic(&e[i], sizeof(ent), "entry");
		vse_assume(e[i] < 10);
#endif
	}
	{ uint64_t v = n; if (!fixed) memcpy(h->count, &v, cs < 8 ? cs : 8); }
	gen_snapshot();
	live = env_live;
	if (FAULT) env_may_oom = env_may_oom_repeat = true;
#if OP == 1
	char *out = NULL; size_t len = 0;
	if (FAULT) env_emit_may_fail = true;
	err = cyaml_save_data(&out, &len, &cfg, &top, h, 0);
	vse_observe(err); vse_observe(env_nout);
	want = ref_save(&cfg, &top, (uint8_t *)h, 0, err == CYAML_OK);
	if (env_faults) CK(C_SFAIL, err != CYAML_OK, "a failing save reports an error");
	else CK(C_SAVE, err == want, want == CYAML_OK ? "data that fits the schema is saved" : "the documented error is reported");
	if (err == CYAML_OK) vse_reach("saved"); else vse_reach("rejected");
#else
	err = cyaml_copy(&cfg, &top, h, 0, (cyaml_data_t **)&d);
	vse_observe(err);
	if (env_oom_hit) { CK(C_CFAIL, err == CYAML_ERR_OOM && d == NULL, "an allocation failure is reported and nothing is returned"); vse_reach("rejected"); }
	else if (cs > 8) { CK(C_COPY, err != CYAML_OK, "a count member of an impossible size is an error"); vse_reach("rejected"); }
	else {
		struct holder *c = (struct holder *)d;
		CK(C_COPY, err == CYAML_OK, "valid data can be copied");
		CK(C_COPY, !memcmp(c->count, h->count, 8), "the count is copied");
		CK(C_COPY, !ptr || (c->p == NULL) == (n == 0), "entries are copied");
		CK(C_COPY, !ptr || n == 0 || c->p != h->p, "the copy has its own entries");
		for (unsigned i = 0; i < n; i++) {
			ent *x = ptr ? c->p : c->e;
#if KIND == 3
			CK(C_COPY, x[i] != e[i] && x[i][0] == e[i][0] && x[i][1] == 0, "every entry is copied");
#else
			CK(C_COPY, x[i] == e[i], "every entry is copied");
#endif
		}
		env_may_oom = false;
		cyaml_free(&cfg, &top, d, 0);
		vse_reach("saved");
	}
#endif
	CK(C_SFAIL | C_CFAIL | C_SAVE | C_COPY, env_live == live, "nothing is leaked");
	gen_check_unmodified("the client's data is not modified");
	env_may_oom = false;
	if (cs <= 8) { cyaml_free(&cfg, &top, h, 0); CK(C_FREE, env_live == 0, "cyaml_free releases all entries"); }
#endif
	return 0;
}
