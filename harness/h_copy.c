/* Copying any client data of a zoo schema, optionally with an allocation failure.
 * NP 1: the schema's top level is not a pointer (copies into a caller's buffer) */
#include "zoo.h"
#include "gen.h"
#include "ref.h"
#ifndef FAULT
#define FAULT 0
#endif
#ifndef NP
#define NP 0
#endif
/* expected outcome of copying */
static cyaml_err_t rc_value(const cyaml_schema_value_t *s, const uint8_t *p, uint64_t n, bool in_seq)
{
	if (s->type > CYAML_BITFIELD && s->type != CYAML_SEQUENCE && s->type != CYAML_SEQUENCE_FIXED && s->type != CYAML_MAPPING && s->type != CYAML_STRING) return CYAML_ERR_BAD_TYPE_IN_SCHEMA;
	if (s->type == CYAML_SEQUENCE && in_seq) return CYAML_ERR_SEQUENCE_IN_SEQUENCE;
	if (s->type == CYAML_SEQUENCE_FIXED && s->sequence.min != s->sequence.max) return CYAML_ERR_SEQUENCE_FIXED_COUNT;
	if (s->flags & CYAML_FLAG_POINTER) {
		p = *(uint8_t *const *)p;
		if (p == NULL) {
			if ((s->type == CYAML_SEQUENCE && n == 0) || has(s, CYAML_FLAG_POINTER_NULL)) return CYAML_OK;
			return CYAML_ERR_BAD_PARAM_NULL_DATA;
		}
	}
	switch (s->type) {
	case CYAML_MAPPING:
		for (const cyaml_schema_field_t *f = s->mapping.fields; f->key; f++) {
			uint64_t c = 0; cyaml_err_t e;
			if (f->value.type == CYAML_IGNORE) continue;
			if (f->value.type == CYAML_SEQUENCE) {
				if (f->count_size < 1 || f->count_size > 8) return CYAML_ERR_INVALID_DATA_SIZE;
				c = rd(p + f->data_offset - f->data_offset + f->count_offset, f->count_size);
			}
			if ((f->value.flags & CYAML_FLAG_OPTIONAL) && (f->value.flags & CYAML_FLAG_POINTER) && *(void *const *)(p + f->data_offset) == NULL && (f->value.type != CYAML_SEQUENCE_FIXED || f->value.sequence.min == f->value.sequence.max)) continue;
			e = rc_value(&f->value, p + f->data_offset, c, false);
			if (e == CYAML_ERR_BAD_PARAM_NULL_DATA && (f->value.flags & CYAML_FLAG_POINTER) && *(void *const *)(p + f->data_offset) == NULL) e = CYAML_ERR_MAPPING_FIELD_MISSING;
			TRY(e);
		}
		return CYAML_OK;
	case CYAML_SEQUENCE_FIXED: n = s->sequence.max; /* fall through */
	case CYAML_SEQUENCE:
		for (uint64_t i = 0; i < n; i++) {
			cyaml_err_t e = rc_value(s->sequence.entry, p + i * stride(s), 0, true);
			TRY(e);
		}
		return CYAML_OK;
	default: return CYAML_OK;
	}
}
static unsigned gen_calls; static size_t gen_total;
int harness_main(void)
{
	cyaml_config_t cfg = env_config(0);
	cyaml_schema_value_t sch = zoo_schema;
	cyaml_err_t err, want;
	unsigned n = 0, cnt;
	uint8_t *data, *out = NULL, *top;
	int live;
	bool seq = is_seq(&zoo_schema);

	if (NP) sch.flags &= ~(unsigned)(CYAML_FLAG_POINTER_NULL_STR);
	data = gen_top(&sch, &n);
	live = env_live;
	cnt = seq ? n : 0;
	if (seq && n == 0) vse_end();
	if (NP) {
		static uint8_t junk = 0xa5;
		size_t sz = sch.type == CYAML_SEQUENCE ? stride(&sch) * n : sch.type == CYAML_SEQUENCE_FIXED ? stride(&sch) * sch.sequence.max : sch.data_size;
		out = malloc(sz);
		memset(out, junk, sz);
	}
	top = out;
	gen_calls = env_mem_calls; gen_total = env_alloc_total;
	if (FAULT) env_may_oom = env_may_oom_repeat = true;
	err = cyaml_copy(&cfg, &sch, data, cnt, (cyaml_data_t **)&out);
#ifdef LOG
	{   /* the same copy without logging */
		uint8_t *out2 = NULL; cyaml_err_t err2; unsigned calls = env_mem_calls; size_t total = env_alloc_total;
		cyaml_config_t c2 = cfg;
		c2.log_fn = NULL; c2.log_ctx = NULL; c2.log_level = CYAML_LOG_ERROR;
		env_again(false);
		err2 = cyaml_copy(&c2, &sch, data, cnt, (cyaml_data_t **)&out2);
		vse_check(err == err2 && (out == NULL) == (out2 == NULL), "logging does not change the result");
		vse_check(calls - gen_calls == env_mem_calls && total - gen_total == env_alloc_total, "logging does not change the allocations");
		if (err == CYAML_OK) same_value(C_ALL, &sch, (uint8_t *)&out, (uint8_t *)&out2, n, true);
		vse_reach(env_faults ? "oom" : "copied");
		vse_end();
	}
#endif
	env_may_oom = env_may_oom_repeat = false;
	vse_observe(err);
	gen_check_unmodified("copying does not modify the source");
	want = !((CATS) & (C_COPY | C_CFAIL)) ? err : NP ? rc_value(&sch, data, n, false) : rc_value(&sch, (uint8_t *)&data, n, false);
	if (env_oom_hit) { CK(C_CFAIL, err == CYAML_ERR_OOM, "an allocation failure is reported as out of memory"); vse_reach("oom"); }
	else CK((want == CYAML_OK ? C_COPY : C_CFAIL), err == want, want == CYAML_OK ? "data that fits the schema can be copied" : "the documented error is reported");
	if (err != CYAML_OK) {
		CK(C_CFAIL, out == top, "a failed copy does not touch the caller's pointer");
		CK(C_CFAIL, env_live == live, "a failed copy leaks nothing");
		vse_reach("rejected");
	} else {
		if (NP) { CK(C_COPY, out == top, "the caller's buffer is used"); same_value(C_COPY, &sch, data, out, n, true); }
		else same_value(C_COPY, &sch, (uint8_t *)&data, (uint8_t *)&out, n, true);
		if (env_live > live) vse_reach("copied"); else vse_reach("flat");
		CK(C_FREE | C_COPY, cyaml_free(&cfg, &sch, out, cnt) == CYAML_OK, "the copy can be freed");
		CK(C_FREE | C_COPY, env_live == live, "freeing the copy releases exactly the copy");
	}
	gen_check_unmodified("freeing the copy leaves the source alone");
	if (NP) { for (unsigned i = 0; i < gen_nblk; i++) if (gen_blk[i].p == data) live--; cyaml_free(&cfg, &sch, data, cnt); if (data) { env_mem(NULL, data, 0); } }
	else cyaml_free(&cfg, &sch, data, cnt);
	CK(C_FREE | C_COPY, env_live == 0, "the source can still be freed completely");
	if (gen_entries > 1) vse_reach("entries");
	return 0;
}
