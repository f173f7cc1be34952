/* Symbolic client data for a schema: shape (NULLs, counts, lengths) is chosen,
 * content is symbolic.  Blocks have exact sizes and a shadow copy. */
#ifndef GEN_H
#define GEN_H
#include "zooapi.h"
#ifndef GLEN
#define GLEN 2          /* longest string */
#endif
#ifndef GSEQ
#define GSEQ 2          /* longest counted sequence */
#endif
#ifndef GDEPTH
#define GDEPTH 3        /* nesting of allocated mappings */
#endif
#ifndef GRT
#define GRT 0           /* 1: only data whose YAML text is unambiguous (round trips) */
#endif
#ifndef GNULL
#define GNULL 0         /* 1: also NULL where the schema does not allow it */
#endif
#ifndef GHIGH
#define GHIGH 1         /* strings may hold bytes above 127 */
#endif

#ifndef GHOT
#define GHOT 0          /* n: only one of the first n numbers takes all values, the others are 0..3 */
#endif
#define GEN_BLK 24
static struct { uint8_t *p; size_t n; uint8_t *shadow; } gen_blk[GEN_BLK];
static unsigned gen_nblk;
static unsigned gen_strs, gen_entries, gen_leaf, gen_hot;
static const cyaml_config_t *gen_cfg;

static uint8_t *gen_alloc(size_t n)
{
	bool a = env_may_oom; uint8_t *p;
	env_may_oom = false;
	p = env_mem(NULL, NULL, n);
	env_may_oom = a;
	memset(p, 0, n);
	if (gen_nblk >= GEN_BLK) vse_fail("harness: too many blocks");
	gen_blk[gen_nblk].p = p; gen_blk[gen_nblk++].n = n;
	return p;
}
static void gen_snapshot(void)
{
	for (unsigned i = 0; i < gen_nblk; i++) {
		gen_blk[i].shadow = malloc(gen_blk[i].n);
		memcpy(gen_blk[i].shadow, gen_blk[i].p, gen_blk[i].n);
	}
}
static void gen_check_unmodified(const char *msg)
{
	for (unsigned i = 0; i < gen_nblk; i++) {
		uint8_t acc = 0;
		for (size_t k = 0; k < gen_blk[i].n; k++) acc |= gen_blk[i].p[k] ^ gen_blk[i].shadow[k];
		CK(C_SAVE | C_COPY, acc == 0, msg);
	}
}
static const double gen_doubles[] = { 0.0, -0.0, 1.5, -2.25, 3.0e200, -1e-300, 0.1, 4294967296.0, 1.0 / 3, 9007199254740993.0, 2.2250738585072014e-308, 1.7976931348623157e308, 123456789.123456789, 0.30000000000000004, __builtin_inf(), -__builtin_inf() };
static const double gen_floats[] = { 0.0, 1.5, -2.25, 1e20, 7.0, 0.1, -1.0 / 3, 123456789.0, 16777217.0, 3.0e38, 1.1754944e-38, 8388609.5, 108.0587158203125, 4745795.0, __builtin_inf(), -__builtin_inf() };

#ifndef GPLAIN
#define GPLAIN 0        /* empty sequences only as loaded */
#endif

static uint64_t gen_value(const cyaml_schema_value_t *s, uint8_t *slot, bool optional, unsigned depth);
static void gen_map(const cyaml_schema_value_t *s, uint8_t *m, unsigned depth)
{
	for (const cyaml_schema_field_t *f = s->mapping.fields; f->key; f++) {
		uint64_t n;
		if (f->value.type == CYAML_IGNORE) continue;
		n = gen_value(&f->value, m + f->data_offset, (f->value.flags & CYAML_FLAG_OPTIONAL) != 0, depth);
		if (f->value.type == CYAML_SEQUENCE) wr(m + f->count_offset, n, f->count_size);
	}
}
static bool gen_has_default(const cyaml_schema_value_t *s)
{
	switch (s->type) {
	case CYAML_INT: return s->integer.missing != 0;
	case CYAML_UINT: return s->unsigned_integer.missing != 0;
	case CYAML_ENUM: case CYAML_FLAGS: return s->enumeration.missing != 0;
	case CYAML_BITFIELD: return s->bitfield.missing != 0;
	case CYAML_BOOL: return s->boolean.missing;
	case CYAML_FLOAT: return s->floating_point.missing != 0;
	case CYAML_STRING: return s->string.missing != NULL;
	case CYAML_MAPPING: return s->mapping.missing != NULL;
	case CYAML_SEQUENCE: case CYAML_SEQUENCE_FIXED: return s->sequence.missing != NULL;
	default: return false;
	}
}
/* fills the value; returns the number of entries if it is a sequence */
static uint64_t gen_value(const cyaml_schema_value_t *s, uint8_t *slot, bool optional, unsigned depth)
{
	uint64_t n = 0;
	size_t size = s->data_size, len = 0;
	bool ptr = s->flags & CYAML_FLAG_POINTER;

	if (s->type == CYAML_STRING) {
		size_t max = s->string.max < GLEN ? s->string.max : GLEN;
		if (!ptr && max > size - 1) max = size - 1;
		len = 0;
	} else if (s->type == CYAML_SEQUENCE) {
		unsigned lo = GRT ? s->sequence.min : 0, hi = s->sequence.max < GSEQ ? s->sequence.max : GSEQ;
		if (lo > hi) lo = hi;
		n = lo + vse_choose(hi - lo + 1, "count");
		size *= n;
	} else if (s->type == CYAML_SEQUENCE_FIXED) {
		n = s->sequence.max;
		size *= n;
	}
	if (ptr) {
		bool may_null = optional || has(s, CYAML_FLAG_POINTER_NULL) || GNULL;
		if (GRT && optional && gen_has_default(s)) may_null = false;
		if (s->type == CYAML_SEQUENCE && n == 0) {      /* as loaded: no entries, no allocation; or as a client leaves it */
			if (!GRT && !GPLAIN && vse_bool("emptied")) { uint8_t *p = gen_alloc(1); memcpy(slot, &p, sizeof p); }
			return 0;
		}
		if (s->type == CYAML_MAPPING && depth >= GDEPTH && may_null) return 0;
		if (may_null && vse_bool("null")) return 0;
	}
	if (s->type == CYAML_STRING) {
		size_t max = s->string.max < GLEN ? s->string.max : GLEN;
		size_t min = GRT ? s->string.min : 0;
		if (!ptr && max > size - 1) max = size - 1;
		if (min > max) min = max;
		len = min + vse_choose((unsigned)(max - min + 1), "len");
		if (ptr) size = len + 1;
	}
	if (ptr) {
		uint8_t *p = gen_alloc(size);
		memcpy(slot, &p, sizeof p);
		slot = p;
	}
	switch (s->type) {
	case CYAML_STRING:
		vse_symbolic(slot, len, "str");
		for (size_t i = 0; i < len; i++) { vse_assume(slot[i] != 0); if (GRT || !GHIGH) vse_assume(slot[i] < 128); }
		slot[len] = 0;
		gen_strs++;
		if (GRT && ptr && has(s, CYAML_FLAG_POINTER_NULL)) {
			vse_assume(len != 0);
			if (has(s, CYAML_FLAG_POINTER_NULL_STR)) vse_assume(strcmp((char *)slot, "~") && strcmp((char *)slot, "null") && strcmp((char *)slot, "Null") && strcmp((char *)slot, "NULL"));
		}
		break;
	case CYAML_MAPPING: gen_map(s, slot, depth + 1); break;
	case CYAML_SEQUENCE: case CYAML_SEQUENCE_FIXED:
		for (uint64_t i = 0; i < n; i++) { gen_value(s->sequence.entry, slot + i * stride(s), false, depth); gen_entries++; }
		break;
	case CYAML_FLOAT:
		if (size == 4) { float x = (float)gen_floats[vse_choose(ARRLEN(gen_floats), "float")]; memcpy(slot, &x, 4); }
		else if (size == 8) { double x = gen_doubles[vse_choose(ARRLEN(gen_doubles), "double")]; memcpy(slot, &x, 8); }
		break;
	case CYAML_BOOL:
		vse_symbolic(slot, size, "bool");
		if (GRT || size == 1) vse_assume(rd(slot, (unsigned)size) <= 1);
		break;
	case CYAML_IGNORE: break;
	default:
		vse_symbolic(slot, size, "num");
		if (GHOT && gen_leaf++ != gen_hot) vse_assume(rd(slot, (unsigned)size) <= 3);
		if (GRT) {
			uint64_t v = rd(slot, (unsigned)size);
			if (s->type == CYAML_INT && (s->integer.min || s->integer.max)) {
				unsigned sh = 64 - 8 * (unsigned)size; int64_t x = (int64_t)(v << sh) >> sh;
				vse_assume((x >= s->integer.min) & (x <= s->integer.max));
			}
			if (s->type == CYAML_UINT && (s->unsigned_integer.min || s->unsigned_integer.max)) vse_assume((v >= s->unsigned_integer.min) & (v <= s->unsigned_integer.max));
			if (s->type == CYAML_BITFIELD) {
				uint64_t m = 0;
				for (uint32_t i = 0; i < s->bitfield.count; i++) m |= (s->bitfield.bitdefs[i].bits >= 64 ? ~0ull : (1ull << s->bitfield.bitdefs[i].bits) - 1) << s->bitfield.bitdefs[i].offset;
				vse_assume((v & ~m) == 0);
			}
			if (s->flags & CYAML_FLAG_STRICT) {
				if (s->type == CYAML_ENUM) { bool any = false; unsigned sh = 64 - 8 * (unsigned)size; int64_t x = (int64_t)(v << sh) >> sh; for (uint32_t i = 0; i < s->enumeration.count; i++) any |= x == s->enumeration.strings[i].val; vse_assume(any); }
				if (s->type == CYAML_FLAGS) { uint64_t m = 0; for (uint32_t i = 0; i < s->enumeration.count; i++) m |= (uint64_t)s->enumeration.strings[i].val; vse_assume((v & ~m) == 0); }
			}
		}
		break;
	}
	return n;
}
/* top level data: returns the pointer to hand to the API */
static uint8_t *gen_top(const cyaml_schema_value_t *s, unsigned *seq_count)
{
	uint8_t *p = NULL;
	cyaml_schema_value_t t = *s;
	if (GHOT) gen_hot = vse_choose(GHOT ? GHOT : 1, "hot");
	if (s->flags & CYAML_FLAG_POINTER) *seq_count = (unsigned)gen_value(s, (uint8_t *)&p, false, 0);
	else {
		t.flags |= CYAML_FLAG_POINTER;
		*seq_count = (unsigned)gen_value(&t, (uint8_t *)&p, false, 0);
	}
	gen_snapshot();
	return p;
}
#endif
