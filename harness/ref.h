/* Independent reference semantics of loading: replays the events the loader
 * consumed against the schema, computes the outcome the API documents and
 * compares the data that was built, in place. */
#ifndef REF_H
#define REF_H
#include "zooapi.h"

#ifndef RX_MAX
#define RX_MAX 96
#endif
static struct { uint8_t type; uint16_t src; } rx[RX_MAX];
static unsigned rx_n, rx_p;
static cyaml_err_t rx_tail;         /* what happens when the events run out */
static bool rx_has_alias;
static bool ref_cmp;                /* the load succeeded: compare data */
static const cyaml_config_t *ref_cfg;
static unsigned ref_cat;            /* category of the decision that produced the error */
static unsigned ref_seqs;           /* sequence entries seen */

#define TRY(x) do { cyaml_err_t err_ = (x); if (err_ != CYAML_OK) return err_; } while (0)
#define FAIL(cat, e) do { ref_cat = (cat); return (e); } while (0)

/* resolve aliases: rx[] is the document with every alias replaced by the node
 * most recently completed under that anchor name */
static void ref_expand(void)
{
	struct { char name; int start, end; } an[ENV_MAXEV];
	int na = 0, open[32], no = 0;
	rx_n = rx_p = 0; rx_has_alias = false;
	rx_tail = env_in_failed ? CYAML_ERR_LIBYAML_PARSER : CYAML_OK;
	for (int i = 0; i < env_nin; i++) {
		struct env_ev *e = &env_in[i];
		if (e->type == YAML_ALIAS_EVENT) {
			int k, a, b;
			rx_has_alias = true;
			if (ref_cfg->flags & CYAML_CFG_NO_ALIAS) { rx_tail = CYAML_ERR_ALIAS; ref_cat = C_DOC; return; }
			for (k = na - 1; k >= 0; k--) if (an[k].name == e->txt[0] && an[k].end >= 0) break;
			/* most recently completed, not most recently started */
			for (int j = 0; j < na; j++) if (an[j].name == e->txt[0] && an[j].end >= 0 && (k < 0 || an[j].end > an[k].end)) k = j;
			if (k < 0) { rx_tail = CYAML_ERR_INVALID_ALIAS; ref_cat = C_DOC; return; }
			a = an[k].start; b = an[k].end;
			for (int j = a; j < b; j++) {
				if (rx_n >= RX_MAX) vse_fail("harness: expansion too long");
				rx[rx_n++] = rx[j];
			}
			continue;
		}
		if (rx_n >= RX_MAX) vse_fail("harness: expansion too long");
		rx[rx_n].type = (uint8_t)e->type; rx[rx_n].src = (uint16_t)i; rx_n++;
		if (e->type == YAML_SCALAR_EVENT) {
			if (e->anchor) { an[na].name = e->anchor; an[na].start = (int)rx_n - 1; an[na].end = (int)rx_n; na++; }
		} else if (e->type == YAML_SEQUENCE_START_EVENT || e->type == YAML_MAPPING_START_EVENT) {
			open[no] = -1;
			if (e->anchor) {
				/* excluded: a name redefined inside the node that bears it */
				for (int j = 0; j < no; j++) if (open[j] >= 0) vse_assume(an[open[j]].name != e->anchor);
				an[na].name = e->anchor; an[na].start = (int)rx_n - 1; an[na].end = -1; open[no] = na++;
			}
			no++;
		} else if (e->type == YAML_SEQUENCE_END_EVENT || e->type == YAML_MAPPING_END_EVENT) {
			no--;
			if (open[no] >= 0) an[open[no]].end = (int)rx_n;
		}
		if (e->type == YAML_SCALAR_EVENT && e->anchor) for (int j = 0; j < no; j++) if (open[j] >= 0) vse_assume(an[open[j]].name != e->anchor);
	}
}

static struct env_ev *rx_ev;        /* current event */
static cyaml_err_t ref_got;         /* what the load returned */
static unsigned ref_last;           /* what the last event looked at was for */
/* which guarantee an untimely error speaks about */
static unsigned ref_stop_cat(void)
{
	unsigned c = C_DOC | C_MAP | C_SEQ;
	switch (ref_got) {
	case CYAML_OK: return c;
	case CYAML_ERR_STRING_LENGTH_MIN: case CYAML_ERR_STRING_LENGTH_MAX: case CYAML_ERR_BAD_MIN_MAX_SCHEMA: return c | C_STR;
	case CYAML_ERR_INVALID_KEY: return c | C_KEY;
	case CYAML_ERR_MAPPING_FIELD_MISSING: return c | C_DEF;
	case CYAML_ERR_SEQUENCE_ENTRIES_MIN: case CYAML_ERR_SEQUENCE_ENTRIES_MAX: case CYAML_ERR_SEQUENCE_FIXED_COUNT: case CYAML_ERR_SEQUENCE_IN_SEQUENCE:
	case CYAML_ERR_ALIAS: case CYAML_ERR_INVALID_ALIAS: return c;
	default: return c | ref_last;
	}
}
static cyaml_err_t rx_next(void)
{
	if (rx_p >= rx_n) {
		if (rx_tail == CYAML_OK) { CK(ref_stop_cat(), false, "the loader stopped before the document did"); vse_end(); }
		return rx_tail;
	}
	rx_ev = &env_in[rx[rx_p++].src];
	return CYAML_OK;
}

/* ---- text --------------------------------------------------------------- */
static unsigned ref_low(unsigned char c) { return c + 32u * ((c >= 'A') & (c <= 'Z')); }
static bool ref_text_eq(const cyaml_schema_value_t *s, const char *a, const char *b)
{
	bool ci = (s->flags & CYAML_FLAG_CASE_INSENSITIVE) ? true : (s->flags & CYAML_FLAG_CASE_SENSITIVE) ? false : (ref_cfg->flags & CYAML_CFG_CASE_INSENSITIVE) != 0;
	for (;; a++, b++) {
		unsigned x = (unsigned char)*a, y = (unsigned char)*b;
		if (ci) { x = ref_low((unsigned char)x); y = ref_low((unsigned char)y); }
		if (x != y) return false;
		if (!x) return true;
	}
}
/* C integer literal with optional white space and sign: value and sign, or false */
static bool ref_number(const char *t, bool *neg, uint64_t *mag, bool *big)
{
	const unsigned char *p = (const unsigned char *)t;
	unsigned base = 10, any_n = 0; bool any = false;
	*neg = *big = false; *mag = 0;
	while (*p == ' ' || (*p >= 9 && *p <= 13)) p++;
	if (*p == '-' || *p == '+') { *neg = *p == '-'; p++; }
	if (*p == '0') {
		if ((p[1] == 'x' || p[1] == 'X')) { base = 16; p += 2; }
		else { base = 8; }
	}
	for (; *p; p++) {
		unsigned c = *p, d;
		if (base == 16) {
			if (!(((c >= '0') & (c <= '9')) | ((c >= 'a') & (c <= 'f')) | ((c >= 'A') & (c <= 'F')))) return false;
			d = (c & 15) + 9 * (c >> 6);
			if (any_n >= 16 && *mag >> 60) *big = true;
			*mag = *mag << 4 | d;
		} else {
			if (!((c >= '0') & (c < '0' + base))) return false;
			d = c - '0';
			if (base == 8) { if (any_n >= 21 && *mag >> 61) *big = true; *mag = *mag << 3 | d; }
			else { if (any_n >= 19 && ((*mag > UINT64_MAX / base) | ((*mag == UINT64_MAX / base) & (d > UINT64_MAX % base)))) *big = true; *mag = *mag * base + d; }
		}
		any_n++;
		any = true;
	}
	return any;
}
static bool ref_int(const char *t, int64_t *v)
{
	bool neg, big; uint64_t m;
	if (!ref_number(t, &neg, &m, &big) || big) return false;
	if (neg) { if (m > (uint64_t)1 << 63) return false; *v = (int64_t)(0 - m); }
	else { if (m >> 63) return false; *v = (int64_t)m; }
	return true;
}
static bool ref_uint(const char *t, uint64_t *v)
{
	bool neg, big;
	if (!ref_number(t, &neg, v, &big) || big) return false;
	return !neg || *v == 0;     /* "-0" is zero, other negatives do not fit */
}

/* ---- callbacks: the same call, with the same argument, the same decision -- */
static cyaml_err_t ref_cb(const cyaml_schema_value_t *s, struct cb_rec **out)
{
	struct cb_rec *r;
	if (cb_pos >= cb_n) { CK(ref_got == CYAML_OK ? C_CB : C_CB | ref_stop_cat(), false, "every value with a validation callback is passed to it"); vse_end(); }
	r = &cb_log[cb_pos++];
	CK_(C_CB, r->schema == s, "callbacks are called in document order with their own schema");
	CK_(C_CB, r->ctx == ref_cfg->validation_ctx, "callbacks get the client's validation context");
	*out = r;
	return CYAML_OK;
}
#define CB_DONE(r) do { if (!(r)->ret) FAIL(C_CB, CYAML_ERR_INVALID_VALUE); } while (0)

#define EXPECT_BYTES(cat, slot, v, n, msg) do { if (ref_cmp) CK(cat, rd(slot, n) == ((v) & ((n) >= 8 ? ~0ull : (1ull << (8 * (n))) - 1)), msg); } while (0)

static cyaml_err_t ref_store_int(const cyaml_schema_value_t *s, uint8_t *p, int64_t v)
{
	unsigned n = s->data_size;
	unsigned cat = s->type == CYAML_ENUM ? C_ENUM : C_INT;
	if (n < 1 || n > 8) FAIL(cat, CYAML_ERR_INVALID_DATA_SIZE);
	if (n < 8 && (v < -((int64_t)1 << (8 * n - 1)) || v >= (int64_t)1 << (8 * n - 1))) FAIL(cat, CYAML_ERR_INVALID_VALUE);
	if (s->type == CYAML_INT && (s->integer.min || s->integer.max) && (v < s->integer.min || v > s->integer.max)) FAIL(cat, CYAML_ERR_INVALID_VALUE);
	if (s->type == CYAML_INT ? s->integer.validation_cb != NULL : s->enumeration.validation_cb != NULL) {
		struct cb_rec *r;
		TRY(ref_cb(s, &r));
		CK_(C_CB, r->u == (uint64_t)v, "the callback gets the value");
		CB_DONE(r);
	}
	EXPECT_BYTES(cat, p, (uint64_t)v, n, "the integer in the document is the one stored");
	return CYAML_OK;
}
static cyaml_err_t ref_store_uint(const cyaml_schema_value_t *s, uint8_t *p, uint64_t v)
{
	unsigned n = s->data_size;
	unsigned cat = s->type == CYAML_UINT ? C_INT : C_ENUM;
	if (n < 1 || n > 8) FAIL(cat, CYAML_ERR_INVALID_DATA_SIZE);
	if (n < 8 && v >> (8 * n)) FAIL(cat, CYAML_ERR_INVALID_VALUE);
	if (s->type == CYAML_UINT && (s->unsigned_integer.min || s->unsigned_integer.max) && (v < s->unsigned_integer.min || v > s->unsigned_integer.max)) FAIL(cat, CYAML_ERR_INVALID_VALUE);
	if (s->type == CYAML_UINT ? s->unsigned_integer.validation_cb != NULL : s->type == CYAML_FLAGS ? s->enumeration.validation_cb != NULL : s->bitfield.validation_cb != NULL) {
		struct cb_rec *r;
		TRY(ref_cb(s, &r));
		CK_(C_CB, r->u == v, "the callback gets the value");
		CB_DONE(r);
	}
	EXPECT_BYTES(cat, p, v, n, "the unsigned value in the document is the one stored");
	return CYAML_OK;
}

/* floats: the value strtod() gave for this text (harness supplies both) */
#ifndef REF_FLOAT
static bool ref_float_text(const char *t, double *v, bool *range) { bool neg, big; uint64_t m; int n = vse_strtod(t, v); *range = n >= 65536; if (n >= 0) return n > 0 && t[n % 65536] == 0; if (!ref_number(t, &neg, &m, &big)) return false; *v = neg ? -(double)m : (double)m; return true; }
#else
static bool ref_float_text(const char *t, double *v, bool *range);
#endif

static cyaml_err_t ref_value(const cyaml_schema_value_t *s, uint8_t *slot, const cyaml_schema_field_t *field, uint8_t *base, bool in_seq, uint64_t *count_out);

/* bytes nothing was stored into read as zero */
static void ref_zero(unsigned cat, const uint8_t *p, size_t n, const char *msg)
{
	uint8_t acc = 0;
	if (!ref_cmp) return;
	for (size_t i = 0; i < n; i++) acc |= p[i];
	CK(cat, acc == 0, msg);
}
/* number of bytes a value occupies in place */
static size_t ref_extent(const cyaml_schema_value_t *s)
{
	if (s->type == CYAML_IGNORE) return 0;
	if (s->flags & CYAML_FLAG_POINTER) return sizeof(void *);
	if (s->type == CYAML_SEQUENCE || s->type == CYAML_SEQUENCE_FIXED) return (size_t)s->data_size * s->sequence.max;
	return s->data_size;
}

/* deep equality of two values of one schema (used for defaults and copies) */
static void same_value(unsigned cat, const cyaml_schema_value_t *s, const uint8_t *a, const uint8_t *b, uint64_t count, bool disjoint);
static void same_map(unsigned cat, const cyaml_schema_value_t *s, const uint8_t *a, const uint8_t *b, bool disjoint)
{
	for (const cyaml_schema_field_t *f = s->mapping.fields; f->key; f++) {
		uint64_t n = 0;
		if (f->value.type == CYAML_IGNORE) continue;
		if (f->value.type == CYAML_SEQUENCE) {
			n = rd(a + f->count_offset, f->count_size);
			CK(cat, n == rd(b + f->count_offset, f->count_size), "sequence counts are equal");
		}
		same_value(cat, &f->value, a + f->data_offset, b + f->data_offset, n, disjoint);
	}
}
static void same_value(unsigned cat, const cyaml_schema_value_t *s, const uint8_t *a, const uint8_t *b, uint64_t count, bool disjoint)
{
	if (s->flags & CYAML_FLAG_POINTER) {
		const uint8_t *pa = *(uint8_t *const *)a, *pb = *(uint8_t *const *)b;
		if (s->type == CYAML_SEQUENCE && count == 0 && pb == NULL) return;      /* no entries need no allocation */
		CK(cat, (pa == NULL) == (pb == NULL), "both pointers are NULL or neither is");
		if (!pa) return;
		if (disjoint) CK(cat, pa != pb, "the copy shares no memory with the original");
		a = pa; b = pb;
	}
	switch (s->type) {
	case CYAML_STRING:
		for (size_t i = 0;; i++) { CK(cat, a[i] == b[i], "strings are equal"); if (!a[i]) break; }
		break;
	case CYAML_MAPPING: same_map(cat, s, a, b, disjoint); break;
	case CYAML_SEQUENCE_FIXED: count = s->sequence.max; /* fall through */
	case CYAML_SEQUENCE:
		for (uint64_t i = 0; i < count; i++) same_value(cat, s->sequence.entry, a + i * stride(s), b + i * stride(s), 0, disjoint);
		break;
	case CYAML_IGNORE: break;
	default: CK(cat, rd(a, s->data_size) == rd(b, s->data_size), "scalar values are equal"); break;
	}
}

static cyaml_err_t ref_default(const cyaml_schema_field_t *f, uint8_t *base)
{
	const cyaml_schema_value_t *s = &f->value;
	uint8_t *p = ref_cmp ? base + f->data_offset : NULL;
	uint64_t v = 0;
	switch (s->type) {
	case CYAML_INT: v = (uint64_t)s->integer.missing; break;
	case CYAML_UINT: v = s->unsigned_integer.missing; break;
	case CYAML_ENUM: case CYAML_FLAGS: v = (uint64_t)s->enumeration.missing; break;
	case CYAML_BITFIELD: v = s->bitfield.missing; break;
	case CYAML_BOOL: v = s->boolean.missing; break;
	case CYAML_FLOAT: {
		if (s->floating_point.missing != 0 && s->data_size != 4 && s->data_size != 8) FAIL(C_DEF, CYAML_ERR_INVALID_DATA_SIZE);
		if (ref_cmp) {
			if (s->flags & CYAML_FLAG_POINTER) {
				p = *(uint8_t **)p;
				if (s->floating_point.missing == 0) { CK(C_DEF, p == NULL, "a missing optional pointer with a zero default is NULL"); return CYAML_OK; }
				CK(C_DEF, p != NULL, "a missing optional pointer is given its default");
			}
			if (s->data_size == 4) { float x, y = (float)s->floating_point.missing; memcpy(&x, p, 4); CK(C_DEF, x == y, "a missing optional float has its default"); }
			else if (s->data_size == 8) { double x; memcpy(&x, p, 8); CK(C_DEF, x == s->floating_point.missing, "a missing optional float has its default"); }
		}
		return CYAML_OK;
	}
	case CYAML_STRING: {
		const char *m = s->string.missing;
		if (!m) { ref_zero(C_DEF | C_ZERO, p, (s->flags & CYAML_FLAG_POINTER) ? 8 : s->data_size, "a missing optional string without default is NULL or empty"); return CYAML_OK; }
		if (strlen(m) < s->string.min) FAIL(C_DEF, CYAML_ERR_STRING_LENGTH_MIN);
		if (strlen(m) > s->string.max) FAIL(C_DEF, CYAML_ERR_STRING_LENGTH_MAX);
		if (ref_cmp) {
			const char *q = (s->flags & CYAML_FLAG_POINTER) ? *(char **)p : (char *)p;
			CK(C_DEF, q != NULL && q != m, "a missing optional string gets its own copy of the default");
			CK(C_DEF, !strcmp(q, m), "a missing optional string has its default");
		}
		return CYAML_OK;
	}
	case CYAML_MAPPING: case CYAML_SEQUENCE: case CYAML_SEQUENCE_FIXED: {
		const void *m = s->type == CYAML_MAPPING ? s->mapping.missing : s->sequence.missing;
		uint64_t n = s->type == CYAML_SEQUENCE ? s->sequence.missing_count : s->type == CYAML_SEQUENCE_FIXED ? s->sequence.max : 0;
		if (!ref_cmp) return CYAML_OK;
		if (!m) {
			ref_zero(C_DEF | C_ZERO, p, ref_extent(s), "a missing optional value without default is NULL or zero");
			if (s->type == CYAML_SEQUENCE) CK(C_DEF | C_ZERO | C_SEQ, rd(base + f->count_offset, f->count_size) == 0, "the count of a missing optional sequence is zero");
			return CYAML_OK;
		}
		if (s->type == CYAML_SEQUENCE) CK(C_DEF, rd(base + f->count_offset, f->count_size) == n, "the default sequence's count is stored");
		if (s->flags & CYAML_FLAG_POINTER) { CK(C_DEF, *(void **)p != NULL && *(const void **)p != m, "a missing optional value gets its own copy of the default"); same_value(C_DEF, s, p, (const uint8_t *)&m, n, true); }
		else same_value(C_DEF, s, p, m, n, true);
		return CYAML_OK;
	}
	case CYAML_IGNORE: return CYAML_OK;
	default: FAIL(C_DEF, CYAML_ERR_BAD_TYPE_IN_SCHEMA);
	}
	if (v != 0 && (s->data_size < 1 || s->data_size > 8)) FAIL(C_DEF, CYAML_ERR_INVALID_DATA_SIZE);
	if (v != 0 && s->type != CYAML_BOOL && s->data_size < 8) {
		unsigned b = 8 * s->data_size;
		if (s->type == CYAML_INT || s->type == CYAML_ENUM ? (int64_t)v < -((int64_t)1 << (b - 1)) || (int64_t)v >= (int64_t)1 << (b - 1) : v >> b != 0) FAIL(C_DEF, CYAML_ERR_INVALID_VALUE);
	}
	if (!ref_cmp) return CYAML_OK;
	if (s->flags & CYAML_FLAG_POINTER) {
		p = *(uint8_t **)p;
		if (v == 0) { CK(C_DEF, p == NULL, "a missing optional pointer with a zero default is NULL"); return CYAML_OK; }
		CK(C_DEF, p != NULL, "a missing optional pointer is given its default");
	}
	if (v == 0) ref_zero(C_DEF | C_ZERO, p, s->data_size, "a missing optional field without default is zero");
	else EXPECT_BYTES(C_DEF | C_ZERO, p, v, s->data_size, "a missing optional field has its default");
	return CYAML_OK;
}

static cyaml_err_t ref_skip(void)       /* current event starts a value */
{
	int level = 0;
	for (;;) {
		if (rx_ev->type == YAML_SEQUENCE_START_EVENT || rx_ev->type == YAML_MAPPING_START_EVENT) level++;
		if (rx_ev->type == YAML_SEQUENCE_END_EVENT || rx_ev->type == YAML_MAPPING_END_EVENT) level--;
		if (level == 0) return CYAML_OK;
		TRY(rx_next());
	}
}

static unsigned ref_moving;
static cyaml_err_t ref_map(const cyaml_schema_value_t *s, uint8_t *m)
{
	uint64_t seen = 0;
	for (;;) {
		const cyaml_schema_field_t *f; unsigned i;
		TRY(rx_next());
		if (rx_ev->type == YAML_MAPPING_END_EVENT) break;
		if (rx_ev->type != YAML_SCALAR_EVENT) FAIL(C_MAP, CYAML_ERR_INTERNAL_ERROR);
		ref_last = C_KEY;
		for (f = s->mapping.fields, i = 0; f->key; f++, i++) if (ref_text_eq(s, f->key, rx_ev->txt)) break;
		if (!f->key) {
			ref_last |= C_IGN;
			if (!(ref_cfg->flags & CYAML_CFG_IGNORE_UNKNOWN_KEYS)) FAIL(C_MAP | C_KEY, CYAML_ERR_INVALID_KEY);
			TRY(rx_next());
			TRY(ref_skip());
			continue;
		}
		if (f->value.type != CYAML_IGNORE && (seen >> i & 1)) FAIL(C_MAP, CYAML_ERR_UNEXPECTED_EVENT);
		seen |= 1ull << i;
		TRY(rx_next());
		TRY(ref_value(&f->value, ref_cmp ? m + f->data_offset : NULL, f, m, false, NULL));
	}
	{
		const cyaml_schema_field_t *f; unsigned i;
		for (f = s->mapping.fields, i = 0; f->key; f++, i++) {
			if (seen >> i & 1) continue;
			if (!(f->value.flags & CYAML_FLAG_OPTIONAL)) FAIL(C_MAP, CYAML_ERR_MAPPING_FIELD_MISSING);
			TRY(ref_default(f, m));
		}
		ref_last = C_DEF | C_CB;
	}
	if (s->mapping.validation_cb) {
		struct cb_rec *r;
		TRY(ref_cb(s, &r));
		if (ref_cmp) { CK_(C_CB, ref_moving || r->ptr == m, "the mapping callback gets the mapping"); CK_(C_CB, s->data_size < 1 || (uint8_t)r->u == m[0], "the mapping callback gets the loaded mapping"); }
		CB_DONE(r);
	}
	return CYAML_OK;
}

static cyaml_err_t ref_seq(const cyaml_schema_value_t *s, uint8_t *slot, const cyaml_schema_field_t *f, uint8_t *base, uint64_t *count_out)
{
	uint64_t n = 0;
	/* entries of a growing sequence move as it grows */
	unsigned moves = s->type == CYAML_SEQUENCE && (s->flags & CYAML_FLAG_POINTER);
	uint8_t *d = ref_cmp ? ((s->flags & CYAML_FLAG_POINTER) ? *(uint8_t **)slot : slot) : NULL;
	for (;;) {
		TRY(rx_next());
		if (rx_ev->type == YAML_SEQUENCE_END_EVENT) break;
		if (n + 1 > s->sequence.max) FAIL(C_SEQ, CYAML_ERR_SEQUENCE_ENTRIES_MAX);
		if (s->type == CYAML_SEQUENCE && f && (f->count_size < 1 || f->count_size > 8)) FAIL(C_SEQ, CYAML_ERR_INVALID_DATA_SIZE);
		if (s->type == CYAML_SEQUENCE && f && f->count_size < 8 && (n + 1) >> (8 * f->count_size)) FAIL(C_SEQ, CYAML_ERR_SEQUENCE_ENTRIES_MAX);
		if (ref_cmp) CK(C_SEQ, d != NULL, "a sequence with entries has an allocation");
		ref_moving += moves;
		TRY(ref_value(s->sequence.entry, ref_cmp ? d + n * s->data_size : NULL, NULL, NULL, true, NULL));
		ref_moving -= moves;
		n++; ref_seqs++;
	}
	if (n < s->sequence.min) FAIL(C_SEQ, CYAML_ERR_SEQUENCE_ENTRIES_MIN);
	if (ref_cmp) {
		if (n == 0 && (s->flags & CYAML_FLAG_POINTER)) CK(C_SEQ, d == NULL, "an empty sequence has no allocation");
		if (s->type == CYAML_SEQUENCE && f && f->count_size >= 1 && f->count_size <= 8) CK(C_SEQ, rd(base + f->count_offset, f->count_size) == n, "the number of entries is stored in the count member");
		if (!(s->flags & CYAML_FLAG_POINTER)) ref_zero(C_SEQ | C_ZERO, d + n * s->data_size, (s->sequence.max - n) * s->data_size, "array elements after the last entry are zero");
	}
	if (s->sequence.validation_cb) {
		struct cb_rec *r;
		TRY(ref_cb(s, &r));
		CK_(C_CB, r->count == n, "the sequence callback gets the number of entries");
		if (ref_cmp) CK_(C_CB, ref_moving || r->ptr == d, "the sequence callback gets the entries");
		CB_DONE(r);
	}
	if (count_out) *count_out = n;
	return CYAML_OK;
}

static bool ref_null_text(const cyaml_schema_value_t *s, const char *t)
{
	if (!has(s, CYAML_FLAG_POINTER_NULL)) return false;
	if (!t[0]) return true;
	if (!has(s, CYAML_FLAG_POINTER_NULL_STR)) return false;
	return !strcmp(t, "~") || !strcmp(t, "null") || !strcmp(t, "Null") || !strcmp(t, "NULL");
}

static cyaml_err_t ref_value(const cyaml_schema_value_t *s, uint8_t *slot, const cyaml_schema_field_t *field, uint8_t *base, bool in_seq, uint64_t *count_out)
{
	unsigned t = rx_ev->type;
	const char *txt = rx_ev->txt;
	uint8_t *p;
	if (t == YAML_SCALAR_EVENT && ref_null_text(s, txt)) {
		ref_last = C_NULL;
		ref_zero(C_NULL, slot, 8, "a null value leaves a NULL pointer");
		if (s->type == CYAML_SEQUENCE && field && ref_cmp) CK(C_NULL | C_SEQ, rd(base + field->count_offset, field->count_size) == 0, "a null sequence has count zero");
		return CYAML_OK;
	}
	if (s->type > CYAML_IGNORE) FAIL(C_ERR, CYAML_ERR_BAD_TYPE_IN_SCHEMA);
	if (s->type == CYAML_IGNORE) { ref_last = C_IGN; return ref_skip(); }
	{
		static const unsigned c[] = { [CYAML_INT] = C_INT, [CYAML_UINT] = C_INT, [CYAML_BOOL] = C_BOOL, [CYAML_ENUM] = C_ENUM | C_KEY, [CYAML_FLAGS] = C_ENUM | C_KEY, [CYAML_FLOAT] = C_FLOAT, [CYAML_STRING] = C_STR, [CYAML_MAPPING] = C_MAP, [CYAML_BITFIELD] = C_ENUM | C_KEY, [CYAML_SEQUENCE] = C_SEQ, [CYAML_SEQUENCE_FIXED] = C_SEQ };
		ref_last = c[s->type];
#ifdef WITH_CB
		ref_last |= C_CB;
#endif
	}
	switch (s->type) {
	case CYAML_SEQUENCE: case CYAML_SEQUENCE_FIXED: case CYAML_FLAGS: if (t != YAML_SEQUENCE_START_EVENT) FAIL(C_DOC | C_SEQ | C_ENUM | C_NULL, CYAML_ERR_INVALID_VALUE); break;
	case CYAML_MAPPING: case CYAML_BITFIELD: if (t != YAML_MAPPING_START_EVENT) FAIL(C_DOC | C_MAP | C_ENUM | C_NULL, CYAML_ERR_INVALID_VALUE); break;
	default: if (t != YAML_SCALAR_EVENT) FAIL(C_DOC | C_INT | C_STR | C_ENUM | C_BOOL | C_FLOAT, CYAML_ERR_INVALID_VALUE); break;
	}
	if (is_seq(s)) {
		if (s->type == CYAML_SEQUENCE_FIXED && s->sequence.min != s->sequence.max) FAIL(C_SEQ, CYAML_ERR_SEQUENCE_FIXED_COUNT);
		if (s->type == CYAML_SEQUENCE && in_seq) FAIL(C_SEQ, CYAML_ERR_SEQUENCE_IN_SEQUENCE);
		return ref_seq(s, slot, field, base, count_out);
	}
	p = slot;
	if (ref_cmp && (s->flags & CYAML_FLAG_POINTER)) {
		p = *(uint8_t **)slot;
		CK(C_DOC | C_NULL, p != NULL, "a value that is present has an allocation");
	}
	switch (s->type) {
	case CYAML_INT: { int64_t v; if (!ref_int(txt, &v)) FAIL(C_INT, CYAML_ERR_INVALID_VALUE); return ref_store_int(s, p, v); }
	case CYAML_UINT: { uint64_t v; if (!ref_uint(txt, &v)) FAIL(C_INT, CYAML_ERR_INVALID_VALUE); return ref_store_uint(s, p, v); }
	case CYAML_ENUM: {
		cyaml_err_t e;
		for (uint32_t i = 0; i < s->enumeration.count; i++) if (ref_text_eq(s, s->enumeration.strings[i].str, txt)) {
			e = ref_store_int(s, p, s->enumeration.strings[i].val);
			return e;
		}
		{ int64_t v; if (!(s->flags & CYAML_FLAG_STRICT) && ref_int(txt, &v) && ref_store_int(s, p, v) == CYAML_OK) return CYAML_OK; }
		FAIL(C_ENUM | C_KEY, CYAML_ERR_INVALID_VALUE);
	}
	case CYAML_BOOL: {
		static const char *const no[] = { "false", "no", "off", "disable", "0" };
		bool v = true;
		if (s->data_size < 1 || s->data_size > 8) FAIL(C_BOOL, CYAML_ERR_INVALID_DATA_SIZE);
		for (unsigned i = 0; i < ARRLEN(no); i++) {
			const char *a = txt, *b = no[i]; bool eq = true;
			for (;; a++, b++) { if (ref_low((unsigned char)*a) != (unsigned char)*b) { eq = false; break; } if (!*b) break; }
			if (eq) v = false;
		}
		EXPECT_BYTES(C_BOOL, p, (uint64_t)v, s->data_size, "false/no/off/disable/0 mean false, anything else true");
		return CYAML_OK;
	}
	case CYAML_FLOAT: {
		double v; bool range;
		if (!ref_float_text(txt, &v, &range)) FAIL(C_FLOAT, CYAML_ERR_INVALID_VALUE);
		if (range && (s->flags & CYAML_FLAG_STRICT)) FAIL(C_FLOAT, CYAML_ERR_INVALID_VALUE);
		if (s->data_size == 4) {
			float x = (float)v, y;
			if ((s->flags & CYAML_FLAG_STRICT) && (v > 3.40282346638528859812e+38 || v < -3.40282346638528859812e+38)) FAIL(C_FLOAT, CYAML_ERR_INVALID_VALUE);
			if ((s->flags & CYAML_FLAG_STRICT) && (double)x != v && x > -1.17549435082228750797e-38f && x < 1.17549435082228750797e-38f) FAIL(C_FLOAT, CYAML_ERR_INVALID_VALUE);
			if (s->floating_point.validation_cb) { struct cb_rec *r; TRY(ref_cb(s, &r)); CK_(C_CB, r->d == (double)x || x != x, "the callback gets the value"); CB_DONE(r); }
			if (ref_cmp) { memcpy(&y, p, 4); CK(C_FLOAT, x == y || (x != x && y != y), "the float in the document is the one stored"); }
		} else if (s->data_size == 8) {
			double y;
			if (s->floating_point.validation_cb) { struct cb_rec *r; TRY(ref_cb(s, &r)); CK_(C_CB, r->d == v || v != v, "the callback gets the value"); CB_DONE(r); }
			if (ref_cmp) { memcpy(&y, p, 8); CK(C_FLOAT, v == y || (v != v && y != y), "the double in the document is the one stored"); }
		} else FAIL(C_FLOAT, CYAML_ERR_INVALID_DATA_SIZE);
		return CYAML_OK;
	}
	case CYAML_STRING: {
		size_t n = strlen(txt);
		if (s->string.min > s->string.max) FAIL(C_STR, CYAML_ERR_BAD_MIN_MAX_SCHEMA);
		if (n < s->string.min) FAIL(C_STR, CYAML_ERR_STRING_LENGTH_MIN);
		if (n > s->string.max) FAIL(C_STR, CYAML_ERR_STRING_LENGTH_MAX);
		if (s->string.validation_cb) { struct cb_rec *r; TRY(ref_cb(s, &r)); CK_(C_CB, !strcmp(r->txt, txt), "the callback gets the string"); CB_DONE(r); }
		if (ref_cmp) for (size_t i = 0; i <= n; i++) CK(C_STR, p[i] == (uint8_t)txt[i], "the string in the document is the one stored, NUL terminated");
		return CYAML_OK;
	}
	case CYAML_FLAGS: {
		uint64_t v = 0;
		if (s->data_size < 1 || s->data_size > 8) FAIL(C_ENUM, CYAML_ERR_INVALID_DATA_SIZE);
		for (;;) {
			uint32_t i;
			TRY(rx_next());
			if (rx_ev->type == YAML_SEQUENCE_END_EVENT) break;
			if (rx_ev->type != YAML_SCALAR_EVENT) FAIL(C_ENUM, CYAML_ERR_UNEXPECTED_EVENT);
			for (i = 0; i < s->enumeration.count; i++) if (ref_text_eq(s, s->enumeration.strings[i].str, rx_ev->txt)) break;
			if (i < s->enumeration.count) { v |= (uint64_t)s->enumeration.strings[i].val; continue; }
			{
				bool neg, big; uint64_t m;
				if ((s->flags & CYAML_FLAG_STRICT) || !ref_number(rx_ev->txt, &neg, &m, &big) || big || (neg && m) || (s->data_size < 8 && m >> (8 * s->data_size))) FAIL(C_ENUM | C_KEY, CYAML_ERR_INVALID_VALUE);
				v |= m;
			}
		}
		return ref_store_uint(s, p, v);
	}
	case CYAML_BITFIELD: {
		uint64_t v = 0;
		if (s->data_size < 1 || s->data_size > 8) FAIL(C_ENUM, CYAML_ERR_INVALID_DATA_SIZE);
		for (;;) {
			uint32_t i; uint64_t x;
			const cyaml_bitdef_t *b = s->bitfield.bitdefs;
			TRY(rx_next());
			if (rx_ev->type == YAML_MAPPING_END_EVENT) break;
			if (rx_ev->type != YAML_SCALAR_EVENT) FAIL(C_ENUM, CYAML_ERR_UNEXPECTED_EVENT);
			for (i = 0; i < s->bitfield.count; i++) {
				if (b[i].bits == 0 || b[i].bits + b[i].offset > s->data_size * 8) FAIL(C_ENUM, CYAML_ERR_BAD_BITVAL_IN_SCHEMA);
				if (ref_text_eq(s, b[i].name, rx_ev->txt)) break;
			}
			if (i == s->bitfield.count) FAIL(C_ENUM | C_KEY, CYAML_ERR_INVALID_VALUE);
			TRY(rx_next());
			if (rx_ev->type != YAML_SCALAR_EVENT) FAIL(C_ENUM, CYAML_ERR_UNEXPECTED_EVENT);
			if (!ref_uint(rx_ev->txt, &x)) FAIL(C_ENUM, CYAML_ERR_INVALID_VALUE);
			if (b[i].bits < 64 && x >> b[i].bits) FAIL(C_ENUM, CYAML_ERR_INVALID_VALUE);
			v |= x << b[i].offset;
		}
		return ref_store_uint(s, p, v);
	}
	case CYAML_MAPPING: return ref_map(s, p);
	default: break;
	}
	return CYAML_ERR_INTERNAL_ERROR;
}

/* expected outcome of loading the stream env_in[]; compares *data on success */
static cyaml_err_t ref_load(const cyaml_config_t *cfg, const cyaml_schema_value_t *s, cyaml_err_t got, uint8_t **data, uint64_t *count)
{
	bool loaded = got == CYAML_OK;
	ref_cfg = cfg;
	ref_got = got;
	ref_last = 0;
	ref_cmp = loaded;
	ref_cat = C_DOC;
	ref_expand();
	*count = 0;
	cb_pos = 0;
	TRY(rx_next());                                    /* stream start */
	TRY(rx_next());
	if (rx_ev->type == YAML_STREAM_END_EVENT) {
		if (loaded) CK(C_DOC | C_NULL, *data == NULL, "an empty stream loads as NULL");
		return CYAML_OK;
	}
	TRY(rx_next());
	TRY(ref_value(s, (uint8_t *)data, NULL, NULL, false, count));
	TRY(rx_next());                                    /* document end */
	TRY(rx_next());                                    /* stream end or next document */
	CK_(C_CB, cb_pos == cb_n, "callbacks are called once per value");
	return CYAML_OK;
}
#endif
