/* Independent reference of saving: the event stream the schema and the data
 * prescribe, matched against the events handed to the emitter. */
#ifndef REFSAVE_H
#define REFSAVE_H
#include "zooapi.h"
static int rs_pos;
static bool rs_ok;            /* the save reported success: every event must be there */
static bool rs_cut;           /* the save stopped here: compare no further */
static const cyaml_config_t *rs_cfg;
#define TRYS(x) do { cyaml_err_t e_ = (x); if (e_ != CYAML_OK) return e_; } while (0)

static struct env_out *rs_next(unsigned type)
{
	struct env_out *o;
	if (rs_cut) return NULL;
	if (rs_pos >= env_nout) { CK(C_SAVE, !rs_ok, "a successful save emits the whole document"); rs_cut = true; return NULL; }
	o = &env_out[rs_pos++];
	CK(C_SAVE, o->type == (yaml_event_type_t)type, "the emitted events follow the schema and the data");
	return o;
}
static bool rs_streq(const struct env_out *o, const char *s)
{
	bool eq = true; size_t n = strlen(s);
	if (o->len != n) return false;
	for (size_t i = 0; i < n; i++) eq &= o->txt[i] == s[i];
	return eq;
}
static int rs_scalar_style(const cyaml_schema_value_t *s)
{
	static const struct { unsigned f; int st; } t[] = {
		{ CYAML_FLAG_SCALAR_QUOTE_DOUBLE, YAML_DOUBLE_QUOTED_SCALAR_STYLE }, { CYAML_FLAG_SCALAR_QUOTE_SINGLE, YAML_SINGLE_QUOTED_SCALAR_STYLE },
		{ CYAML_FLAG_SCALAR_LITERAL, YAML_LITERAL_SCALAR_STYLE }, { CYAML_FLAG_SCALAR_FOLDED, YAML_FOLDED_SCALAR_STYLE }, { CYAML_FLAG_SCALAR_PLAIN, YAML_PLAIN_SCALAR_STYLE } };
	for (unsigned i = 0; i < ARRLEN(t); i++) if (s->flags & t[i].f) return t[i].st;
	return YAML_ANY_SCALAR_STYLE;
}
static int rs_block(const cyaml_schema_value_t *s)   /* 1 block, 2 flow, 0 any */
{
	if (s->flags & CYAML_FLAG_BLOCK) return 1;
	if (s->flags & CYAML_FLAG_FLOW) return 2;
	if (rs_cfg->flags & CYAML_CFG_STYLE_BLOCK) return 1;
	if (rs_cfg->flags & CYAML_CFG_STYLE_FLOW) return 2;
	return 0;
}
static struct env_out *rs_scalar(const cyaml_schema_value_t *s, const char *tag)
{
	struct env_out *o = rs_next(YAML_SCALAR_EVENT);
	if (!o) return NULL;
	CK(C_SAVE, o->style == rs_scalar_style(s), "scalars have the style the schema asks for");
	CK(C_SAVE, o->implicit && o->quoted_implicit && !o->has_anchor, "tags are implicit and nothing is anchored");
	CK(C_SAVE, o->has_tag && !strcmp(o->tag, tag), "scalars carry the tag of their type");
	return o;
}
static void rs_text(const cyaml_schema_value_t *s, const char *tag, const char *txt)
{
	struct env_out *o = rs_scalar(s, tag);
	if (o) CK(C_SAVE, rs_streq(o, txt), "the emitted text is the key, name or string in the data");
}
/* the text is the canonical decimal (or 0x hexadecimal) numeral of the value */
static void rs_number(const cyaml_schema_value_t *s, const char *tag, bool neg, uint64_t mag, bool hex)
{
	struct env_out *o = rs_scalar(s, tag);
	unsigned i = 0, nd = 0; uint64_t v = 0; bool ok = true;
	if (!o) return;
	if (neg) { CK(C_SAVE, o->len > 0 && o->txt[0] == '-', "negative numbers are written with a sign"); i = 1; }
	if (hex) { CK(C_SAVE, o->len > 2 && o->txt[0] == '0' && o->txt[1] == 'x', "bitfield values are written in hexadecimal"); i = 2; }
	for (; i < o->len; i++, nd++) {
		unsigned c = (unsigned char)o->txt[i], d;
		if (hex) { ok &= (c - '0' < 10) | (c - 'a' < 6); d = (c & 15) + 9 * (c >> 6); v = v << 4 | (d & 15); }
		else { d = c - '0'; ok &= d < 10; v = v * 10 + d; }
	}
	ok &= nd > 0 && nd <= (hex ? 16 : 20);
	if (nd > 1) ok &= o->txt[o->len - nd] != '0';
	CK(C_SAVE, ok, "numbers are written as plain numerals");
	CK(C_SAVE, v == mag, "the number written is the number in the data");
}
static void rs_signed(const cyaml_schema_value_t *s, uint64_t raw)
{
	unsigned sh = 64 - 8 * s->data_size; int64_t x = (int64_t)(raw << sh) >> sh;
	if (x < 0) rs_number(s, YAML_INT_TAG, true, 0 - (uint64_t)x, false); else rs_number(s, YAML_INT_TAG, false, (uint64_t)x, false);
}

static void rs_open(const cyaml_schema_value_t *s, bool map, bool any_style)
{
	struct env_out *o = rs_next(map ? YAML_MAPPING_START_EVENT : YAML_SEQUENCE_START_EVENT);
	int st = any_style ? 0 : rs_block(s);
	if (!o) return;
	CK(C_SAVE, o->implicit && !o->has_anchor, "tags are implicit and nothing is anchored");
	CK(C_SAVE, o->style == (st == 1 ? (map ? (int)YAML_BLOCK_MAPPING_STYLE : (int)YAML_BLOCK_SEQUENCE_STYLE) : st == 2 ? (map ? (int)YAML_FLOW_MAPPING_STYLE : (int)YAML_FLOW_SEQUENCE_STYLE) : 0), "block and flow styles follow the value's flags, then the configuration");
}
static void rs_close(bool map) { rs_next(map ? YAML_MAPPING_END_EVENT : YAML_SEQUENCE_END_EVENT); }

static cyaml_err_t rs_value(const cyaml_schema_value_t *s, const uint8_t *p, uint64_t n, bool in_seq)
{
	uint64_t raw, all;
	if (s->type == CYAML_SEQUENCE && in_seq) return CYAML_ERR_SEQUENCE_IN_SEQUENCE;
	if (s->flags & CYAML_FLAG_POINTER) {
		p = *(uint8_t *const *)p;
		if (p == NULL) {
			if (s->type == CYAML_SEQUENCE && n == 0 && !has(s, CYAML_FLAG_POINTER_NULL)) goto empty_seq;
			if (has(s, CYAML_FLAG_POINTER_NULL_STR)) { rs_text(s, YAML_STR_TAG, "null"); return CYAML_OK; }
			if (has(s, CYAML_FLAG_POINTER_NULL)) { rs_text(s, YAML_STR_TAG, ""); return CYAML_OK; }
			return CYAML_ERR_INVALID_VALUE;
		}
	}
	switch (s->type) {
	case CYAML_INT: case CYAML_UINT: case CYAML_BOOL: case CYAML_ENUM: case CYAML_FLAGS: case CYAML_BITFIELD:
		if (s->data_size < 1 || s->data_size > 8) return CYAML_ERR_INVALID_DATA_SIZE;
		raw = rd(p, s->data_size);
		break;
	default: raw = 0; break;
	}
	all = raw;
	switch (s->type) {
	case CYAML_INT: rs_signed(s, raw); return CYAML_OK;
	case CYAML_UINT: rs_number(s, YAML_INT_TAG, false, raw, false); return CYAML_OK;
	case CYAML_BOOL: rs_text(s, YAML_BOOL_TAG, raw ? "true" : "false"); return CYAML_OK;
	case CYAML_STRING: {
		struct env_out *o = rs_scalar(s, YAML_STR_TAG);
		if (o) {
			bool eq = true;
			for (unsigned i = 0; i < o->len; i++) eq &= (o->txt[i] == (char)p[i]) & (p[i] != 0);
			CK(C_SAVE, eq && p[o->len] == 0, "the string written is the string in the data");
		}
		return CYAML_OK;
	}
	case CYAML_ENUM: {
		unsigned sh = 64 - 8 * s->data_size; int64_t x = (int64_t)(raw << sh) >> sh;
		for (uint32_t i = 0; i < s->enumeration.count; i++) if (x == s->enumeration.strings[i].val) { rs_text(s, YAML_STR_TAG, s->enumeration.strings[i].str); return CYAML_OK; }
		if (s->flags & CYAML_FLAG_STRICT) return CYAML_ERR_INVALID_VALUE;
		rs_signed(s, raw);
		return CYAML_OK;
	}
	case CYAML_FLAGS:
		rs_open(s, false, true);
		for (uint32_t i = 0; i < s->enumeration.count; i++) {
			uint64_t f = (uint64_t)s->enumeration.strings[i].val;
			if ((raw & f) != 0 && (all & f) == f) { rs_text(s, YAML_STR_TAG, s->enumeration.strings[i].str); raw &= ~f; }
		}
		if (raw) {
			if (s->flags & CYAML_FLAG_STRICT) return CYAML_ERR_INVALID_VALUE;
			rs_number(s, YAML_STR_TAG, false, raw, false);
		}
		rs_close(false);
		return CYAML_OK;
	case CYAML_BITFIELD:
		rs_open(s, true, false);
		for (uint32_t i = 0; i < s->bitfield.count; i++) {
			const cyaml_bitdef_t *b = &s->bitfield.bitdefs[i];
			uint64_t v;
			if (b->bits == 0 || b->bits + b->offset > s->data_size * 8u) return CYAML_ERR_BAD_BITVAL_IN_SCHEMA;
			v = raw >> b->offset & (b->bits >= 64 ? ~0ull : (1ull << b->bits) - 1);
			if (!v) continue;
			rs_text(s, YAML_STR_TAG, b->name);
			rs_number(s, YAML_INT_TAG, false, v, true);
		}
		rs_close(true);
		return CYAML_OK;
	case CYAML_FLOAT: {
		double d = 0, v = 0; float x = 0; struct env_out *o; int n;
		if (s->data_size == 4) { memcpy(&x, p, 4); d = (double)x; }
		else if (s->data_size == 8) memcpy(&d, p, 8);
		else return CYAML_ERR_INVALID_DATA_SIZE;
		o = rs_scalar(s, YAML_FLOAT_TAG);
		if (o) {
			n = vse_strtod(o->txt, &v);
			if (s->data_size == 4) v = (double)(float)v;
			CK(C_SAVE, n > 0 && n < 65536 && o->txt[n] == 0 && (v == d || (v != v && d != d)), "the text of a floating point number is that number");
		}
		return CYAML_OK;
	}
	case CYAML_MAPPING:
		rs_open(s, true, false);
		for (const cyaml_schema_field_t *f = s->mapping.fields; f->key; f++) {
			uint64_t c = 0;
			if (f->value.type == CYAML_IGNORE) continue;
			if ((f->value.flags & CYAML_FLAG_OPTIONAL) && (f->value.flags & CYAML_FLAG_POINTER) && *(void *const *)(p + f->data_offset) == NULL) continue;
			rs_text(s, YAML_STR_TAG, f->key);
			if (f->value.type == CYAML_SEQUENCE) {
				if (f->count_size < 1 || f->count_size > 8) return CYAML_ERR_INVALID_DATA_SIZE;
				c = rd(p + f->count_offset, f->count_size);
			}
			TRYS(rs_value(&f->value, p + f->data_offset, c, false));
		}
		rs_close(true);
		return CYAML_OK;
	case CYAML_SEQUENCE_FIXED:
		if (s->sequence.min != s->sequence.max) return CYAML_ERR_SEQUENCE_FIXED_COUNT;
		n = s->sequence.max;
		/* fall through */
	case CYAML_SEQUENCE:
	empty_seq:
		rs_open(s, false, false);
		for (uint64_t i = 0; i < n; i++) TRYS(rs_value(s->sequence.entry, p + i * stride(s), 0, true));
		rs_close(false);
		return CYAML_OK;
	default: return CYAML_ERR_BAD_TYPE_IN_SCHEMA;
	}
}
/* expected outcome; compares env_out[] as far as the save got */
static cyaml_err_t ref_save(const cyaml_config_t *cfg, const cyaml_schema_value_t *s, const uint8_t *data, uint64_t n, bool ok)
{
	struct env_out *o; bool delim = cfg->flags & CYAML_CFG_DOCUMENT_DELIM;
	rs_pos = 0; rs_cut = false; rs_ok = ok; rs_cfg = cfg;
	rs_next(YAML_STREAM_START_EVENT);
	if ((o = rs_next(YAML_DOCUMENT_START_EVENT))) CK(C_SAVE, o->implicit == !delim, "document marks are written exactly when asked for");
	TRYS(rs_value(s, (const uint8_t *)&data, n, false));
	if ((o = rs_next(YAML_DOCUMENT_END_EVENT))) CK(C_SAVE, o->implicit == !delim, "document marks are written exactly when asked for");
	rs_next(YAML_STREAM_END_EVENT);
	if (ok) CK(C_SAVE, rs_pos == env_nout, "nothing is emitted beyond the document");
	return CYAML_OK;
}
#endif
