/* The schema zoo: small client data structures that between them use every
 * schema feature.  Select one with -DZOO=n. */
#ifndef ZOO_H
#define ZOO_H
#include "zooapi.h"
#ifdef WITH_CB
#define CB(x) .validation_cb = x,
#else
#define CB(x)
#endif
#ifndef ZFLAGS
#define ZFLAGS CYAML_FLAG_DEFAULT       /* extra flags for every mapping / enum */
#endif
#define P_ CYAML_FLAG_POINTER
#define O_ CYAML_FLAG_OPTIONAL

#if ZOO == 1   /* plain mapping: required scalar, optional string, required sequence */
struct z { uint8_t a; char *s; uint16_t *q; unsigned q_count; };
static const cyaml_schema_value_t z_ent = { .type = CYAML_UINT, .flags = CYAML_FLAG_DEFAULT, .data_size = 2, .unsigned_integer = { CB(cb_uint) .min = 0 } };
static const cyaml_schema_field_t z_f[] = {
	{ .key = "a", .data_offset = offsetof(struct z, a), .value = { .type = CYAML_UINT, .flags = CYAML_FLAG_DEFAULT, .data_size = 1, .unsigned_integer = { CB(cb_uint) .min = 0 } } },
	{ .key = "s", .data_offset = offsetof(struct z, s), .value = { .type = CYAML_STRING, .flags = P_ | O_, .data_size = 1, .string = { .min = 0, .max = 2, CB(cb_string) } } },
	{ .key = "q", .data_offset = offsetof(struct z, q), .count_offset = offsetof(struct z, q_count), .count_size = 4, .value = { .type = CYAML_SEQUENCE, .flags = P_, .data_size = 2, .sequence = { .entry = &z_ent, .min = 1, .max = 2, CB(cb_seq) } } },
	CYAML_FIELD_END };
static const cyaml_schema_value_t zoo_schema = { .type = CYAML_MAPPING, .flags = P_ | ZFLAGS, .data_size = sizeof(struct z), .mapping = { .fields = z_f, CB(cb_map) } };
static const char *const zoo_keys[] = { "a", "s", "q" };
static const char *const zoo_vals[] = { "7", "300" };

#elif ZOO == 2  /* nested optional mapping pointer, embedded mapping, enum */
struct zi { int8_t v; uint8_t *w; };
struct z { int e; struct zi in; struct zi *p; };
static const cyaml_strval_t z_str[] = { { "red", 1 }, { "Red", 2 }, { "neg", -3 } };
static const cyaml_schema_field_t zi_f[] = {
	CYAML_FIELD_INT("v", CYAML_FLAG_DEFAULT, struct zi, v),
	CYAML_FIELD_UINT_PTR("w", P_ | O_, struct zi, w),
	CYAML_FIELD_END };
static const cyaml_schema_field_t z_f[] = {
	{ .key = "e", .data_offset = offsetof(struct z, e), .value = { .type = CYAML_ENUM, .flags = O_ | ZFLAGS, .data_size = 4, .enumeration = { .strings = z_str, .count = 3, CB(cb_int) } } },
	{ .key = "in", .data_offset = offsetof(struct z, in), .value = { .type = CYAML_MAPPING, .flags = O_ | ZFLAGS, .data_size = sizeof(struct zi), .mapping = { .fields = zi_f, CB(cb_map) } } },
	{ .key = "p", .data_offset = offsetof(struct z, p), .value = { .type = CYAML_MAPPING, .flags = P_ | O_ | ZFLAGS, .data_size = sizeof(struct zi), .mapping = { .fields = zi_f, CB(cb_map) } } },
	CYAML_FIELD_END };
static const cyaml_schema_value_t zoo_schema = { .type = CYAML_MAPPING, .flags = P_ | ZFLAGS, .data_size = sizeof(struct z), .mapping = { .fields = z_f, CB(cb_map) } };
static const char *const zoo_keys[] = { "e", "in", "p", "v", "w" };
static const char *const zoo_vals[] = { "red", "5" };

#elif ZOO == 3  /* sequence of mapping pointers, count stored in one byte, inside a mapping */
struct zi { char *n; };
struct z { struct zi **q; uint8_t n; int16_t t; };
static const cyaml_schema_field_t zi_f[] = {
	CYAML_FIELD_STRING_PTR("n", P_, struct zi, n, 0, 3),
	CYAML_FIELD_END };
static const cyaml_schema_value_t z_ent = { .type = CYAML_MAPPING, .flags = P_ | ZFLAGS, .data_size = sizeof(struct zi), .mapping = { .fields = zi_f, CB(cb_map) } };
static const cyaml_schema_field_t z_f[] = {
	{ .key = "q", .data_offset = offsetof(struct z, q), .count_offset = offsetof(struct z, n), .count_size = 1, .value = { .type = CYAML_SEQUENCE, .flags = P_ | O_, .data_size = sizeof(void *), .sequence = { .entry = &z_ent, .min = 0, .max = 2, CB(cb_seq) } } },
	{ .key = "t", .data_offset = offsetof(struct z, t), .value = { .type = CYAML_INT, .flags = O_, .data_size = 2, .integer = { .missing = 5, .min = -7, .max = 9 } } },
	CYAML_FIELD_END };
static const cyaml_schema_value_t zoo_schema = { .type = CYAML_MAPPING, .flags = P_ | ZFLAGS, .data_size = sizeof(struct z), .mapping = { .fields = z_f, CB(cb_map) } };
static const char *const zoo_keys[] = { "q", "t", "n" };
static const char *const zoo_vals[] = { "8", "12" };

#elif ZOO == 4  /* top level sequence of strings */
static const cyaml_schema_value_t z_ent = { .type = CYAML_STRING, .flags = P_, .data_size = 1, .string = { .min = 1, .max = 2, CB(cb_string) } };
static const cyaml_schema_value_t zoo_schema = { .type = CYAML_SEQUENCE, .flags = P_, .data_size = sizeof(char *), .sequence = { .entry = &z_ent, .min = 1, .max = 3, CB(cb_seq) } };
static const char *const zoo_keys[] = { "k" };
static const char *const zoo_vals[] = { "ab", "" };

#elif ZOO == 5  /* top level sequence of embedded mappings holding pointers */
struct z { char *s; uint8_t u; };
static const cyaml_schema_field_t z_f[] = {
	CYAML_FIELD_STRING_PTR("s", P_ | O_, struct z, s, 0, CYAML_UNLIMITED),
	CYAML_FIELD_UINT("u", O_, struct z, u),
	CYAML_FIELD_END };
static const cyaml_schema_value_t z_ent = { .type = CYAML_MAPPING, .flags = CYAML_FLAG_DEFAULT | ZFLAGS, .data_size = sizeof(struct z), .mapping = { .fields = z_f, CB(cb_map) } };
static const cyaml_schema_value_t zoo_schema = { .type = CYAML_SEQUENCE, .flags = P_, .data_size = sizeof(struct z), .sequence = { .entry = &z_ent, .min = 0, .max = CYAML_UNLIMITED, CB(cb_seq) } };
static const char *const zoo_keys[] = { "s", "u" };
static const char *const zoo_vals[] = { "3", "xy" };

#elif ZOO == 6  /* fixed length sequences: embedded, allocated, nested, entries that own memory */
struct z { uint8_t f[2]; char *(*p)[2]; char *g[2][2]; };
static const cyaml_schema_value_t z_u8 = { .type = CYAML_UINT, .flags = CYAML_FLAG_DEFAULT, .data_size = 1, .unsigned_integer = { CB(cb_uint) .min = 0 } };
static const cyaml_schema_value_t z_str = { .type = CYAML_STRING, .flags = P_, .data_size = 1, .string = { .min = 0, .max = 4 } };
static const cyaml_schema_value_t z_in = { .type = CYAML_SEQUENCE_FIXED, .flags = CYAML_FLAG_DEFAULT, .data_size = sizeof(char *), .sequence = { .entry = &z_str, .min = 2, .max = 2, CB(cb_seq) } };
static const cyaml_schema_field_t z_f[] = {
	{ .key = "f", .data_offset = offsetof(struct z, f), .value = { .type = CYAML_SEQUENCE_FIXED, .flags = O_, .data_size = 1, .sequence = { .entry = &z_u8, .min = 2, .max = 2, CB(cb_seq) } } },
	{ .key = "p", .data_offset = offsetof(struct z, p), .value = { .type = CYAML_SEQUENCE_FIXED, .flags = P_ | O_, .data_size = sizeof(char *), .sequence = { .entry = &z_str, .min = 2, .max = 2, CB(cb_seq) } } },
	{ .key = "g", .data_offset = offsetof(struct z, g), .value = { .type = CYAML_SEQUENCE_FIXED, .flags = O_, .data_size = sizeof(char *) * 2, .sequence = { .entry = &z_in, .min = 2, .max = 2, CB(cb_seq) } } },
	CYAML_FIELD_END };
static const cyaml_schema_value_t zoo_schema = { .type = CYAML_MAPPING, .flags = P_ | ZFLAGS, .data_size = sizeof(struct z), .mapping = { .fields = z_f, CB(cb_map) } };
static const char *const zoo_keys[] = { "f", "p", "g" };
static const char *const zoo_vals[] = { "9", "x" };

#elif ZOO == 7  /* flags, bitfield, bool */
struct z { uint16_t fl; uint16_t bf; bool bo; uint32_t *pf; };
static const cyaml_strval_t z_str[] = { { "one", 1 }, { "two", 2 }, { "hi", 0x8000 } };
static const cyaml_bitdef_t z_bits[] = { { "lo", 0, 3 }, { "mid", 3, 1 }, { "top", 8, 8 } };
static const cyaml_schema_field_t z_f[] = {
	{ .key = "fl", .data_offset = offsetof(struct z, fl), .value = { .type = CYAML_FLAGS, .flags = O_ | ZFLAGS, .data_size = 2, .enumeration = { .strings = z_str, .count = 3, CB(cb_int) } } },
	{ .key = "bf", .data_offset = offsetof(struct z, bf), .value = { .type = CYAML_BITFIELD, .flags = O_ | ZFLAGS, .data_size = 2, .bitfield = { .bitdefs = z_bits, .count = 3, CB(cb_uint) } } },
	CYAML_FIELD_BOOL("bo", O_, struct z, bo),
	{ .key = "pf", .data_offset = offsetof(struct z, pf), .value = { .type = CYAML_FLAGS, .flags = O_ | P_ | CYAML_FLAG_STRICT, .data_size = 4, .enumeration = { .strings = z_str, .count = 3, CB(cb_int) } } },
	CYAML_FIELD_END };
static const cyaml_schema_value_t zoo_schema = { .type = CYAML_MAPPING, .flags = P_ | ZFLAGS, .data_size = sizeof(struct z), .mapping = { .fields = z_f, CB(cb_map) } };
static const char *const zoo_keys[] = { "fl", "bf", "bo", "pf", "lo", "mid", "top" };
static const char *const zoo_vals[] = { "one", "hi", "5", "NO" };

#elif ZOO == 8  /* everything embedded: strings, mapping, sequence with count */
struct zi { char s[3]; int8_t i; };
struct z { char s[4]; struct zi m; struct zi q[2]; uint32_t q_count; };
static const cyaml_schema_field_t zi_f[] = {
	CYAML_FIELD_STRING("s", O_, struct zi, s, 0),
	CYAML_FIELD_INT("i", O_, struct zi, i),
	CYAML_FIELD_END };
static const cyaml_schema_value_t z_ent = { .type = CYAML_MAPPING, .flags = CYAML_FLAG_DEFAULT | ZFLAGS, .data_size = sizeof(struct zi), .mapping = { .fields = zi_f, CB(cb_map) } };
static const cyaml_schema_field_t z_f[] = {
	CYAML_FIELD_STRING("s", O_, struct z, s, 1),
	CYAML_FIELD_MAPPING("m", O_ | ZFLAGS, struct z, m, zi_f),
	{ .key = "q", .data_offset = offsetof(struct z, q), .count_offset = offsetof(struct z, q_count), .count_size = 4, .value = { .type = CYAML_SEQUENCE, .flags = O_, .data_size = sizeof(struct zi), .sequence = { .entry = &z_ent, .min = 0, .max = 2, CB(cb_seq) } } },
	CYAML_FIELD_END };
static const cyaml_schema_value_t zoo_schema = { .type = CYAML_MAPPING, .flags = P_ | ZFLAGS, .data_size = sizeof(struct z), .mapping = { .fields = z_f, CB(cb_map) } };
static const char *const zoo_keys[] = { "s", "m", "q", "i" };
static const char *const zoo_vals[] = { "-4", "abc" };

#elif ZOO == 9  /* recursive: linked list */
struct z { uint8_t v; struct z *next; };
static const cyaml_schema_field_t z_f[] = {
	CYAML_FIELD_UINT("v", O_, struct z, v),
	CYAML_FIELD_MAPPING_PTR("n", P_ | O_, struct z, next, z_f),
	CYAML_FIELD_END };
static const cyaml_schema_value_t zoo_schema = { .type = CYAML_MAPPING, .flags = P_, .data_size = sizeof(struct z), .mapping = { .fields = z_f } };
static const char *const zoo_keys[] = { "v", "n" };
static const char *const zoo_vals[] = { "1" };

#elif ZOO == 10  /* values that may be null */
struct zi { uint8_t b; };
struct z { char *s; char *t; uint32_t *u; struct zi *m; char **q; uint8_t nq; int8_t *i; };
static const cyaml_schema_field_t zi_f[] = { CYAML_FIELD_UINT("b", O_, struct zi, b), CYAML_FIELD_END };
static const cyaml_schema_value_t z_ent = { .type = CYAML_STRING, .flags = CYAML_FLAG_POINTER_NULL_STR, .data_size = 1, .string = { .min = 0, .max = 8 } };
static const cyaml_schema_field_t z_f[] = {
	{ .key = "s", .data_offset = offsetof(struct z, s), .value = { .type = CYAML_STRING, .flags = CYAML_FLAG_POINTER_NULL | O_, .data_size = 1, .string = { .min = 0, .max = 8 } } },
	{ .key = "t", .data_offset = offsetof(struct z, t), .value = { .type = CYAML_STRING, .flags = CYAML_FLAG_POINTER_NULL_STR | O_, .data_size = 1, .string = { .min = 0, .max = 8, .missing = "df" } } },
	{ .key = "u", .data_offset = offsetof(struct z, u), .value = { .type = CYAML_UINT, .flags = CYAML_FLAG_POINTER_NULL_STR, .data_size = 4, .unsigned_integer = { .min = 0 } } },
	{ .key = "m", .data_offset = offsetof(struct z, m), .value = { .type = CYAML_MAPPING, .flags = CYAML_FLAG_POINTER_NULL_STR | O_, .data_size = sizeof(struct zi), .mapping = { .fields = zi_f } } },
	{ .key = "q", .data_offset = offsetof(struct z, q), .count_offset = offsetof(struct z, nq), .count_size = 1, .value = { .type = CYAML_SEQUENCE, .flags = CYAML_FLAG_POINTER_NULL | O_, .data_size = sizeof(char *), .sequence = { .entry = &z_ent, .min = 0, .max = 2 } } },
	{ .key = "i", .data_offset = offsetof(struct z, i), .value = { .type = CYAML_INT, .flags = P_ | O_, .data_size = 1, .integer = { .min = 0 } } },
	CYAML_FIELD_END };
static const cyaml_schema_value_t zoo_schema = { .type = CYAML_MAPPING, .flags = P_, .data_size = sizeof(struct z), .mapping = { .fields = z_f } };
static const char *const zoo_keys[] = { "s", "t", "u", "m", "q", "i", "b" };
static const char *const zoo_vals[] = { "", "~", "null", "Null", "NULL", "nULL", "7" };

#elif ZOO == 11  /* defaults for every type, embedded and allocated */
struct zi { uint8_t x; char *s; };
struct z {
	int16_t i, *ip; uint32_t u, *up; int e, *ep; uint16_t fl; uint8_t bf; bool b, *bp; float f; double d, *dp;
	char *sp; char s[5]; struct zi m, *mp; uint8_t *q; uint16_t q_count; uint8_t fx[2]; char *(*fp)[2];
	uint8_t eq[3]; uint8_t eq_count; uint32_t req;
};
static const cyaml_strval_t z_str[] = { { "A", 1 }, { "B", 2 } };
static const cyaml_bitdef_t z_bits[] = { { "l", 0, 4 }, { "h", 4, 4 } };
static const cyaml_schema_field_t zi_f[] = { CYAML_FIELD_UINT("x", O_, struct zi, x), CYAML_FIELD_STRING_PTR("s", P_ | O_, struct zi, s, 0, 9), CYAML_FIELD_END };
static const cyaml_schema_value_t z_u8 = { CYAML_VALUE_UINT(CYAML_FLAG_DEFAULT, uint8_t) };
static const cyaml_schema_value_t z_sp = { CYAML_VALUE_STRING(P_, char, 0, 9) };
static const struct zi d_m = { 7, "ms" };
static const uint8_t d_q[] = { 4, 5 };
static const uint8_t d_fx[] = { 8, 9 };
static const char *const d_fp[2] = { "p0", "p1" };
#define FD(k, mem, T, fl_, sz, ...) { .key = k, .data_offset = offsetof(struct z, mem), .value = { .type = T, .flags = (fl_) | O_, .data_size = sz, __VA_ARGS__ } }
static const cyaml_schema_field_t z_f[] = {
	FD("i", i, CYAML_INT, 0, 2, .integer = { .missing = -300 }),
	FD("ip", ip, CYAML_INT, P_, 2, .integer = { .missing = 301 }),
	FD("u", u, CYAML_UINT, 0, 4, .unsigned_integer = { .missing = 4000000000u }),
	FD("up", up, CYAML_UINT, P_, 4, .unsigned_integer = { .missing = 70000 }),
	FD("e", e, CYAML_ENUM, 0, 4, .enumeration = { .strings = z_str, .count = 2, .missing = -2 }),
	FD("ep", ep, CYAML_ENUM, P_, 4, .enumeration = { .strings = z_str, .count = 2, .missing = 2 }),
	FD("fl", fl, CYAML_FLAGS, 0, 2, .enumeration = { .strings = z_str, .count = 2, .missing = 0x101 }),
	FD("bf", bf, CYAML_BITFIELD, 0, 1, .bitfield = { .bitdefs = z_bits, .count = 2, .missing = 0x5a }),
	FD("b", b, CYAML_BOOL, 0, 1, .boolean = { .missing = true }),
	FD("bp", bp, CYAML_BOOL, P_, 1, .boolean = { .missing = true }),
	FD("f", f, CYAML_FLOAT, 0, 4, .floating_point = { .missing = 1.5 }),
	FD("d", d, CYAML_FLOAT, 0, 8, .floating_point = { .missing = -2.25 }),
	FD("dp", dp, CYAML_FLOAT, P_, 8, .floating_point = { .missing = 1e9 }),
	FD("sp", sp, CYAML_STRING, P_, 1, .string = { .min = 0, .max = 8, .missing = "dflt" }),
	FD("s", s, CYAML_STRING, 0, 5, .string = { .min = 0, .max = 4, .missing = "abcd" }),
	FD("m", m, CYAML_MAPPING, 0, sizeof(struct zi), .mapping = { .fields = zi_f, .missing = &d_m }),
	FD("mp", mp, CYAML_MAPPING, P_, sizeof(struct zi), .mapping = { .fields = zi_f, .missing = &d_m }),
	{ .key = "q", .data_offset = offsetof(struct z, q), .count_offset = offsetof(struct z, q_count), .count_size = 2, .value = { .type = CYAML_SEQUENCE, .flags = P_ | O_, .data_size = 1, .sequence = { .entry = &z_u8, .min = 0, .max = 3, .missing = d_q, .missing_count = 2 } } },
	FD("fx", fx, CYAML_SEQUENCE_FIXED, 0, 1, .sequence = { .entry = &z_u8, .min = 2, .max = 2, .missing = d_fx }),
	FD("fp", fp, CYAML_SEQUENCE_FIXED, P_, sizeof(char *), .sequence = { .entry = &z_sp, .min = 2, .max = 2, .missing = d_fp }),
	{ .key = "eq", .data_offset = offsetof(struct z, eq), .count_offset = offsetof(struct z, eq_count), .count_size = 1, .value = { .type = CYAML_SEQUENCE, .flags = O_, .data_size = 1, .sequence = { .entry = &z_u8, .min = 0, .max = 3, .missing = d_q, .missing_count = 2 } } },
	CYAML_FIELD_UINT("req", CYAML_FLAG_DEFAULT, struct z, req),
	CYAML_FIELD_END };
static const cyaml_schema_value_t zoo_schema = { .type = CYAML_MAPPING, .flags = P_, .data_size = sizeof(struct z), .mapping = { .fields = z_f } };
static const char *const zoo_keys[] = { "i", "ip", "u", "up", "e", "ep", "fl", "bf", "b", "bp", "f", "d", "dp", "sp", "s", "m", "mp", "q", "fx", "fp", "eq", "req" };
static const char *const zoo_vals[] = { "1", "A" };

#elif ZOO == 12  /* ignored fields */
#if defined(RT) && RT
#define Z12Y O_     /* a required ignored field is never saved, so could not be loaded again */
#else
#define Z12Y CYAML_FLAG_DEFAULT
#endif
struct zi { uint8_t k; };
struct z { uint8_t a; struct zi m; char *s; };
static const cyaml_schema_field_t zi_f[] = { CYAML_FIELD_UINT("k", O_, struct zi, k), CYAML_FIELD_IGNORE("g", O_), CYAML_FIELD_END };
static const cyaml_schema_field_t z_f[] = {
	CYAML_FIELD_IGNORE("x", CYAML_FLAG_OPTIONAL),
	CYAML_FIELD_UINT("a", O_, struct z, a),
	CYAML_FIELD_IGNORE("y", Z12Y),
	CYAML_FIELD_MAPPING("m", O_ | ZFLAGS, struct z, m, zi_f),
	CYAML_FIELD_END };
static const cyaml_schema_value_t zoo_schema = { .type = CYAML_MAPPING, .flags = P_ | ZFLAGS, .data_size = sizeof(struct z), .mapping = { .fields = z_f, CB(cb_map) } };
static const char *const zoo_keys[] = { "x", "a", "y", "m", "g", "u" };
static const char *const zoo_vals[] = { "3", "a" };

#elif ZOO == 13  /* top level scalar of type ZTYPE */
#ifndef ZTYPE
#define ZTYPE 0
#endif
static const cyaml_strval_t z_str[] = { { "A", 1 }, { "B", -2 } };
static const cyaml_bitdef_t z_bits[] = { { "l", 0, 4 }, { "h", 4, 4 } };
static const cyaml_schema_field_t z_f[] = { CYAML_FIELD_END };
static const cyaml_schema_value_t z_u8 = { CYAML_VALUE_UINT(CYAML_FLAG_DEFAULT, uint8_t) };
static const cyaml_schema_value_t zoo_schema =
#if ZTYPE == 0
	{ .type = CYAML_STRING, .flags = P_, .data_size = 1, .string = { .min = 0, .max = 2, CB(cb_string) } };
#elif ZTYPE == 1
	{ .type = CYAML_INT, .flags = P_, .data_size = 4, .integer = { CB(cb_int) .min = 0 } };
#elif ZTYPE == 2
	{ .type = CYAML_ENUM, .flags = CYAML_FLAG_POINTER_NULL, .data_size = 4, .enumeration = { .strings = z_str, .count = 2, CB(cb_int) } };
#elif ZTYPE == 3
	{ .type = CYAML_FLAGS, .flags = P_, .data_size = 4, .enumeration = { .strings = z_str, .count = 1, CB(cb_int) } };
#elif ZTYPE == 4
	{ .type = CYAML_BITFIELD, .flags = P_, .data_size = 1, .bitfield = { .bitdefs = z_bits, .count = 2, CB(cb_uint) } };
#elif ZTYPE == 5
	{ .type = CYAML_MAPPING, .flags = P_, .data_size = 1, .mapping = { .fields = z_f, CB(cb_map) } };
#elif ZTYPE == 6
	{ .type = CYAML_SEQUENCE_FIXED, .flags = P_, .data_size = 1, .sequence = { .entry = &z_u8, .min = 2, .max = 2, CB(cb_seq) } };
#elif ZTYPE == 7
	{ .type = CYAML_BOOL, .flags = P_, .data_size = 1 };
#elif ZTYPE == 8
	{ .type = CYAML_IGNORE, .flags = P_, .data_size = 1 };
#elif ZTYPE == 9
	{ .type = CYAML_UINT, .flags = CYAML_FLAG_POINTER_NULL_STR, .data_size = 2, .unsigned_integer = { CB(cb_uint) .min = 0 } };
#else
	{ .type = CYAML__TYPE_COUNT, .flags = P_, .data_size = 1 };
#endif
static const char *const zoo_keys[] = { "l", "h" };
static const char *const zoo_vals[] = { "A", "12" };

#elif ZOO == 14  /* sequence entries: fixed sequence pointers, and sequences that may not nest */
struct z { uint8_t (**q)[2]; uint32_t q_count; uint8_t *(*r)[1]; uint8_t *b; };
static const cyaml_schema_value_t z_u8 = { CYAML_VALUE_UINT(CYAML_FLAG_DEFAULT, uint8_t) };
static const cyaml_schema_value_t z_fix = { .type = CYAML_SEQUENCE_FIXED, .flags = P_, .data_size = 1, .sequence = { .entry = &z_u8, .min = 2, .max = 2, CB(cb_seq) } };
static const cyaml_schema_value_t z_seq = { .type = CYAML_SEQUENCE, .flags = P_, .data_size = 1, .sequence = { .entry = &z_u8, .min = 0, .max = 2, CB(cb_seq) } };
static const cyaml_schema_value_t z_badfix = { .type = CYAML_SEQUENCE_FIXED, .flags = P_, .data_size = 1, .sequence = { .entry = &z_u8, .min = 1, .max = 2 } };
static const cyaml_schema_field_t z_f[] = {
	{ .key = "q", .data_offset = offsetof(struct z, q), .count_offset = offsetof(struct z, q_count), .count_size = 4, .value = { .type = CYAML_SEQUENCE, .flags = P_ | O_, .data_size = sizeof(void *), .sequence = { .entry = &z_fix, .min = 0, .max = 2, CB(cb_seq) } } },
	{ .key = "r", .data_offset = offsetof(struct z, r), .value = { .type = CYAML_SEQUENCE_FIXED, .flags = P_ | O_, .data_size = sizeof(void *), .sequence = { .entry = &z_seq, .min = 1, .max = 1, CB(cb_seq) } } },
	{ .key = "b", .data_offset = offsetof(struct z, b), .value = { .type = CYAML_SEQUENCE_FIXED, .flags = P_ | O_, .data_size = 1, .sequence = { .entry = &z_u8, .min = 0, .max = 1 } } },
	CYAML_FIELD_END };
static const cyaml_schema_value_t zoo_schema = { .type = CYAML_MAPPING, .flags = P_ | ZFLAGS, .data_size = sizeof(struct z), .mapping = { .fields = z_f, CB(cb_map) } };
static const char *const zoo_keys[] = { "q", "r", "b" };
static const char *const zoo_vals[] = { "9" };

#elif ZOO == 15  /* keys and names that differ only by case, precedence of the case flags */
struct zi { uint8_t k; };
struct z { uint8_t a, b; struct zi c; int e; uint8_t fl; uint8_t bf; };
static const cyaml_strval_t z_str[] = { { "On", 1 }, { "oN", 2 } };
static const cyaml_bitdef_t z_bits[] = { { "Lo", 0, 2 }, { "lo", 2, 2 } };
#ifndef ZIFLAGS
#define ZIFLAGS 0
#endif
static const cyaml_schema_field_t zi_f[] = { CYAML_FIELD_UINT("Kk", O_, struct zi, k), CYAML_FIELD_END };
static const cyaml_schema_field_t z_f[] = {
	CYAML_FIELD_UINT("Ab", O_, struct z, a),
	CYAML_FIELD_UINT("aB", O_, struct z, b),
	CYAML_FIELD_MAPPING("c", O_ | ZIFLAGS, struct z, c, zi_f),
	{ .key = "e", .data_offset = offsetof(struct z, e), .value = { .type = CYAML_ENUM, .flags = O_ | ZIFLAGS, .data_size = 4, .enumeration = { .strings = z_str, .count = 2 } } },
	{ .key = "f", .data_offset = offsetof(struct z, fl), .value = { .type = CYAML_FLAGS, .flags = O_ | ZIFLAGS, .data_size = 1, .enumeration = { .strings = z_str, .count = 2 } } },
	{ .key = "g", .data_offset = offsetof(struct z, bf), .value = { .type = CYAML_BITFIELD, .flags = O_ | ZIFLAGS, .data_size = 1, .bitfield = { .bitdefs = z_bits, .count = 2 } } },
	CYAML_FIELD_END };
static const cyaml_schema_value_t zoo_schema = { .type = CYAML_MAPPING, .flags = P_ | ZFLAGS, .data_size = sizeof(struct z), .mapping = { .fields = z_f } };
static const char *const zoo_keys[] = { "Ab", "aB", "c", "e", "f", "g" };
static const char *const zoo_vals[] = { "1", "On" };

#elif ZOO == 16  /* more fields than bits in a word */
struct z { uint8_t v[40]; };
#define ZF(n, fl) { .key = "f" #n, .data_offset = n, .value = { .type = CYAML_UINT, .flags = fl, .data_size = 1, .unsigned_integer = { CB(cb_uint) .missing = n } } }
static const cyaml_schema_field_t z_f[] = {
	ZF(0, O_), ZF(1, O_), ZF(2, O_), ZF(3, O_), ZF(4, O_), ZF(5, O_), ZF(6, O_), ZF(7, O_), ZF(8, O_), ZF(9, O_),
	ZF(10, O_), ZF(11, O_), ZF(12, O_), ZF(13, O_), ZF(14, O_), ZF(15, O_), ZF(16, O_), ZF(17, O_), ZF(18, O_), ZF(19, O_),
	ZF(20, O_), ZF(21, O_), ZF(22, O_), ZF(23, O_), ZF(24, O_), ZF(25, O_), ZF(26, O_), ZF(27, O_), ZF(28, O_), ZF(29, O_),
	ZF(30, O_), ZF(31, O_), ZF(32, CYAML_FLAG_DEFAULT), ZF(33, O_), ZF(34, O_), ZF(35, O_), ZF(36, O_), ZF(37, O_), ZF(38, O_), ZF(39, O_),
	CYAML_FIELD_END };
static const cyaml_schema_value_t zoo_schema = { .type = CYAML_MAPPING, .flags = P_ | ZFLAGS, .data_size = sizeof(struct z), .mapping = { .fields = z_f, CB(cb_map) } };
static const char *const zoo_keys[] = { "f0", "f1", "f31", "f32", "f33", "f39" };
static const char *const zoo_vals[] = { "200", "x" };
#endif
#endif
