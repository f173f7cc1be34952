From e3cfd259ade1f8700db1ee0f91a13941b669352c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:16 +0000
Subject: [PATCH 01/23] fix: save: Allow empty sequences without an allocation.

Loading an empty sequence gives a NULL pointer and a count of zero.
Saving that data failed with CYAML_ERR_INVALID_VALUE.
---
 src/save.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/save.c b/src/save.c
index 6fbcfe3..982ce3c 100644
--- a/src/save.c
+++ b/src/save.c
@@ -1003,9 +1003,10 @@ static cyaml_err_t cyaml__write_value(
 				CYAML_FLAG_POINTER_NULL)) {
 			return cyaml__emit_scalar(ctx, schema, "",
 					YAML_STR_TAG);
-		} else {
+		} else if (schema->type != CYAML_SEQUENCE || seq_count != 0) {
 			return CYAML_ERR_INVALID_VALUE;
 		}
+		/* An empty sequence has no allocation; save it as empty. */
 	}
 
 	switch (schema->type) {
-- 
2.43.0


From b5272b32373f139f49f9b8239e5e963f19f9e058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:16 +0000
Subject: [PATCH 02/23] fix: save: Sign extend enum values before looking up
 their names.

Negative enumerators held in less than 64 bits were never matched.
---
 src/save.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/save.c b/src/save.c
index 982ce3c..d62c4bc 100644
--- a/src/save.c
+++ b/src/save.c
@@ -688,12 +688,15 @@ static cyaml_err_t cyaml__write_enum(
 		const uint8_t *data)
 {
 	int64_t number;
+	uint64_t raw;
 	cyaml_err_t err;
 
-	number = (int64_t)cyaml_data_read(schema->data_size, data, &err);
+	raw = cyaml_data_read(schema->data_size, data, &err);
 	if (err == CYAML_OK) {
 		const cyaml_strval_t *strings = schema->enumeration.strings;
 		const char *string = NULL;
+
+		number = cyaml_sign_pad(raw, schema->data_size);
 		for (uint32_t i = 0; i < schema->enumeration.count; i++) {
 			if (number == strings[i].val) {
 				string = strings[i].str;
-- 
2.43.0


From 3eae25b4da27ba7424372610a19ef7d6dce2633d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:42 +0000
Subject: [PATCH 03/23] fix: free: Step over whole fixed-length sequence
 entries.

When a sequence's entries are non-pointer fixed-length sequences, the
entry stride was the size of one inner entry, rather than of the whole
inner sequence, so inner allocations were freed twice, or never.
---
 src/free.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/free.c b/src/free.c
index 266cd7b..a64ec6f 100644
--- a/src/free.c
+++ b/src/free.c
@@ -60,13 +60,15 @@ static void cyaml__free_sequence(
 		uint64_t count)
 {
 	const cyaml_schema_value_t *schema = sequence_schema->sequence.entry;
-	uint32_t data_size = schema->data_size;
+	size_t data_size = schema->data_size;
 
 	cyaml__log(cfg, CYAML_LOG_DEBUG,
 			"Free: Freeing sequence with count: %u\n", count);
 
 	if (schema->flags & CYAML_FLAG_POINTER) {
 		data_size = sizeof(data);
+	} else if (schema->type == CYAML_SEQUENCE_FIXED) {
+		data_size *= schema->sequence.max;
 	}
 
 	for (unsigned i = 0; i < count; i++) {
-- 
2.43.0


From 8f8b9fde47ff63b3a5f1ddbd90dde58c0fead5a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:42 +0000
Subject: [PATCH 04/23] fix: free: Free the fields after one with a bad count
 size.

A sequence field with an invalid count_size made cyaml_free (and so the
cleanup in a failed load) leak the allocations of all later fields.
---
 src/free.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/free.c b/src/free.c
index a64ec6f..817f351 100644
--- a/src/free.c
+++ b/src/free.c
@@ -102,7 +102,10 @@ static void cyaml__free_mapping(
 			count = cyaml_data_read(schema->count_size,
 					data + schema->count_offset, &err);
 			if (err != CYAML_OK) {
-				return;
+				/* Can't know the count for this one, but the
+				 * other fields may own allocations. */
+				schema++;
+				continue;
 			}
 		}
 		cyaml__free_value(cfg, &schema->value,
-- 
2.43.0


From 41dec8f82f1509f1d08f6dc5e9825201b92787e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:10 +0000
Subject: [PATCH 05/23] fix: copy: Use the real entry size for top-level
 sequences.

The entry schema's data_size isn't the size of an entry in the array when
entries are pointers or fixed-length sequences, so the allocation for the
copy of a non-pointer top-level sequence could be too small.
---
 src/copy.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/copy.c b/src/copy.c
index 64176aa..06fabc5 100644
--- a/src/copy.c
+++ b/src/copy.c
@@ -647,9 +647,18 @@ static size_t cyaml__get_data_len(
 		const cyaml_schema_value_t *schema,
 		unsigned seq_count)
 {
-	size_t len = cyaml__is_sequence(schema) ?
-			schema->sequence.entry->data_size :
-			schema->data_size;
+	size_t len = schema->data_size;
+
+	if (cyaml__is_sequence(schema)) {
+		const cyaml_schema_value_t *entry = schema->sequence.entry;
+
+		len = entry->data_size;
+		if (entry->flags & CYAML_FLAG_POINTER) {
+			len = sizeof(entry);
+		} else if (entry->type == CYAML_SEQUENCE_FIXED) {
+			len *= entry->sequence.max;
+		}
+	}
 
 	if (schema->type == CYAML_SEQUENCE) {
 		len *= seq_count;
-- 
2.43.0


From af9402ad4a7e45839bcbdd132bd8dafc38dd299f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:10 +0000
Subject: [PATCH 06/23] fix: copy: Handle NULL pointers that are valid values.

Values with CYAML_FLAG_POINTER_NULL and sequences with no entries may
legitimately be NULL in loaded data, but copying such data failed. An
optional NULL sequence was left on the state stack, so its entries got
copied from, and to, the wrong place.
---
 src/copy.c | 31 +++++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/src/copy.c b/src/copy.c
index 06fabc5..83fce78 100644
--- a/src/copy.c
+++ b/src/copy.c
@@ -396,6 +396,25 @@ static cyaml_err_t cyaml__write_sequence_count(
 	return err;
 }
 
+/**
+ * Check whether a NULL pointer is a valid value.
+ *
+ * \param[in]  schema     The schema for the value to be copied.
+ * \param[in]  seq_count  Entry count for sequence values.
+ * \return true if the value may be NULL, false otherwise.
+ */
+static inline bool cyaml__null_allowed(
+		const cyaml_schema_value_t *schema,
+		uint64_t seq_count)
+{
+	if (cyaml__flag_check_all(schema->flags, CYAML_FLAG_POINTER_NULL)) {
+		return true;
+	}
+
+	/* Empty sequences don't need an allocation. */
+	return (schema->type == CYAML_SEQUENCE) && (seq_count == 0);
+}
+
 /**
  * Handle a YAML event corresponding to a YAML data value.
  *
@@ -426,7 +445,10 @@ static cyaml_err_t cyaml__clone_value(
 		 * they're handled in the sequence-specific code.
 		 */
 		err = cyaml__data_handle_pointer(ctx, schema, &data, &copy);
-		if (err != CYAML_OK) {
+		if (err == CYAML_ERR_BAD_PARAM_NULL_DATA &&
+		    cyaml__null_allowed(schema, seq_count)) {
+			return CYAML_OK;
+		} else if (err != CYAML_OK) {
 			return err;
 		}
 	}
@@ -457,7 +479,12 @@ static cyaml_err_t cyaml__clone_value(
 		}
 		ctx->state->sequence.count = seq_count;
 		err = cyaml__data_handle_pointer(ctx, schema, &data, &copy);
-		if (err != CYAML_OK) {
+		if (err == CYAML_ERR_BAD_PARAM_NULL_DATA) {
+			/* No data, so there are no entries to be copied. */
+			cyaml__stack_pop(ctx);
+			return cyaml__null_allowed(schema, seq_count) ?
+					CYAML_OK : err;
+		} else if (err != CYAML_OK) {
 			return err;
 		}
 		err = cyaml__write_sequence_count(ctx, schema, seq_count);
-- 
2.43.0


From 3c720b0d35268dc37e8bddb27f26b0d66031cd03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:22 +0000
Subject: [PATCH 07/23] fix: utf8: Don't skip over bytes after a truncated
 character.

When a continuation byte was missing, the character's length was reduced
by the number of valid bytes, rather than to it.  A case-insensitive
comparison could step over a string's terminator and read beyond it.
---
 src/utf8.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utf8.c b/src/utf8.c
index 6e32218..58e4f27 100644
--- a/src/utf8.c
+++ b/src/utf8.c
@@ -63,7 +63,7 @@ unsigned cyaml_utf8_get_codepoint(
 			if ((s[i] & 0xc0) != 0x80) {
 				/* Need to shorten length so we don't consume
 				 * this byte with this invalid character. */
-				*len -= i;
+				*len = i;
 				goto invalid;
 			}
 
-- 
2.43.0


From caa7b37fb5f2e9d92cf3929ed475ed6c59d88007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:40 +0000
Subject: [PATCH 08/23] fix: load: Reject negative numbers for unsigned values.

The negation of the number was done modulo 2^64, so 64-bit values accepted
-1, and any size accepted numbers such as -18446744073709551615 (as 1).
---
 src/load.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/load.c b/src/load.c
index b0c8483..118749c 100644
--- a/src/load.c
+++ b/src/load.c
@@ -1899,6 +1899,14 @@ static inline cyaml_err_t cyaml__read_uint64_t(
 		return CYAML_ERR_INVALID_VALUE;
 	}
 
+	/* Note: strtoull() wraps negative numbers, rather than rejecting. */
+	if (temp != 0 && strchr(value, '-') != NULL) {
+		cyaml__log(ctx->config, CYAML_LOG_ERROR,
+				"Load: Negative uint64_t value: '%s'\n",
+				value);
+		return CYAML_ERR_INVALID_VALUE;
+	}
+
 	*out = (uint64_t)temp;
 	return CYAML_OK;
 }
-- 
2.43.0


From 1bb4fb540d59a0964285386edec3bf186a8815dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:40 +0000
Subject: [PATCH 09/23] fix: load: Read numerical flags as unsigned 64-bit
 values.

Numerical flags are documented as unsigned, and are saved as such, but
values with the top bit set could not be loaded.
---
 src/load.c | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/load.c b/src/load.c
index 118749c..c661f80 100644
--- a/src/load.c
+++ b/src/load.c
@@ -2149,16 +2149,12 @@ static cyaml_err_t cyaml__set_flag(
 	}
 
 	if (!(schema->flags & CYAML_FLAG_STRICT)) {
-		long long temp;
-		char *end = NULL;
+		uint64_t temp;
 		uint64_t max = (~(uint64_t)0) >> ((8 - schema->data_size) * 8);
 
-		errno = 0;
-		temp = strtoll(value, &end, 0);
-
-		if (!(end == value || end == NULL || *end != '\0' ||
-		      errno == ERANGE || temp < 0 || (uint64_t)temp > max)) {
-			*flags_out |= ((uint64_t)temp);
+		if (cyaml__read_uint64_t(ctx, value, &temp) == CYAML_OK &&
+		    temp <= max) {
+			*flags_out |= temp;
 			return CYAML_OK;
 		}
 	}
@@ -2190,7 +2186,7 @@ static cyaml_err_t cyaml__read_flags_value(
 	cyaml_err_t err = CYAML_OK;
 	const yaml_event_t *const event = cyaml__current_event(ctx);
 
-	if (schema->data_size == 0) {
+	if (schema->data_size == 0 || schema->data_size > sizeof(value)) {
 		return CYAML_ERR_INVALID_DATA_SIZE;
 	}
 
-- 
2.43.0


From 1c74fa21e49ac3c0ea9500b9fd4275db1f1d66f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:40 +0000
Subject: [PATCH 10/23] fix: bitfield: Reject schemas that need out of range
 shifts.

A bit value without bits shifted a 64-bit integer by 64, which let values
of any size through, and a data size over 8 allowed bit offsets over 63.
---
 src/load.c | 7 ++++++-
 src/save.c | 3 ++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/load.c b/src/load.c
index c661f80..5b07039 100644
--- a/src/load.c
+++ b/src/load.c
@@ -2245,7 +2245,8 @@ static cyaml_err_t cyaml__get_bitval_index(
 	uint32_t i;
 
 	for (i = 0; i < schema->bitfield.count; i++) {
-		if (bitdef[i].bits + bitdef[i].offset > schema->data_size * 8) {
+		if (bitdef[i].bits == 0 || bitdef[i].bits +
+				bitdef[i].offset > schema->data_size * 8) {
 			return CYAML_ERR_BAD_BITVAL_IN_SCHEMA;
 		}
 		if (cyaml__strcmp(ctx->config, schema,
@@ -2342,6 +2343,10 @@ static cyaml_err_t cyaml__read_bitfield_value(
 	cyaml_err_t err = CYAML_OK;
 	const yaml_event_t *const event = cyaml__current_event(ctx);
 
+	if (schema->data_size == 0 || schema->data_size > sizeof(value)) {
+		return CYAML_ERR_INVALID_DATA_SIZE;
+	}
+
 	while (!exit) {
 		cyaml_event_t cyaml_event;
 		err = cyaml_get_next_event(ctx);
diff --git a/src/save.c b/src/save.c
index d62c4bc..aa07475 100644
--- a/src/save.c
+++ b/src/save.c
@@ -913,7 +913,8 @@ static cyaml_err_t cyaml__emit_bitfield_mapping(
 		uint64_t value;
 		uint64_t mask;
 
-		if (bitdef[i].bits + bitdef[i].offset > schema->data_size * 8) {
+		if (bitdef[i].bits == 0 || bitdef[i].bits +
+				bitdef[i].offset > schema->data_size * 8) {
 			return CYAML_ERR_BAD_BITVAL_IN_SCHEMA;
 		}
 
-- 
2.43.0


From e93aecf2e08dde66a82cb1f3360cf65f49107d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:40 +0000
Subject: [PATCH 11/23] fix: load: Reject sequences with more entries than fit
 in the count.

The count was truncated to the size of the client's count member, so the
entries beyond were lost to the client, and leaked by cyaml_free.
---
 src/load.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/load.c b/src/load.c
index 5b07039..13cdc43 100644
--- a/src/load.c
+++ b/src/load.c
@@ -2827,6 +2827,18 @@ static cyaml_err_t cyaml__seq_entry(
 		return CYAML_ERR_SEQUENCE_ENTRIES_MAX;
 	}
 
+	if (schema->type != CYAML_SEQUENCE_FIXED &&
+	    state->sequence.count_size < sizeof(state->sequence.count) &&
+	    (((uint64_t)state->sequence.count + 1) >>
+			(8 * state->sequence.count_size)) != 0 &&
+	    state->sequence.count_size != 0) {
+		cyaml__log(ctx->config, CYAML_LOG_ERROR,
+				"Load: Excessive entries for size of count "
+				"(%"PRIu64" bytes) in sequence.\n",
+				(uint64_t)state->sequence.count_size);
+		return CYAML_ERR_SEQUENCE_ENTRIES_MAX;
+	}
+
 	err = cyaml__data_handle_pointer(ctx, schema, event, &value_data);
 	if (err != CYAML_OK) {
 		return err;
-- 
2.43.0


From 961a27cffb94b67906b269ca7906933d2c95d732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:40 +0000
Subject: [PATCH 12/23] fix: load: Pass the sequence's entries to its
 validation callback.

For sequences with CYAML_FLAG_POINTER, the callback got the address of
the pointer, unlike mapping validation callbacks, which get the value.
---
 src/load.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/load.c b/src/load.c
index 13cdc43..657a26b 100644
--- a/src/load.c
+++ b/src/load.c
@@ -2903,9 +2903,12 @@ static cyaml_err_t cyaml__seq_end(
 	}
 
 	if (schema->sequence.validation_cb != NULL) {
+		const cyaml_data_t *seq = (schema->flags & CYAML_FLAG_POINTER) ?
+				state->sequence.data : state->data;
+
 		if (!schema->sequence.validation_cb(
 				ctx->config->validation_ctx,
-				schema, state->data, state->sequence.count)) {
+				schema, seq, state->sequence.count)) {
 			return CYAML_ERR_INVALID_VALUE;
 		}
 	}
-- 
2.43.0


From 763bd8fe8bac2ad5f1af72deb6c2c0167220dd0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:40 +0000
Subject: [PATCH 13/23] fix: load: Reject underflow of strict single precision
 floats.

The text is converted to double precision first, so values too small for
a float were stored as zero, despite CYAML_FLAG_STRICT.
---
 src/load.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/load.c b/src/load.c
index 657a26b..2b586be 100644
--- a/src/load.c
+++ b/src/load.c
@@ -426,6 +426,13 @@ static cyaml_err_t cyaml__store_float(
 
 		fvalue = (float)value;
 
+		if (cyaml__flag_check_all(schema->flags, CYAML_FLAG_STRICT)) {
+			if ((double)fvalue != value &&
+			    fvalue > -FLT_MIN && fvalue < FLT_MIN) {
+				return CYAML_ERR_INVALID_VALUE;
+			}
+		}
+
 		if (validate_cb != NULL) {
 			if (!validate_cb(ctx->config->validation_ctx,
 					schema, fvalue)) {
-- 
2.43.0


From 4a8254917a9d8241a43c3100c33061e2f34b3ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:40 +0000
Subject: [PATCH 14/23] fix: save: Only emit multi-bit flags when all their
 bits are set.

A flag with several bits was emitted when any of them was set, so loading
the saved document gave a value with additional bits set.
---
 src/save.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/save.c b/src/save.c
index aa07475..c286607 100644
--- a/src/save.c
+++ b/src/save.c
@@ -806,14 +806,15 @@ static cyaml_err_t cyaml__write_scalar_value(
  *
  * \param[in]  ctx     The CYAML saving context.
  * \param[in]  schema  The schema for the value to be written.
- * \param[in]  number  The value of the flag data.
+ * \param[in]  value   The value of the flag data.
  * \return \ref CYAML_OK on success, or appropriate error code otherwise.
  */
 static cyaml_err_t cyaml__emit_flags_sequence(
 		const cyaml_ctx_t *ctx,
 		const cyaml_schema_value_t *schema,
-		uint64_t number)
+		uint64_t value)
 {
+	uint64_t number = value;
 	yaml_event_t event;
 	cyaml_err_t err;
 	int ret;
@@ -830,7 +831,7 @@ static cyaml_err_t cyaml__emit_flags_sequence(
 	for (uint32_t i = 0; i < schema->enumeration.count; i++) {
 		const cyaml_strval_t *strval = &schema->enumeration.strings[i];
 		uint64_t flag = (uint64_t)strval->val;
-		if (number & flag) {
+		if ((number & flag) != 0 && (value & flag) == flag) {
 			err = cyaml__emit_scalar(ctx, schema, strval->str,
 					YAML_STR_TAG);
 			if (err != CYAML_OK) {
-- 
2.43.0


From 9855b0bc73be329dc9d1156b832cf1bf896a0268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:40 +0000
Subject: [PATCH 15/23] fix: save: Report failure to write out the file when
 closing it.

The document is usually only written when the stream is closed, so a full
disk went unnoticed, and cyaml_save_file returned CYAML_OK.
---
 src/save.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/save.c b/src/save.c
index c286607..0e2c507 100644
--- a/src/save.c
+++ b/src/save.c
@@ -1388,7 +1388,9 @@ cyaml_err_t cyaml_save_file(
 
 	/* Cleanup */
 	yaml_emitter_delete(&emitter);
-	fclose(file);
+	if (fclose(file) != 0) {
+		return CYAML_ERR_LIBYAML_EMITTER;
+	}
 
 	return CYAML_OK;
 }
-- 
2.43.0


From ed7fa6f1fae01f05ccdd385f49de75ff0a5e8d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:40 +0000
Subject: [PATCH 16/23] fix: save: Don't keep number strings in static buffers.

Concurrent saves, or a save from within a client's callbacks, could
overwrite the text of a number before it was emitted.
---
 src/save.c | 45 +++++++++++++++++++++++++++------------------
 1 file changed, 27 insertions(+), 18 deletions(-)

diff --git a/src/save.c b/src/save.c
index 0e2c507..1f32a52 100644
--- a/src/save.c
+++ b/src/save.c
@@ -504,17 +504,20 @@ static cyaml_err_t cyaml__emit_scalar(
 	return cyaml__emit_event_helper(ctx, ret, &event);
 }
 
+/** Size of buffers for the string representations of numbers. */
+#define CYAML_NUMBER_LEN 64
+
 /**
  * Convert signed integer to string.
  *
+ * \param[in]  string Buffer for the string.
  * \param[in]  value  The integer to convert.
  * \return String conversion of the value.
  */
 static const char * cyaml__get_int(
+		char string[CYAML_NUMBER_LEN],
 		int64_t value)
 {
-	static char string[32];
-
 	sprintf(string, "%"PRIi64, value);
 
 	return string;
@@ -523,15 +526,15 @@ static const char * cyaml__get_int(
 /**
  * Convert unsigned integer to string.
  *
+ * \param[in]  string Buffer for the string.
  * \param[in]  value  The integer to convert.
  * \param[in]  hex    Whether to render the number as hexadecimal.
  * \return String conversion of the value.
  */
 static const char * cyaml__get_uint(
+		char string[CYAML_NUMBER_LEN],
 		uint64_t value, bool hex)
 {
-	static char string[32];
-
 	if (hex) {
 		sprintf(string, "0x%"PRIx64, value);
 	} else {
@@ -544,14 +547,14 @@ static const char * cyaml__get_uint(
 /**
  * Get string representation for single precision floating point values.
  *
+ * \param[in]  string Buffer for the string.
  * \param[in]  value  The value to convert.
  * \return String conversion of the value.
  */
 static const char * cyaml__get_float(
+		char string[CYAML_NUMBER_LEN],
 		double value)
 {
-	static char string[64];
-
 	sprintf(string, "%g", value);
 
 	return string;
@@ -560,14 +563,14 @@ static const char * cyaml__get_float(
 /**
  * Get string representation for double precision floating point values.
  *
+ * \param[in]  string Buffer for the string.
  * \param[in]  value  The value to convert.
  * \return String conversion of the value.
  */
 static const char * cyaml__get_double(
+		char string[CYAML_NUMBER_LEN],
 		double value)
 {
-	static char string[64];
-
 	sprintf(string, "%.16e", value);
 
 	return string;
@@ -611,6 +614,7 @@ static cyaml_err_t cyaml__write_int(
 	cyaml_err_t err;
 	int64_t number;
 	uint64_t raw;
+	char string[CYAML_NUMBER_LEN];
 
 	raw = cyaml_data_read(schema->data_size, data, &err);
 	if (err != CYAML_OK) {
@@ -620,7 +624,7 @@ static cyaml_err_t cyaml__write_int(
 	number = cyaml_sign_pad(raw, schema->data_size);
 
 	return cyaml__emit_scalar(ctx, schema,
-			cyaml__get_int(number),
+			cyaml__get_int(string, number),
 			YAML_INT_TAG);
 }
 
@@ -642,8 +646,10 @@ static cyaml_err_t cyaml__write_uint(
 
 	number = cyaml_data_read(schema->data_size, data, &err);
 	if (err == CYAML_OK) {
-		const char *string = cyaml__get_uint(number, false);
-		err = cyaml__emit_scalar(ctx, schema, string, YAML_INT_TAG);
+		char string[CYAML_NUMBER_LEN];
+		err = cyaml__emit_scalar(ctx, schema,
+				cyaml__get_uint(string, number, false),
+				YAML_INT_TAG);
 	}
 
 	return err;
@@ -735,17 +741,18 @@ static cyaml_err_t cyaml__write_float(
 		const cyaml_schema_value_t *schema,
 		const uint8_t *data)
 {
+	char buffer[CYAML_NUMBER_LEN];
 	const char *string = NULL;
 
 	if (schema->data_size == sizeof(float)) {
 		float number;
 		memcpy(&number, data, schema->data_size);
-		string = cyaml__get_float(number);
+		string = cyaml__get_float(buffer, number);
 
 	} else if (schema->data_size == sizeof(double)) {
 		double number;
 		memcpy(&number, data, schema->data_size);
-		string = cyaml__get_double(number);
+		string = cyaml__get_double(buffer, number);
 	} else {
 		return CYAML_ERR_INVALID_DATA_SIZE;
 	}
@@ -844,8 +851,9 @@ static cyaml_err_t cyaml__emit_flags_sequence(
 		if (schema->flags & CYAML_FLAG_STRICT) {
 			return CYAML_ERR_INVALID_VALUE;
 		} else {
-			const char *string = cyaml__get_uint(number, false);
-			err = cyaml__emit_scalar(ctx, schema, string,
+			char string[CYAML_NUMBER_LEN];
+			err = cyaml__emit_scalar(ctx, schema,
+					cyaml__get_uint(string, number, false),
 					YAML_STR_TAG);
 			if (err != CYAML_OK) {
 				return err;
@@ -910,7 +918,7 @@ static cyaml_err_t cyaml__emit_bitfield_mapping(
 	}
 
 	for (uint32_t i = 0; i < schema->bitfield.count; i++) {
-		const char *value_str;
+		char value_str[CYAML_NUMBER_LEN];
 		uint64_t value;
 		uint64_t mask;
 
@@ -937,8 +945,9 @@ static cyaml_err_t cyaml__emit_bitfield_mapping(
 		}
 
 		/* Emit bitfield value's value */
-		value_str = cyaml__get_uint(value, true);
-		err = cyaml__emit_scalar(ctx, schema, value_str, YAML_INT_TAG);
+		err = cyaml__emit_scalar(ctx, schema,
+				cyaml__get_uint(value_str, value, true),
+				YAML_INT_TAG);
 		if (err != CYAML_OK) {
 			return err;
 		}
-- 
2.43.0


From 2229cf6418da9170c9b2d20540c1dc6801392746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:11 +0000
Subject: [PATCH 17/23] fix: log: Name the right field and entry in save and
 copy backtraces.

The field was already advanced when the backtrace was logged, so it named the
next field, or passed NULL for '%s' for a mapping's last field.  The number of
entries was logged in place of the number of the entry.
---
 src/copy.c | 16 +++++++++++-----
 src/save.c | 24 +++++++++++++++---------
 2 files changed, 26 insertions(+), 14 deletions(-)

diff --git a/src/copy.c b/src/copy.c
index 83fce78..a9e49c8 100644
--- a/src/copy.c
+++ b/src/copy.c
@@ -306,15 +306,21 @@ static void cyaml__backtrace(
 		switch (state->state) {
 		case CYAML_STATE_IN_MAP_KEY: /* Fall through. */
 		case CYAML_STATE_IN_MAP_VALUE:
-			assert(state->mapping.field != NULL);
-			cyaml__log(ctx->config, CYAML_LOG_ERROR,
-					"  in mapping field: %s\n",
-					state->mapping.field->key);
+			/* The field is advanced before it is handled. */
+			if (state->mapping.field !=
+					state->schema->mapping.fields) {
+				cyaml__log(ctx->config, CYAML_LOG_ERROR,
+						"  in mapping field: %s\n",
+						state->mapping.field[-1].key);
+			} else {
+				cyaml__log(ctx->config, CYAML_LOG_ERROR,
+						"  in mapping\n");
+			}
 			break;
 		case CYAML_STATE_IN_SEQUENCE:
 			cyaml__log(ctx->config, CYAML_LOG_ERROR,
 					"  in sequence entry: %"PRIu64"\n",
-					state->sequence.count);
+					state->sequence.entry);
 			break;
 		default:
 			break;
diff --git a/src/save.c b/src/save.c
index 1f32a52..03d6f27 100644
--- a/src/save.c
+++ b/src/save.c
@@ -451,15 +451,21 @@ static void cyaml__backtrace(
 		switch (state->state) {
 		case CYAML_STATE_IN_MAP_KEY: /* Fall through. */
 		case CYAML_STATE_IN_MAP_VALUE:
-			assert(state->mapping.field != NULL);
-			cyaml__log(ctx->config, CYAML_LOG_ERROR,
-					"  in mapping field: %s\n",
-					state->mapping.field->key);
+			/* The field is advanced before it is handled. */
+			if (state->mapping.field !=
+					state->schema->mapping.fields) {
+				cyaml__log(ctx->config, CYAML_LOG_ERROR,
+						"  in mapping field: %s\n",
+						state->mapping.field[-1].key);
+			} else {
+				cyaml__log(ctx->config, CYAML_LOG_ERROR,
+						"  in mapping\n");
+			}
 			break;
 		case CYAML_STATE_IN_SEQUENCE:
 			cyaml__log(ctx->config, CYAML_LOG_ERROR,
 					"  in sequence entry: %"PRIu32"\n",
-					state->sequence.count);
+					state->sequence.entry);
 			break;
 		default:
 			/** \todo \ref CYAML_STATE_IN_DOC handling for multi
@@ -1154,16 +1160,16 @@ static cyaml_err_t cyaml__write_mapping(
 			}
 		}
 
+		/* Advance the field before writing value, since writing the
+		 * value can put a new state entry on the stack. */
+		ctx->state->mapping.field++;
+
 		err = cyaml__emit_scalar(ctx, ctx->state->schema,
 				field->key, YAML_STR_TAG);
 		if (err != CYAML_OK) {
 			return err;
 		}
 
-		/* Advance the field before writing value, since writing the
-		 * value can put a new state entry on the stack. */
-		ctx->state->mapping.field++;
-
 		if (field->value.type == CYAML_SEQUENCE) {
 			seq_count = cyaml_data_read(field->count_size,
 					ctx->state->data + field->count_offset,
-- 
2.43.0


From ed2854559ae452b7542a1ceec8a01b34f677f673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:11 +0000
Subject: [PATCH 18/23] fix: load: Don't name a field in backtraces before the
 first key.

For a mapping without fields, it passed the key of the terminating field, NULL,
for '%s'.
---
 src/load.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/load.c b/src/load.c
index 2b586be..9e7e9c7 100644
--- a/src/load.c
+++ b/src/load.c
@@ -1581,6 +1581,7 @@ static cyaml_err_t cyaml__stack_push(
 		s.mapping.fields = schema->mapping.fields;
 		s.mapping.fields_count = cyaml__get_mapping_field_count(
 				schema->mapping.fields);
+		s.mapping.fields_idx = CYAML_FIELDS_IDX_NONE;
 		err = cyaml__mapping_bitfieid_create(ctx, &s);
 		if (err != CYAML_OK) {
 			return err;
-- 
2.43.0


From 7ed3529d0039a10c735da4c527b5db01e60ade9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:45 +0000
Subject: [PATCH 19/23] fix: log: Match format specifiers with the arguments.

64-bit values were passed for '%u', so they, and any arguments after them,
could be logged wrongly.
---
 src/free.c | 4 +++-
 src/load.c | 2 +-
 src/save.c | 4 ++--
 3 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/free.c b/src/free.c
index 817f351..9162611 100644
--- a/src/free.c
+++ b/src/free.c
@@ -25,6 +25,7 @@
 #include <stdbool.h>
 #include <assert.h>
 #include <string.h>
+#include <inttypes.h>
 
 #include "data.h"
 #include "util.h"
@@ -63,7 +64,8 @@ static void cyaml__free_sequence(
 	size_t data_size = schema->data_size;
 
 	cyaml__log(cfg, CYAML_LOG_DEBUG,
-			"Free: Freeing sequence with count: %u\n", count);
+			"Free: Freeing sequence with count: %"PRIu64"\n",
+			count);
 
 	if (schema->flags & CYAML_FLAG_POINTER) {
 		data_size = sizeof(data);
diff --git a/src/load.c b/src/load.c
index 9e7e9c7..fad03cb 100644
--- a/src/load.c
+++ b/src/load.c
@@ -286,7 +286,7 @@ static inline cyaml_err_t cyaml__validate_uint(
 	if ((min != 0 || max != 0) && (value < min || value > max)) {
 		cyaml__log(ctx->config, CYAML_LOG_ERROR,
 				"Load: UINT value '%" PRIu64 "' out of range "
-				"(min: %" PRIu64 " max: % " PRIu64 ")\n",
+				"(min: %" PRIu64 " max: %" PRIu64 ")\n",
 				value, min, max);
 		return CYAML_ERR_INVALID_VALUE;
 	}
diff --git a/src/save.c b/src/save.c
index 03d6f27..1e2783f 100644
--- a/src/save.c
+++ b/src/save.c
@@ -464,7 +464,7 @@ static void cyaml__backtrace(
 			break;
 		case CYAML_STATE_IN_SEQUENCE:
 			cyaml__log(ctx->config, CYAML_LOG_ERROR,
-					"  in sequence entry: %"PRIu32"\n",
+					"  in sequence entry: %"PRIu64"\n",
 					state->sequence.entry);
 			break;
 		default:
@@ -1232,7 +1232,7 @@ static cyaml_err_t cyaml__write_sequence(
 		offset = data_size * ctx->state->sequence.entry;
 
 		cyaml__log(ctx->config, CYAML_LOG_INFO,
-				"Save: Sequence entry %u of %u\n",
+				"Save: Sequence entry %"PRIu64" of %"PRIu64"\n",
 				ctx->state->sequence.entry + 1,
 				ctx->state->sequence.count);
 
-- 
2.43.0


From 8a0c6425885821be179211c87ff778f4fcd25538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:51 +0000
Subject: [PATCH 20/23] fix: log: Don't pass NULL for '%s' when libyaml gives
 no reason.

Neither the parser nor the emitter sets the problem when out of memory.
---
 src/load.c | 4 +++-
 src/save.c | 8 ++++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/load.c b/src/load.c
index fad03cb..c711b4f 100644
--- a/src/load.c
+++ b/src/load.c
@@ -1060,7 +1060,9 @@ static cyaml_err_t cyaml_get_next_event(
 		if (!yaml_parser_parse(ctx->parser, event)) {
 			cyaml__log(ctx->config, CYAML_LOG_ERROR,
 					"Load: libyaml: %s\n",
-					ctx->parser->problem);
+					(ctx->parser->problem != NULL) ?
+					ctx->parser->problem :
+					"unknown problem");
 			return CYAML_ERR_LIBYAML_PARSER;
 		}
 		e_ctx->have_event = true;
diff --git a/src/save.c b/src/save.c
index 1e2783f..fd2f5e0 100644
--- a/src/save.c
+++ b/src/save.c
@@ -132,7 +132,9 @@ static cyaml_err_t cyaml__emit_event_helper(
 	if (valid == 0) {
 		cyaml__log(ctx->config, CYAML_LOG_ERROR,
 				"Save: LibYAML: Failed to emit event: %s\n",
-				ctx->emitter->problem);
+				(ctx->emitter->problem != NULL) ?
+				ctx->emitter->problem :
+				"unknown problem");
 		return CYAML_ERR_LIBYAML_EMITTER;
 	}
 
@@ -1351,7 +1353,9 @@ static cyaml_err_t cyaml__save(
 	if (!yaml_emitter_flush(emitter)) {
 		cyaml__log(config, CYAML_LOG_ERROR,
 				"Save: LibYAML: Failed to flush emitter: %s\n",
-				emitter->problem);
+				(emitter->problem != NULL) ?
+				emitter->problem :
+				"unknown problem");
 		err = CYAML_ERR_LIBYAML_EMITTER;
 	}
 
-- 
2.43.0


From 9c978af259ae7b9d68068e408dd5dd9edbafc7df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:38 +0000
Subject: [PATCH 21/23] fix: save single precision values with enough digits to
 load them again

A float was saved with six significant digits, so values such as 16777217.0f
or 123456.78f came back as different numbers.
---
 src/save.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/save.c b/src/save.c
index fd2f5e0..f524bb7 100644
--- a/src/save.c
+++ b/src/save.c
@@ -14,8 +14,10 @@
 
 #include <inttypes.h>
 #include <stdbool.h>
+#include <stdlib.h>
 #include <assert.h>
 #include <limits.h>
+#include <float.h>
 
 #include <yaml.h>
 
@@ -555,15 +557,24 @@ static const char * cyaml__get_uint(
 /**
  * Get string representation for single precision floating point values.
  *
+ * Uses as few significant digits as are needed to get the same value back,
+ * when the string is converted to a float again.
+ *
  * \param[in]  string Buffer for the string.
  * \param[in]  value  The value to convert.
  * \return String conversion of the value.
  */
 static const char * cyaml__get_float(
 		char string[CYAML_NUMBER_LEN],
-		double value)
+		float value)
 {
-	sprintf(string, "%g", value);
+	/* Nine significant digits identify any single precision value. */
+	for (int digits = FLT_DIG; digits <= 9; digits++) {
+		sprintf(string, "%.*g", digits, (double)value);
+		if ((float)strtod(string, NULL) == value) {
+			break;
+		}
+	}
 
 	return string;
 }
-- 
2.43.0


From 484a1b984f2eca0497d924d2bf1d42e9183e3169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:34 +0000
Subject: [PATCH 22/23] fix: load: Accept an empty array as default for a
 sequence.

---
 src/load.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/load.c b/src/load.c
index c711b4f..ef020b0 100644
--- a/src/load.c
+++ b/src/load.c
@@ -1449,6 +1449,10 @@ static cyaml_err_t cyaml__field_apply_default(
 		schema_default = schema->sequence.missing;
 		if (schema->type == CYAML_SEQUENCE) {
 			seq_count = schema->sequence.missing_count;
+			if (seq_count == 0) {
+				/* An empty sequence: nothing to copy. */
+				return CYAML_OK;
+			}
 		} else {
 			seq_count = schema->sequence.max;
 		}
-- 
2.43.0


From a11d2def13e5461d4344669f4252126c43a797f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:34 +0000
Subject: [PATCH 23/23] fix: copy: Handle allocated sequences without entries.

---
 src/copy.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/copy.c b/src/copy.c
index a9e49c8..93e9513 100644
--- a/src/copy.c
+++ b/src/copy.c
@@ -484,6 +484,12 @@ static cyaml_err_t cyaml__clone_value(
 			return err;
 		}
 		ctx->state->sequence.count = seq_count;
+		if (schema->type == CYAML_SEQUENCE && seq_count == 0 &&
+		    (schema->flags & CYAML_FLAG_POINTER)) {
+			/* There are no entries to allocate memory for. */
+			cyaml__stack_pop(ctx);
+			return CYAML_OK;
+		}
 		err = cyaml__data_handle_pointer(ctx, schema, &data, &copy);
 		if (err == CYAML_ERR_BAD_PARAM_NULL_DATA) {
 			/* No data, so there are no entries to be copied. */
-- 
2.43.0

