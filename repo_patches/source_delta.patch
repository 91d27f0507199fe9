From f6d386a011cbac3107ea6a48ab118f3ac3879297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:43 +0000
Subject: [PATCH 01/30] fix: save: format numbers in caller buffers rather than
 shared statics

Concurrent saves from different threads (and saves made from inside a
log callback) raced on function-local static buffers and could emit each
other's numbers.
---
 src/save.c | 64 +++++++++++++++++++++++++++++++-----------------------
 1 file changed, 37 insertions(+), 27 deletions(-)

diff --git a/src/save.c b/src/save.c
index 6fbcfe3..7fad6b1 100644
--- a/src/save.c
+++ b/src/save.c
@@ -504,17 +504,20 @@ static cyaml_err_t cyaml__emit_scalar(
 	return cyaml__emit_event_helper(ctx, ret, &event);
 }
 
+/** Size of buffer needed for any number converted to a string. */
+#define CYAML_NUMBER_STRING_SIZE 64
+
 /**
  * Convert signed integer to string.
  *
- * \param[in]  value  The integer to convert.
+ * \param[in]  value   The integer to convert.
+ * \param[in]  string  Buffer of CYAML_NUMBER_STRING_SIZE bytes to write to.
  * \return String conversion of the value.
  */
 static const char * cyaml__get_int(
-		int64_t value)
+		int64_t value,
+		char *string)
 {
-	static char string[32];
-
 	sprintf(string, "%"PRIi64, value);
 
 	return string;
@@ -523,15 +526,16 @@ static const char * cyaml__get_int(
 /**
  * Convert unsigned integer to string.
  *
- * \param[in]  value  The integer to convert.
- * \param[in]  hex    Whether to render the number as hexadecimal.
+ * \param[in]  value   The integer to convert.
+ * \param[in]  hex     Whether to render the number as hexadecimal.
+ * \param[in]  string  Buffer of CYAML_NUMBER_STRING_SIZE bytes to write to.
  * \return String conversion of the value.
  */
 static const char * cyaml__get_uint(
-		uint64_t value, bool hex)
+		uint64_t value,
+		bool hex,
+		char *string)
 {
-	static char string[32];
-
 	if (hex) {
 		sprintf(string, "0x%"PRIx64, value);
 	} else {
@@ -544,14 +548,14 @@ static const char * cyaml__get_uint(
 /**
  * Get string representation for single precision floating point values.
  *
- * \param[in]  value  The value to convert.
+ * \param[in]  value   The value to convert.
+ * \param[in]  string  Buffer of CYAML_NUMBER_STRING_SIZE bytes to write to.
  * \return String conversion of the value.
  */
 static const char * cyaml__get_float(
-		double value)
+		double value,
+		char *string)
 {
-	static char string[64];
-
 	sprintf(string, "%g", value);
 
 	return string;
@@ -560,14 +564,14 @@ static const char * cyaml__get_float(
 /**
  * Get string representation for double precision floating point values.
  *
- * \param[in]  value  The value to convert.
+ * \param[in]  value   The value to convert.
+ * \param[in]  string  Buffer of CYAML_NUMBER_STRING_SIZE bytes to write to.
  * \return String conversion of the value.
  */
 static const char * cyaml__get_double(
-		double value)
+		double value,
+		char *string)
 {
-	static char string[64];
-
 	sprintf(string, "%.16e", value);
 
 	return string;
@@ -608,6 +612,7 @@ static cyaml_err_t cyaml__write_int(
 		const cyaml_schema_value_t *schema,
 		const uint8_t *data)
 {
+	char string[CYAML_NUMBER_STRING_SIZE];
 	cyaml_err_t err;
 	int64_t number;
 	uint64_t raw;
@@ -620,7 +625,7 @@ static cyaml_err_t cyaml__write_int(
 	number = cyaml_sign_pad(raw, schema->data_size);
 
 	return cyaml__emit_scalar(ctx, schema,
-			cyaml__get_int(number),
+			cyaml__get_int(number, string),
 			YAML_INT_TAG);
 }
 
@@ -642,8 +647,10 @@ static cyaml_err_t cyaml__write_uint(
 
 	number = cyaml_data_read(schema->data_size, data, &err);
 	if (err == CYAML_OK) {
-		const char *string = cyaml__get_uint(number, false);
-		err = cyaml__emit_scalar(ctx, schema, string, YAML_INT_TAG);
+		char string[CYAML_NUMBER_STRING_SIZE];
+		err = cyaml__emit_scalar(ctx, schema,
+				cyaml__get_uint(number, false, string),
+				YAML_INT_TAG);
 	}
 
 	return err;
@@ -732,17 +739,18 @@ static cyaml_err_t cyaml__write_float(
 		const cyaml_schema_value_t *schema,
 		const uint8_t *data)
 {
+	char buffer[CYAML_NUMBER_STRING_SIZE];
 	const char *string = NULL;
 
 	if (schema->data_size == sizeof(float)) {
 		float number;
 		memcpy(&number, data, schema->data_size);
-		string = cyaml__get_float(number);
+		string = cyaml__get_float(number, buffer);
 
 	} else if (schema->data_size == sizeof(double)) {
 		double number;
 		memcpy(&number, data, schema->data_size);
-		string = cyaml__get_double(number);
+		string = cyaml__get_double(number, buffer);
 	} else {
 		return CYAML_ERR_INVALID_DATA_SIZE;
 	}
@@ -840,8 +848,9 @@ static cyaml_err_t cyaml__emit_flags_sequence(
 		if (schema->flags & CYAML_FLAG_STRICT) {
 			return CYAML_ERR_INVALID_VALUE;
 		} else {
-			const char *string = cyaml__get_uint(number, false);
-			err = cyaml__emit_scalar(ctx, schema, string,
+			char string[CYAML_NUMBER_STRING_SIZE];
+			err = cyaml__emit_scalar(ctx, schema,
+					cyaml__get_uint(number, false, string),
 					YAML_STR_TAG);
 			if (err != CYAML_OK) {
 				return err;
@@ -906,7 +915,7 @@ static cyaml_err_t cyaml__emit_bitfield_mapping(
 	}
 
 	for (uint32_t i = 0; i < schema->bitfield.count; i++) {
-		const char *value_str;
+		char value_str[CYAML_NUMBER_STRING_SIZE];
 		uint64_t value;
 		uint64_t mask;
 
@@ -932,8 +941,9 @@ static cyaml_err_t cyaml__emit_bitfield_mapping(
 		}
 
 		/* Emit bitfield value's value */
-		value_str = cyaml__get_uint(value, true);
-		err = cyaml__emit_scalar(ctx, schema, value_str, YAML_INT_TAG);
+		err = cyaml__emit_scalar(ctx, schema,
+				cyaml__get_uint(value, true, value_str),
+				YAML_INT_TAG);
 		if (err != CYAML_OK) {
 			return err;
 		}
-- 
2.43.0


From f0f76a10f9b0e72821c8c10726d735c8fe34b475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:49 +0000
Subject: [PATCH 02/30] fix: save: report failure to flush the output file on
 close

Buffered output was only written by fclose(), whose result was ignored, so
saving to a full device reported success.
---
 src/save.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/save.c b/src/save.c
index 7fad6b1..4343451 100644
--- a/src/save.c
+++ b/src/save.c
@@ -1392,7 +1392,11 @@ cyaml_err_t cyaml_save_file(
 
 	/* Cleanup */
 	yaml_emitter_delete(&emitter);
-	fclose(file);
+	if (fclose(file) != 0) {
+		cyaml__log(config, CYAML_LOG_ERROR,
+				"Save: Failed to write file: %s\n", path);
+		return CYAML_ERR_LIBYAML_EMITTER;
+	}
 
 	return CYAML_OK;
 }
-- 
2.43.0


From 49129ef84535b75d36a35519d0743adb10bbd8c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:17 +0000
Subject: [PATCH 03/30] fix: save: sign extend enum values narrower than 64
 bits

A negative enum value held in a field of fewer than eight bytes never
matched its string, so strict saves failed and others wrote a number.
---
 src/save.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/save.c b/src/save.c
index 4343451..b0e0aaa 100644
--- a/src/save.c
+++ b/src/save.c
@@ -694,15 +694,17 @@ static cyaml_err_t cyaml__write_enum(
 		const cyaml_schema_value_t *schema,
 		const uint8_t *data)
 {
-	int64_t number;
+	uint64_t raw;
 	cyaml_err_t err;
 
-	number = (int64_t)cyaml_data_read(schema->data_size, data, &err);
+	raw = cyaml_data_read(schema->data_size, data, &err);
 	if (err == CYAML_OK) {
 		const cyaml_strval_t *strings = schema->enumeration.strings;
 		const char *string = NULL;
+		int64_t number = cyaml_sign_pad(raw, schema->data_size);
 		for (uint32_t i = 0; i < schema->enumeration.count; i++) {
-			if (number == strings[i].val) {
+			if (number == strings[i].val ||
+			    (int64_t)raw == strings[i].val) {
 				string = strings[i].str;
 				break;
 			}
-- 
2.43.0


From 97847079619890174c85c756fb34432d840afc88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:52 +0000
Subject: [PATCH 04/30] fix: load: reject negative numbers for unsigned values

strtoull() accepts a minus sign and wraps, so '-1' loaded as the maximum
64-bit value and '-18446744073709551615' loaded as 1.
---
 src/load.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/load.c b/src/load.c
index b0c8483..c7ccaef 100644
--- a/src/load.c
+++ b/src/load.c
@@ -1892,7 +1892,9 @@ static inline cyaml_err_t cyaml__read_uint64_t(
 	errno = 0;
 	temp = strtoull(value, &end, 0);
 
-	if (end == value || end == NULL || *end != '\0' || errno == ERANGE) {
+	/* Note: strtoull silently negates values with a minus sign. */
+	if (end == value || end == NULL || *end != '\0' || errno == ERANGE ||
+	    (temp != 0 && strchr(value, '-') != NULL)) {
 		cyaml__log(ctx->config, CYAML_LOG_ERROR,
 				"Load: Invalid uint64_t value: '%s'\n",
 				value);
-- 
2.43.0


From 72a09e09f96b7f339efd62a0927e6e1594305051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:58 +0000
Subject: [PATCH 05/30] fix: load: accept numerical flags that use bit 63

Save writes leftover flag bits as an unsigned number, but load parsed them
as signed, so a value with the top bit of a 64-bit flags word set could be
saved but never loaded.
---
 src/load.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/load.c b/src/load.c
index c7ccaef..2981b1a 100644
--- a/src/load.c
+++ b/src/load.c
@@ -2143,15 +2143,17 @@ static cyaml_err_t cyaml__set_flag(
 	}
 
 	if (!(schema->flags & CYAML_FLAG_STRICT)) {
-		long long temp;
+		unsigned long long temp;
 		char *end = NULL;
 		uint64_t max = (~(uint64_t)0) >> ((8 - schema->data_size) * 8);
 
 		errno = 0;
-		temp = strtoll(value, &end, 0);
+		temp = strtoull(value, &end, 0);
 
+		/* Note: strtoull silently negates values with a minus sign. */
 		if (!(end == value || end == NULL || *end != '\0' ||
-		      errno == ERANGE || temp < 0 || (uint64_t)temp > max)) {
+		      errno == ERANGE || temp > max ||
+		      (temp != 0 && strchr(value, '-') != NULL))) {
 			*flags_out |= ((uint64_t)temp);
 			return CYAML_OK;
 		}
-- 
2.43.0


From 8cffdeb32b0ab0bcaf9cfc7defcdf0809fafc8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:33 +0000
Subject: [PATCH 06/30] fix: reject bitfield and flags schemas that lead to
 invalid shifts

A zero width bit value, or a flags or bitfield data size over eight bytes,
led to shifts by 64 or more bits.  For the former any value was accepted.
---
 src/load.c | 9 +++++++--
 src/save.c | 3 ++-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/load.c b/src/load.c
index 2981b1a..db5733f 100644
--- a/src/load.c
+++ b/src/load.c
@@ -2186,7 +2186,7 @@ static cyaml_err_t cyaml__read_flags_value(
 	cyaml_err_t err = CYAML_OK;
 	const yaml_event_t *const event = cyaml__current_event(ctx);
 
-	if (schema->data_size == 0) {
+	if (schema->data_size == 0 || schema->data_size > sizeof(value)) {
 		return CYAML_ERR_INVALID_DATA_SIZE;
 	}
 
@@ -2245,7 +2245,8 @@ static cyaml_err_t cyaml__get_bitval_index(
 	uint32_t i;
 
 	for (i = 0; i < schema->bitfield.count; i++) {
-		if (bitdef[i].bits + bitdef[i].offset > schema->data_size * 8) {
+		if (bitdef[i].bits == 0 ||
+		    bitdef[i].bits + bitdef[i].offset > schema->data_size * 8) {
 			return CYAML_ERR_BAD_BITVAL_IN_SCHEMA;
 		}
 		if (cyaml__strcmp(ctx->config, schema,
@@ -2342,6 +2343,10 @@ static cyaml_err_t cyaml__read_bitfield_value(
 	cyaml_err_t err = CYAML_OK;
 	const yaml_event_t *const event = cyaml__current_event(ctx);
 
+	if (schema->data_size > sizeof(value)) {
+		return CYAML_ERR_INVALID_DATA_SIZE;
+	}
+
 	while (!exit) {
 		cyaml_event_t cyaml_event;
 		err = cyaml_get_next_event(ctx);
diff --git a/src/save.c b/src/save.c
index b0e0aaa..5e22ae5 100644
--- a/src/save.c
+++ b/src/save.c
@@ -921,7 +921,8 @@ static cyaml_err_t cyaml__emit_bitfield_mapping(
 		uint64_t value;
 		uint64_t mask;
 
-		if (bitdef[i].bits + bitdef[i].offset > schema->data_size * 8) {
+		if (bitdef[i].bits == 0 ||
+		    bitdef[i].bits + bitdef[i].offset > schema->data_size * 8) {
 			return CYAML_ERR_BAD_BITVAL_IN_SCHEMA;
 		}
 
-- 
2.43.0


From d564f74885df8b1fc55a53f0c8151f654270952f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:00 +0000
Subject: [PATCH 07/30] fix: save: do not lose precision of single precision
 floats

Values needing more than six significant digits were saved as a different
float.  Use up to nine digits, when the short form is not exact.
---
 src/save.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/save.c b/src/save.c
index 5e22ae5..adf1683 100644
--- a/src/save.c
+++ b/src/save.c
@@ -556,7 +556,11 @@ static const char * cyaml__get_float(
 		double value,
 		char *string)
 {
+	/* Prefer the short form, but not at the expense of the value. */
 	sprintf(string, "%g", value);
+	if ((float)strtod(string, NULL) != (float)value) {
+		sprintf(string, "%.9g", value);
+	}
 
 	return string;
 }
-- 
2.43.0


From 40c7a8aeea9822a6d5771fc4e493090db1c2e00e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:00 +0000
Subject: [PATCH 08/30] fix: save: only emit a flag if all of its bits are set

A flag of several bits was emitted when only some of them were set, which
set the others when the document was loaded back.
---
 src/save.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/save.c b/src/save.c
index adf1683..72a86dd 100644
--- a/src/save.c
+++ b/src/save.c
@@ -825,6 +825,7 @@ static cyaml_err_t cyaml__emit_flags_sequence(
 		const cyaml_schema_value_t *schema,
 		uint64_t number)
 {
+	const uint64_t all = number;
 	yaml_event_t event;
 	cyaml_err_t err;
 	int ret;
@@ -841,7 +842,7 @@ static cyaml_err_t cyaml__emit_flags_sequence(
 	for (uint32_t i = 0; i < schema->enumeration.count; i++) {
 		const cyaml_strval_t *strval = &schema->enumeration.strings[i];
 		uint64_t flag = (uint64_t)strval->val;
-		if (number & flag) {
+		if ((number & flag) && (all & flag) == flag) {
 			err = cyaml__emit_scalar(ctx, schema, strval->str,
 					YAML_STR_TAG);
 			if (err != CYAML_OK) {
-- 
2.43.0


From 618b2849ba19401759a9bae8448408ba57b6ddef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:28 +0000
Subject: [PATCH 09/30] fix: load: apply strict range check to the single
 precision value

Strict floats silently underflowed to zero, despite being documented to be
rejected, and decimal representations of FLT_MAX that round to it were
rejected as overflow.
---
 src/load.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/load.c b/src/load.c
index db5733f..1ddfdfa 100644
--- a/src/load.c
+++ b/src/load.c
@@ -416,16 +416,15 @@ static cyaml_err_t cyaml__store_float(
 	CYAML_UNUSED(ctx);
 
 	if (schema->data_size == sizeof(float)) {
-		float fvalue;
+		float fvalue = (float)value;
 
 		if (cyaml__flag_check_all(schema->flags, CYAML_FLAG_STRICT)) {
-			if (value > FLT_MAX || value < -FLT_MAX) {
+			if (fvalue > FLT_MAX || fvalue < -FLT_MAX ||
+			    (value != 0 && fvalue == 0)) {
 				return CYAML_ERR_INVALID_VALUE;
 			}
 		}
 
-		fvalue = (float)value;
-
 		if (validate_cb != NULL) {
 			if (!validate_cb(ctx->config->validation_ctx,
 					schema, fvalue)) {
-- 
2.43.0


From 7d21009f7db8200192dc52a40d49ce980998eeb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:49 +0000
Subject: [PATCH 10/30] fix: utf8: step over only the valid part of a broken
 sequence

The length of a character with a bad continuation byte was set to the
number of bytes not examined, so a comparison could step past the end of
the string.
---
 src/utf8.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utf8.c b/src/utf8.c
index 6e32218..58e4f27 100644
--- a/src/utf8.c
+++ b/src/utf8.c
@@ -63,7 +63,7 @@ unsigned cyaml_utf8_get_codepoint(
 			if ((s[i] & 0xc0) != 0x80) {
 				/* Need to shorten length so we don't consume
 				 * this byte with this invalid character. */
-				*len -= i;
+				*len = i;
 				goto invalid;
 			}
 
-- 
2.43.0


From 9857b64288c91a6e58875bfcc92a1c938d2ed830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:54 +0000
Subject: [PATCH 11/30] fix: free: step over whole entries in sequences of
 fixed sequences

The entry stride ignored the entry's own count, so pointers held in the
nested sequences were freed twice, or not at all.
---
 src/free.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/free.c b/src/free.c
index 266cd7b..431a39e 100644
--- a/src/free.c
+++ b/src/free.c
@@ -67,6 +67,8 @@ static void cyaml__free_sequence(
 
 	if (schema->flags & CYAML_FLAG_POINTER) {
 		data_size = sizeof(data);
+	} else if (schema->type == CYAML_SEQUENCE_FIXED) {
+		data_size *= schema->sequence.max;
 	}
 
 	for (unsigned i = 0; i < count; i++) {
-- 
2.43.0


From 5793c7300fc2989ecc939928a1ee3632284e7802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:24 +0000
Subject: [PATCH 12/30] fix: copy: allocate enough space for entries of inline
 sequences

The size of an inline sequence was taken from the entry's own data size, so
for entries held by pointer, or which are fixed length sequences, copying
(including of default values when loading) wrote past the allocation.
---
 src/copy.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/copy.c b/src/copy.c
index 64176aa..d995617 100644
--- a/src/copy.c
+++ b/src/copy.c
@@ -647,9 +647,18 @@ static size_t cyaml__get_data_len(
 		const cyaml_schema_value_t *schema,
 		unsigned seq_count)
 {
-	size_t len = cyaml__is_sequence(schema) ?
-			schema->sequence.entry->data_size :
-			schema->data_size;
+	size_t len = schema->data_size;
+
+	if (cyaml__is_sequence(schema)) {
+		const cyaml_schema_value_t *entry = schema->sequence.entry;
+
+		len = entry->data_size;
+		if (entry->flags & CYAML_FLAG_POINTER) {
+			len = sizeof(NULL);
+		} else if (entry->type == CYAML_SEQUENCE_FIXED) {
+			len *= entry->sequence.max;
+		}
+	}
 
 	if (schema->type == CYAML_SEQUENCE) {
 		len *= seq_count;
-- 
2.43.0


From de985528bec8ac6a27d048c0ff4382e533757fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:45 +0000
Subject: [PATCH 13/30] fix: copy: do not copy entries of an unset optional
 fixed sequence

The sequence state was left on the stack when the pointer was found to be
NULL, so entries were copied from, and over, the containing structure.
---
 src/copy.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/copy.c b/src/copy.c
index d995617..32a7296 100644
--- a/src/copy.c
+++ b/src/copy.c
@@ -458,6 +458,11 @@ static cyaml_err_t cyaml__clone_value(
 		ctx->state->sequence.count = seq_count;
 		err = cyaml__data_handle_pointer(ctx, schema, &data, &copy);
 		if (err != CYAML_OK) {
+			if (err == CYAML_ERR_BAD_PARAM_NULL_DATA) {
+				/* Might not be an error for optional fields,
+				 * but there are no entries to be copied. */
+				cyaml__stack_pop(ctx);
+			}
 			return err;
 		}
 		err = cyaml__write_sequence_count(ctx, schema, seq_count);
-- 
2.43.0


From 26ce096c54ed25c3791e2755af5a33daebd7ef8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:50 +0000
Subject: [PATCH 14/30] fix: copy: allow NULL pointers where the schema permits
 them

Documents with null values loaded through CYAML_FLAG_POINTER_NULL could be
saved, but not copied.
---
 src/copy.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/copy.c b/src/copy.c
index 32a7296..413dc2f 100644
--- a/src/copy.c
+++ b/src/copy.c
@@ -421,6 +421,12 @@ static cyaml_err_t cyaml__clone_value(
 			cyaml__type_to_str(schema->type),
 			schema->flags & CYAML_FLAG_POINTER ? " (pointer)" : "");
 
+	if (cyaml__flag_check_all(schema->flags, CYAML_FLAG_POINTER_NULL) &&
+	    cyaml_data_read_pointer(data) == NULL) {
+		/* NULL is allowed, and the copy is already NULL. */
+		return CYAML_OK;
+	}
+
 	if (!cyaml__is_sequence(schema)) {
 		/* Since sequences extend their allocation for each entry,
 		 * they're handled in the sequence-specific code.
-- 
2.43.0


From 2a2471323617b23338bb37da0873aebadd8c27d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:56 +0000
Subject: [PATCH 15/30] fix: save and copy empty sequences held by pointer

Loading an empty sequence leaves the pointer NULL with a zero count, but
such a sequence was then refused by both save and copy, when not optional.
---
 src/copy.c | 10 +++++++---
 src/save.c |  2 +-
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/copy.c b/src/copy.c
index 413dc2f..ff56ab5 100644
--- a/src/copy.c
+++ b/src/copy.c
@@ -421,10 +421,14 @@ static cyaml_err_t cyaml__clone_value(
 			cyaml__type_to_str(schema->type),
 			schema->flags & CYAML_FLAG_POINTER ? " (pointer)" : "");
 
-	if (cyaml__flag_check_all(schema->flags, CYAML_FLAG_POINTER_NULL) &&
+	if ((schema->flags & CYAML_FLAG_POINTER) &&
 	    cyaml_data_read_pointer(data) == NULL) {
-		/* NULL is allowed, and the copy is already NULL. */
-		return CYAML_OK;
+		if (cyaml__flag_check_all(schema->flags,
+				CYAML_FLAG_POINTER_NULL) ||
+		    (schema->type == CYAML_SEQUENCE && seq_count == 0)) {
+			/* NULL is allowed, and the copy is already NULL. */
+			return CYAML_OK;
+		}
 	}
 
 	if (!cyaml__is_sequence(schema)) {
diff --git a/src/save.c b/src/save.c
index 72a86dd..ca172f4 100644
--- a/src/save.c
+++ b/src/save.c
@@ -1021,7 +1021,7 @@ static cyaml_err_t cyaml__write_value(
 				CYAML_FLAG_POINTER_NULL)) {
 			return cyaml__emit_scalar(ctx, schema, "",
 					YAML_STR_TAG);
-		} else {
+		} else if (schema->type != CYAML_SEQUENCE || seq_count != 0) {
 			return CYAML_ERR_INVALID_VALUE;
 		}
 	}
-- 
2.43.0


From b947a9f7e9df93f108f9f09166aad8512043da5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:19 +0000
Subject: [PATCH 16/30] fix: load: reject sequences whose entry count does not
 fit its member

The count was silently truncated when written to the client's structure,
which lost entries and leaked the memory that they owned.
---
 src/load.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/load.c b/src/load.c
index 1ddfdfa..73f8d39 100644
--- a/src/load.c
+++ b/src/load.c
@@ -2826,6 +2826,18 @@ static cyaml_err_t cyaml__seq_entry(
 		return CYAML_ERR_SEQUENCE_ENTRIES_MAX;
 	}
 
+	if (state->sequence.count_size > 0 &&
+	    state->sequence.count_size < sizeof(state->sequence.count) &&
+	    state->sequence.count + 1 >
+			(UINT32_MAX >> (8 * (sizeof(state->sequence.count) -
+			state->sequence.count_size)))) {
+		cyaml__log(ctx->config, CYAML_LOG_ERROR,
+				"Load: Excessive entries for %u byte count "
+				"in sequence.\n",
+				state->sequence.count_size);
+		return CYAML_ERR_SEQUENCE_ENTRIES_MAX;
+	}
+
 	err = cyaml__data_handle_pointer(ctx, schema, event, &value_data);
 	if (err != CYAML_OK) {
 		return err;
-- 
2.43.0


From dd308fa533491e1bb6a8f69aaf1dd033f53de740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:26 +0000
Subject: [PATCH 17/30] fix: load: pass sequence entries to the validation
 callback

For sequences held by pointer, the callback got the address of the pointer
to the entries, rather than the entries themselves.
---
 src/load.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/load.c b/src/load.c
index 73f8d39..cb4fcfb 100644
--- a/src/load.c
+++ b/src/load.c
@@ -2904,7 +2904,11 @@ static cyaml_err_t cyaml__seq_end(
 	if (schema->sequence.validation_cb != NULL) {
 		if (!schema->sequence.validation_cb(
 				ctx->config->validation_ctx,
-				schema, state->data, state->sequence.count)) {
+				schema,
+				(schema->flags & CYAML_FLAG_POINTER) ?
+						state->sequence.data :
+						state->data,
+				state->sequence.count)) {
 			return CYAML_ERR_INVALID_VALUE;
 		}
 	}
-- 
2.43.0


From abd8c9c456478a0ee0c382ae2fcd4e4efb00af51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:11 +0000
Subject: [PATCH 18/30] fix: load: reject scalars with embedded NUL characters

A double quoted scalar may contain NULs, and everything following the first
was silently dropped, so strings were truncated and values such as
"12\0junk" were accepted as numbers and keys.
---
 src/load.c | 37 +++++++++++++++++++++++++++++++++++--
 1 file changed, 35 insertions(+), 2 deletions(-)

diff --git a/src/load.c b/src/load.c
index cb4fcfb..61a94d4 100644
--- a/src/load.c
+++ b/src/load.c
@@ -564,6 +564,21 @@ static const char * cyaml__get_yaml_event_alias(const yaml_event_t *event)
 	return (const char *)event->data.alias.anchor;
 }
 
+/**
+ * Check whether a scalar event's value contains NUL characters.
+ *
+ * Such values can't be represented as C strings.
+ *
+ * \param[in]  event  The libyaml event, which must be a scalar event.
+ * \return true if the value contains any NUL, false otherwise.
+ */
+static bool cyaml__scalar_has_nul(
+		const yaml_event_t *event)
+{
+	return memchr(event->data.scalar.value, '\0',
+			event->data.scalar.length) != NULL;
+}
+
 /**
  * Handle an alias event.
  *
@@ -2199,6 +2214,9 @@ static cyaml_err_t cyaml__read_flags_value(
 
 		switch (cyaml_event) {
 		case CYAML_EVT_SCALAR:
+			if (cyaml__scalar_has_nul(event)) {
+				return CYAML_ERR_INVALID_VALUE;
+			}
 			err = cyaml__set_flag(ctx, schema,
 					(const char *)event->data.scalar.value,
 					&value);
@@ -2287,6 +2305,10 @@ static cyaml_err_t cyaml__set_bitval(
 	uint64_t value;
 	uint64_t mask;
 
+	if (cyaml__scalar_has_nul(event)) {
+		return CYAML_ERR_INVALID_VALUE;
+	}
+
 	err = cyaml__get_bitval_index(ctx, schema, &index);
 	if (err != CYAML_OK) {
 		return err;
@@ -2299,6 +2321,9 @@ static cyaml_err_t cyaml__set_bitval(
 
 	switch (cyaml__get_event_type(event)) {
 	case CYAML_EVT_SCALAR:
+		if (cyaml__scalar_has_nul(event)) {
+			return CYAML_ERR_INVALID_VALUE;
+		}
 		err = cyaml__read_uint64_t(ctx,
 				(const char *)event->data.scalar.value, &value);
 		if (err != CYAML_OK) {
@@ -2495,6 +2520,13 @@ static cyaml_err_t cyaml__read_value(
 			schema->flags & CYAML_FLAG_POINTER ? " (pointer)" : "");
 
 	if (cyaml_event == CYAML_EVT_SCALAR) {
+		if (schema->type != CYAML_IGNORE &&
+		    cyaml__scalar_has_nul(event)) {
+			cyaml__log(ctx->config, CYAML_LOG_ERROR,
+					"Load: NUL character in value: %s\n",
+					(const char *)event->data.scalar.value);
+			return CYAML_ERR_INVALID_VALUE;
+		}
 		if (cyaml__string_is_null_ptr(schema,
 				(const char *)event->data.scalar.value)) {
 			cyaml__log(ctx->config, CYAML_LOG_INFO,
@@ -2699,8 +2731,9 @@ static cyaml_err_t cyaml__map_key(
 	cyaml_err_t err = CYAML_OK;
 
 	key = (const char *)event->data.scalar.value;
-	ctx->state->mapping.fields_idx = cyaml__get_mapping_field_idx(
-			ctx->config, ctx->state->schema, key);
+	ctx->state->mapping.fields_idx = cyaml__scalar_has_nul(event) ?
+			CYAML_FIELDS_IDX_NONE : cyaml__get_mapping_field_idx(
+					ctx->config, ctx->state->schema, key);
 	cyaml__log(ctx->config, CYAML_LOG_INFO, "Load: [%s]\n", key);
 
 	if (ctx->state->mapping.fields_idx == CYAML_FIELDS_IDX_NONE) {
-- 
2.43.0


From 53f796a96df5f54b151d5a368093dbd73d1a09ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:17 +0000
Subject: [PATCH 19/30] fix: load: do not report a field in backtraces before
 any key is seen

An error at the start of a mapping was reported as being in the schema's
first field, and for a mapping without fields, a NULL key was logged.
---
 src/load.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/load.c b/src/load.c
index 61a94d4..847a24d 100644
--- a/src/load.c
+++ b/src/load.c
@@ -1586,6 +1586,7 @@ static cyaml_err_t cyaml__stack_push(
 	case CYAML_STATE_IN_MAP_KEY:
 		assert(schema->type == CYAML_MAPPING);
 		s.mapping.fields = schema->mapping.fields;
+		s.mapping.fields_idx = CYAML_FIELDS_IDX_NONE;
 		s.mapping.fields_count = cyaml__get_mapping_field_count(
 				schema->mapping.fields);
 		err = cyaml__mapping_bitfieid_create(ctx, &s);
-- 
2.43.0


From f398f833bfc082eb6c8d1273eed2c7e0054691a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:23 +0000
Subject: [PATCH 20/30] fix: save and copy: report the failing field and entry
 in backtraces

The field after the failing one was reported, which for the last field of a
mapping has a NULL key, and for sequences the total count was reported.
---
 src/copy.c | 11 +++++++++--
 src/save.c | 13 ++++++++++---
 2 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/copy.c b/src/copy.c
index ff56ab5..ee6c3ab 100644
--- a/src/copy.c
+++ b/src/copy.c
@@ -307,14 +307,21 @@ static void cyaml__backtrace(
 		case CYAML_STATE_IN_MAP_KEY: /* Fall through. */
 		case CYAML_STATE_IN_MAP_VALUE:
 			assert(state->mapping.field != NULL);
+			if (state->mapping.field ==
+					state->schema->mapping.fields) {
+				cyaml__log(ctx->config, CYAML_LOG_ERROR,
+						"  in mapping\n");
+				break;
+			}
+			/* State has already advanced to the next field. */
 			cyaml__log(ctx->config, CYAML_LOG_ERROR,
 					"  in mapping field: %s\n",
-					state->mapping.field->key);
+					(state->mapping.field - 1)->key);
 			break;
 		case CYAML_STATE_IN_SEQUENCE:
 			cyaml__log(ctx->config, CYAML_LOG_ERROR,
 					"  in sequence entry: %"PRIu64"\n",
-					state->sequence.count);
+					state->sequence.entry);
 			break;
 		default:
 			break;
diff --git a/src/save.c b/src/save.c
index ca172f4..b4cde38 100644
--- a/src/save.c
+++ b/src/save.c
@@ -452,14 +452,21 @@ static void cyaml__backtrace(
 		case CYAML_STATE_IN_MAP_KEY: /* Fall through. */
 		case CYAML_STATE_IN_MAP_VALUE:
 			assert(state->mapping.field != NULL);
+			if (state->mapping.field ==
+					state->schema->mapping.fields) {
+				cyaml__log(ctx->config, CYAML_LOG_ERROR,
+						"  in mapping\n");
+				break;
+			}
+			/* State has already advanced to the next field. */
 			cyaml__log(ctx->config, CYAML_LOG_ERROR,
 					"  in mapping field: %s\n",
-					state->mapping.field->key);
+					(state->mapping.field - 1)->key);
 			break;
 		case CYAML_STATE_IN_SEQUENCE:
 			cyaml__log(ctx->config, CYAML_LOG_ERROR,
-					"  in sequence entry: %"PRIu32"\n",
-					state->sequence.count);
+					"  in sequence entry: %"PRIu64"\n",
+					state->sequence.entry);
 			break;
 		default:
 			/** \todo \ref CYAML_STATE_IN_DOC handling for multi
-- 
2.43.0


From 2ef52c627ea2593a15257b4d51b9f8edffe65682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:52 +0000
Subject: [PATCH 21/30] fix: use formats matching the arguments in log messages

---
 src/free.c | 4 +++-
 src/load.c | 4 ++--
 src/save.c | 2 +-
 3 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/free.c b/src/free.c
index 431a39e..9e66b30 100644
--- a/src/free.c
+++ b/src/free.c
@@ -22,6 +22,7 @@
  * are unbound, e.g. for a data tree structure.
  */
 
+#include <inttypes.h>
 #include <stdbool.h>
 #include <assert.h>
 #include <string.h>
@@ -63,7 +64,8 @@ static void cyaml__free_sequence(
 	uint32_t data_size = schema->data_size;
 
 	cyaml__log(cfg, CYAML_LOG_DEBUG,
-			"Free: Freeing sequence with count: %u\n", count);
+			"Free: Freeing sequence with count: %"PRIu64"\n",
+			count);
 
 	if (schema->flags & CYAML_FLAG_POINTER) {
 		data_size = sizeof(data);
diff --git a/src/load.c b/src/load.c
index 847a24d..9d07ba8 100644
--- a/src/load.c
+++ b/src/load.c
@@ -184,7 +184,7 @@ static inline cyaml_err_t cyaml__validate_int(
 	if ((min != 0 || max != 0) && (value < min || value > max)) {
 		cyaml__log(ctx->config, CYAML_LOG_ERROR,
 				"Load: INT value '%" PRIi64 "' out of range "
-				"(min: %" PRIi64 " max: % " PRIi64 ")\n",
+				"(min: %" PRIi64 " max: %" PRIi64 ")\n",
 				value, min, max);
 		return CYAML_ERR_INVALID_VALUE;
 	}
@@ -286,7 +286,7 @@ static inline cyaml_err_t cyaml__validate_uint(
 	if ((min != 0 || max != 0) && (value < min || value > max)) {
 		cyaml__log(ctx->config, CYAML_LOG_ERROR,
 				"Load: UINT value '%" PRIu64 "' out of range "
-				"(min: %" PRIu64 " max: % " PRIu64 ")\n",
+				"(min: %" PRIu64 " max: %" PRIu64 ")\n",
 				value, min, max);
 		return CYAML_ERR_INVALID_VALUE;
 	}
diff --git a/src/save.c b/src/save.c
index b4cde38..aa7923c 100644
--- a/src/save.c
+++ b/src/save.c
@@ -1236,7 +1236,7 @@ static cyaml_err_t cyaml__write_sequence(
 		offset = data_size * ctx->state->sequence.entry;
 
 		cyaml__log(ctx->config, CYAML_LOG_INFO,
-				"Save: Sequence entry %u of %u\n",
+				"Save: Sequence entry %"PRIu64" of %"PRIu64"\n",
 				ctx->state->sequence.entry + 1,
 				ctx->state->sequence.count);
 
-- 
2.43.0


From 6e24216faf1cb99e9240b236b5459d12c0e7a834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:29 +0000
Subject: [PATCH 22/30] fix: copy: accept allocated sequences with no entries

A sequence held by pointer whose count is zero made the copy request a
zero sized allocation, and take the NULL that gives for out of memory.
---
 src/copy.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/copy.c b/src/copy.c
index ee6c3ab..09c9418 100644
--- a/src/copy.c
+++ b/src/copy.c
@@ -473,6 +473,11 @@ static cyaml_err_t cyaml__clone_value(
 			return err;
 		}
 		ctx->state->sequence.count = seq_count;
+		if (schema->type == CYAML_SEQUENCE && seq_count == 0 &&
+		    (schema->flags & CYAML_FLAG_POINTER)) {
+			/* Nothing to allocate; the copy is already NULL. */
+			return CYAML_OK;
+		}
 		err = cyaml__data_handle_pointer(ctx, schema, &data, &copy);
 		if (err != CYAML_OK) {
 			if (err == CYAML_ERR_BAD_PARAM_NULL_DATA) {
-- 
2.43.0


From 84d22cf5f84110bc4691e0bbe46a12050b6a74ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:36 +0000
Subject: [PATCH 23/30] fix: utf8: fold all letters of Latin Extended-B

Letters whose lower case is in IPA Extensions, and hwair, were left out of
the otherwise complete table, so they never matched case insensitively.
---
 src/utf8.c | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/utf8.c b/src/utf8.c
index 58e4f27..aac5e67 100644
--- a/src/utf8.c
+++ b/src/utf8.c
@@ -141,14 +141,32 @@ static unsigned cyaml_utf8_to_lower(unsigned c)
 
 	} else switch (c) {
 		case 0x0178: return 0x00ff; /* Latin Extended-A */
+		case 0x0181: return 0x0253; /* Latin Extended-B */
+		case 0x0186: return 0x0254; /* Latin Extended-B */
 		case 0x0187: return 0x0188; /* Latin Extended-B */
+		case 0x0189: return 0x0256; /* Latin Extended-B */
+		case 0x018a: return 0x0257; /* Latin Extended-B */
 		case 0x018b: return 0x018c; /* Latin Extended-B */
 		case 0x018e: return 0x01dd; /* Latin Extended-B */
+		case 0x018f: return 0x0259; /* Latin Extended-B */
+		case 0x0190: return 0x025b; /* Latin Extended-B */
 		case 0x0191: return 0x0192; /* Latin Extended-B */
+		case 0x0193: return 0x0260; /* Latin Extended-B */
+		case 0x0194: return 0x0263; /* Latin Extended-B */
+		case 0x0196: return 0x0269; /* Latin Extended-B */
+		case 0x0197: return 0x0268; /* Latin Extended-B */
 		case 0x0198: return 0x0199; /* Latin Extended-B */
+		case 0x019c: return 0x026f; /* Latin Extended-B */
+		case 0x019d: return 0x0272; /* Latin Extended-B */
+		case 0x019f: return 0x0275; /* Latin Extended-B */
+		case 0x01a6: return 0x0280; /* Latin Extended-B */
 		case 0x01a7: return 0x01a8; /* Latin Extended-B */
+		case 0x01a9: return 0x0283; /* Latin Extended-B */
 		case 0x01ac: return 0x01ad; /* Latin Extended-B */
+		case 0x01ae: return 0x0288; /* Latin Extended-B */
 		case 0x01af: return 0x01b0; /* Latin Extended-B */
+		case 0x01b1: return 0x028a; /* Latin Extended-B */
+		case 0x01b2: return 0x028b; /* Latin Extended-B */
 		case 0x01b7: return 0x0292; /* Latin Extended-B */
 		case 0x01b8: return 0x01b9; /* Latin Extended-B */
 		case 0x01bc: return 0x01bd; /* Latin Extended-B */
@@ -161,12 +179,15 @@ static unsigned cyaml_utf8_to_lower(unsigned c)
 		case 0x01f1: return 0x01f3; /* Latin Extended-B */
 		case 0x01f2: return 0x01f3; /* Latin Extended-B */
 		case 0x01f4: return 0x01f5; /* Latin Extended-B */
+		case 0x01f6: return 0x0195; /* Latin Extended-B */
 		case 0x01f7: return 0x01bf; /* Latin Extended-B */
 		case 0x0220: return 0x019e; /* Latin Extended-B */
 		case 0x023b: return 0x023c; /* Latin Extended-B */
 		case 0x023d: return 0x019a; /* Latin Extended-B */
 		case 0x0241: return 0x0242; /* Latin Extended-B */
 		case 0x0243: return 0x0180; /* Latin Extended-B */
+		case 0x0244: return 0x0289; /* Latin Extended-B */
+		case 0x0245: return 0x028c; /* Latin Extended-B */
 	}
 
 	return c;
-- 
2.43.0


From 13aad64ec43a9181cab9fe65a4ca577660eef292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:47 +0000
Subject: [PATCH 24/30] fix: utf8: fold the last two letters of Latin
 Extended-B

The lower case of U+023A and U+023E is in Latin Extended-C.
---
 src/utf8.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/utf8.c b/src/utf8.c
index aac5e67..89fc619 100644
--- a/src/utf8.c
+++ b/src/utf8.c
@@ -182,8 +182,10 @@ static unsigned cyaml_utf8_to_lower(unsigned c)
 		case 0x01f6: return 0x0195; /* Latin Extended-B */
 		case 0x01f7: return 0x01bf; /* Latin Extended-B */
 		case 0x0220: return 0x019e; /* Latin Extended-B */
+		case 0x023a: return 0x2c65; /* Latin Extended-B */
 		case 0x023b: return 0x023c; /* Latin Extended-B */
 		case 0x023d: return 0x019a; /* Latin Extended-B */
+		case 0x023e: return 0x2c66; /* Latin Extended-B */
 		case 0x0241: return 0x0242; /* Latin Extended-B */
 		case 0x0243: return 0x0180; /* Latin Extended-B */
 		case 0x0244: return 0x0289; /* Latin Extended-B */
-- 
2.43.0


From 576055e0cd2a4386b2e5f5057997c9edef7720f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:02 +0000
Subject: [PATCH 25/30] fix: release everything when a sequence's count size is
 bad

A load that failed because a sequence's count_size is not supported leaked
the values of the mapping's later fields, and any default value copied for
the sequence.
---
 src/free.c |  4 +++-
 src/load.c | 29 +++++++++++------------------
 2 files changed, 14 insertions(+), 19 deletions(-)

diff --git a/src/free.c b/src/free.c
index 9e66b30..690ef9f 100644
--- a/src/free.c
+++ b/src/free.c
@@ -104,7 +104,9 @@ static void cyaml__free_mapping(
 			count = cyaml_data_read(schema->count_size,
 					data + schema->count_offset, &err);
 			if (err != CYAML_OK) {
-				return;
+				/* Nothing can have been put in a sequence
+				 * whose count could not be stored. */
+				count = 0;
 			}
 		}
 		cyaml__free_value(cfg, &schema->value,
diff --git a/src/load.c b/src/load.c
index 9d07ba8..70bf6b7 100644
--- a/src/load.c
+++ b/src/load.c
@@ -1464,6 +1464,17 @@ static cyaml_err_t cyaml__field_apply_default(
 		return CYAML_ERR_BAD_TYPE_IN_SCHEMA;
 	}
 
+	if (schema->type == CYAML_SEQUENCE) {
+		err = cyaml_data_write(seq_count,
+				field->count_size,
+				ctx->state->data + field->count_offset);
+		if (err != CYAML_OK) {
+			cyaml__log(ctx->config, CYAML_LOG_ERROR,
+				"Load: Failed writing sequence count\n");
+			return err;
+		}
+	}
+
 	ptr = cyaml__flag_check_all(schema->flags, CYAML_FLAG_POINTER);
 	err = cyaml_copy(ctx->config, schema,
 			schema_default,
@@ -1475,20 +1486,8 @@ static cyaml_err_t cyaml__field_apply_default(
 					"Load: Failed to copy default value "
 					"for field %s to %p\n",
 					field->key, data);
-		goto exit;
 	}
 
-	if (schema->type == CYAML_SEQUENCE) {
-		err = cyaml_data_write(seq_count,
-				field->count_size,
-				ctx->state->data + field->count_offset);
-		if (err != CYAML_OK) {
-			cyaml__log(ctx->config, CYAML_LOG_ERROR,
-				"Load: Failed writing sequence count\n");
-		}
-	}
-
-exit:
 	return err;
 }
 
@@ -2890,12 +2889,6 @@ static cyaml_err_t cyaml__seq_entry(
 		if (err != CYAML_OK) {
 			cyaml__log(ctx->config, CYAML_LOG_ERROR,
 				"Load: Failed writing sequence count\n");
-			if (schema->flags & CYAML_FLAG_POINTER) {
-				cyaml__log(ctx->config, CYAML_LOG_DEBUG,
-						"Load: Freeing %p\n",
-						state->sequence.data);
-				cyaml__free(ctx->config, state->sequence.data);
-			}
 			return err;
 		}
 	}
-- 
2.43.0


From b54437b0acedfeab065283e5c242f1432f6162d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:30 +0000
Subject: [PATCH 26/30] fix: report bad data sizes when copying and allocating

Copying a number whose data size is not supported copied as many bytes as it
said, past the end of the value, and for pointers to values of no size an out
of memory error was returned.
---
 src/copy.c | 8 ++++++++
 src/load.c | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/src/copy.c b/src/copy.c
index 09c9418..44ea056 100644
--- a/src/copy.c
+++ b/src/copy.c
@@ -266,6 +266,10 @@ static cyaml_err_t cyaml__data_handle_pointer(
 			break;
 		}
 
+		if (delta == 0) {
+			return CYAML_ERR_INVALID_DATA_SIZE;
+		}
+
 		cyaml__log(ctx->config, CYAML_LOG_DEBUG,
 				"Copy: Allocating: (%zu bytes)\n", delta);
 
@@ -346,6 +350,10 @@ static cyaml_err_t cyaml__clone_number(
 {
 	CYAML_UNUSED(ctx);
 
+	if (schema->data_size == 0 || schema->data_size > sizeof(uint64_t)) {
+		return CYAML_ERR_INVALID_DATA_SIZE;
+	}
+
 	memcpy(copy, data, schema->data_size);
 
 	return CYAML_OK;
diff --git a/src/load.c b/src/load.c
index 70bf6b7..1e13777 100644
--- a/src/load.c
+++ b/src/load.c
@@ -1367,6 +1367,10 @@ static cyaml_err_t cyaml__field_scalar_apply_default(
 			break;
 		}
 
+		if (size == 0) {
+			return CYAML_ERR_INVALID_DATA_SIZE;
+		}
+
 		value_data = cyaml__realloc(ctx->config, value_data, 0,
 				size, true);
 		if (value_data == NULL) {
@@ -1776,6 +1780,10 @@ static cyaml_err_t cyaml__data_handle_pointer(
 			break;
 		}
 
+		if (delta == 0) {
+			return CYAML_ERR_INVALID_DATA_SIZE;
+		}
+
 		value_data = cyaml__realloc(ctx->config, value_data,
 				offset, offset + delta, true);
 		if (value_data == NULL) {
-- 
2.43.0


From da3d829b732b0b921e9a2c200e0118ba094fe12c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:22 +0000
Subject: [PATCH 27/30] fix: copy: report float sizes which are neither a
 float's nor a double's

---
 src/copy.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/copy.c b/src/copy.c
index 44ea056..230171d 100644
--- a/src/copy.c
+++ b/src/copy.c
@@ -354,6 +354,12 @@ static cyaml_err_t cyaml__clone_number(
 		return CYAML_ERR_INVALID_DATA_SIZE;
 	}
 
+	if (schema->type == CYAML_FLOAT &&
+	    schema->data_size != sizeof(float) &&
+	    schema->data_size != sizeof(double)) {
+		return CYAML_ERR_INVALID_DATA_SIZE;
+	}
+
 	memcpy(copy, data, schema->data_size);
 
 	return CYAML_OK;
-- 
2.43.0


From 5ec093c7ec1a88c2406fd76a332817cb70ba88e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:41 +0000
Subject: [PATCH 28/30] fix: Use full width arithmetic for offsets of sequence
 entries

Loading and freeing multiplied the size of an entry and its index as 32 bit
numbers, so with sequences of more than 4 GiB, later entries were written over
the first ones, and what they pointed at was not freed.
---
 src/free.c | 6 +++---
 src/load.c | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/free.c b/src/free.c
index 690ef9f..fd415b8 100644
--- a/src/free.c
+++ b/src/free.c
@@ -61,7 +61,7 @@ static void cyaml__free_sequence(
 		uint64_t count)
 {
 	const cyaml_schema_value_t *schema = sequence_schema->sequence.entry;
-	uint32_t data_size = schema->data_size;
+	size_t data_size = schema->data_size;
 
 	cyaml__log(cfg, CYAML_LOG_DEBUG,
 			"Free: Freeing sequence with count: %"PRIu64"\n",
@@ -73,9 +73,9 @@ static void cyaml__free_sequence(
 		data_size *= schema->sequence.max;
 	}
 
-	for (unsigned i = 0; i < count; i++) {
+	for (uint64_t i = 0; i < count; i++) {
 		cyaml__log(cfg, CYAML_LOG_DEBUG,
-				"Free: Freeing sequence entry: %u\n", i);
+				"Free: Freeing sequence entry: %"PRIu64"\n", i);
 		cyaml__free_value(cfg, schema, data + data_size * i, 0);
 	}
 }
diff --git a/src/load.c b/src/load.c
index 1e13777..d0fc27c 100644
--- a/src/load.c
+++ b/src/load.c
@@ -2887,7 +2887,7 @@ static cyaml_err_t cyaml__seq_entry(
 	cyaml__log(ctx->config, CYAML_LOG_DEBUG,
 			"Load: Sequence entry: %u (%"PRIu32" bytes)\n",
 			state->sequence.count, schema->data_size);
-	value_data += schema->data_size * state->sequence.count;
+	value_data += (size_t)schema->data_size * state->sequence.count;
 	state->sequence.count++;
 
 	if (schema->type != CYAML_SEQUENCE_FIXED) {
-- 
2.43.0


From 944372f2ad48678571cda9d7560f04c14e44f35e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:47 +0000
Subject: [PATCH 29/30] fix: Refuse to save text that is too long for LibYAML

Its length was converted to int, so strings and names of 4 GiB or more were
saved without all but their first few bytes.
---
 src/save.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/save.c b/src/save.c
index aa7923c..81a27ef 100644
--- a/src/save.c
+++ b/src/save.c
@@ -492,8 +492,9 @@ static cyaml_err_t cyaml__emit_scalar(
 		const char *value,
 		const char *tag)
 {
-	int ret;
+	int ret = 0;
 	yaml_event_t event;
+	size_t len = strlen(value);
 
 	if (schema->type == CYAML_MAPPING) {
 		cyaml__log(ctx->config, CYAML_LOG_INFO, "Save: [%s]\n", value);
@@ -502,11 +503,14 @@ static cyaml_err_t cyaml__emit_scalar(
 				"Save:   <%s>\n", value);
 	}
 
-	ret = yaml_scalar_event_initialize(&event, NULL,
-			(yaml_char_t *)tag,
-			(yaml_char_t *)value,
-			(int)strlen(value),
-			1, 1, cyaml__get_emit_style_scalar(schema));
+	/* LibYAML takes the length as an int. */
+	if (len < INT_MAX) {
+		ret = yaml_scalar_event_initialize(&event, NULL,
+				(yaml_char_t *)tag,
+				(yaml_char_t *)value,
+				(int)len,
+				1, 1, cyaml__get_emit_style_scalar(schema));
+	}
 
 	return cyaml__emit_event_helper(ctx, ret, &event);
 }
-- 
2.43.0


From b027b8e043b9b09d310dee6d177373d6e61267aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:25 +0000
Subject: [PATCH 30/30] fix: Accept values of unsigned enum types on load

---
 src/load.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/load.c b/src/load.c
index d0fc27c..1cafb22 100644
--- a/src/load.c
+++ b/src/load.c
@@ -228,6 +228,11 @@ static inline cyaml_err_t cyaml__store_int(
 	max = (int64_t)((UINT64_MAX >> ((8 - schema->data_size) * 8)) / 2);
 	min = (-max) - 1;
 
+	if (schema->type == CYAML_ENUM && schema->data_size < sizeof(value)) {
+		/* The type used for an enum may be unsigned. */
+		max = max * 2 + 1;
+	}
+
 	if (value < min || value > max) {
 		cyaml__log(ctx->config, CYAML_LOG_ERROR,
 				"Load: %s value out of range: '%" PRId64 "'\n",
-- 
2.43.0

